"""Common machinery of the checks: build drivers from /repo, run them, validate traces with TLC, replay TLC's
transitions on the real code, write evidence, report."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LALIB_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class Infra(Exception):
    """The check could not give an answer."""


# ------------------------------------------------------------------------------------------------ configurations
ELEMS = {  # name -> (C++ type, complex?, largest magnitude kept exact)
    "double": ("double", False, 2 ** 29),
    "float": ("float", False, 2 ** 23),
    "cdouble": ("std::complex<double>", True, 2 ** 29),
    "cfloat": ("std::complex<float>", True, 2 ** 23),
    "ldouble": ("long double", False, 2 ** 29),
    "cldouble": ("std::complex<long double>", True, 2 ** 29),
    "int": ("std::int32_t", False, 2 ** 29),
    "uint": ("std::uint32_t", False, 2 ** 29),
}
BACKENDS = {"internal": ["-DLALIB_INTERNAL_BACKEND"], "blas": ["-DLALIB_BLAS_BACKEND"],
            "lapack": ["-DLALIB_BLAS_BACKEND", "-DLALIB_LAPACK_BACKEND"],
            "accel": ["-DLALIB_INTERNAL_BACKEND", "-DLALIB_USE_ACCELERATOR"]}          # runs on the host


class Config:
    def __init__(self, driver, elem, backend, extra=()):
        self.driver, self.elem, self.backend, self.extra = driver, elem, backend, tuple(extra)

    @property
    def cplx(self): return ELEMS[self.elem][1]
    @property
    def lim(self): return ELEMS[self.elem][2]
    @property
    def name(self): return f"{self.driver}-{self.elem}-{self.backend}"
    def key(self): return (self.driver, self.elem, self.backend, self.extra)
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return self.key() == o.key()


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"),):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh: h.update(fh.read())
    return h.hexdigest()


_tree = None


def build(cfg):
    """Compile one driver against /repo's current working tree (cached by content)."""
    global _tree
    if _tree is None: _tree = tree_hash()
    src = os.path.join(VERIF, "harness", f"driver_{cfg.driver}.cc")
    flags = ["-fopenmp", "-O2", "-g0", "-w", "-DNDEBUG", "-std=gnu++20", f"-DELEM={ELEMS[cfg.elem][0]}"] + BACKENDS[cfg.backend] + list(cfg.extra)
    h = hashlib.sha256((_tree + " ".join(flags)).encode())
    for f in (src, os.path.join(VERIF, "harness", "common.hpp")):
        with open(f, "rb") as fh: h.update(fh.read())
    out = os.path.join(BUILD, f"{cfg.name}-{h.hexdigest()[:20]}")
    if os.path.exists(out): return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = f"{out}.{os.getpid()}.{threading.get_ident()}.tmp"
    cmd = ["g++", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")] + flags + [src, "-o", tmp,
           "-llapacke", "-lopenblas", "-lgomp", "-lpthread", "-lm", "-ldl"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Infra(f"cannot build {cfg.name}:\n" + r.stderr[-4000:])
    os.rename(tmp, out)
    return out


def prune_build(keep_hours=6):
    if not os.path.isdir(BUILD): return
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try:
            if time.time() - os.path.getmtime(p) > keep_hours * 3600: os.remove(p)
        except OSError: pass


# ------------------------------------------------------------------------------------------------ running things
def run_driver(binary, script, threads, scratch, limit=40, timeout=300, extra_env=None):
    """-> list of trace lines. The driver reports crashes and hangs of the code under test in the trace itself."""
    env = {"PATH": os.environ.get("PATH", ""), "OMP_NUM_THREADS": str(threads), "OPENBLAS_NUM_THREADS": "1", "CALL_LIMIT": str(limit),
           "OMP_DYNAMIC": "FALSE", "OMP_WAIT_POLICY": "PASSIVE"}
    if extra_env: env.update(extra_env)
    try:
        r = subprocess.run([binary], input=script.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace").splitlines()
        return [l for l in out if l.endswith("}")] + ['{"op":"Hang","call":"(driver timeout)"}']
    err = r.stderr.decode(errors="replace")
    lines = r.stdout.decode(errors="replace").splitlines()
    if r.returncode == 3:      # a call makes no sense after what happened: the trace before it has to say why
        lines = [l for l in lines if l.endswith("}")] + [json.dumps({"op": "BadScript", "call": err[-500:]})]
    elif r.returncode != 0:
        lines = [l for l in lines if l.endswith("}")] + [json.dumps({"op": "Crash", "call": f"exit {r.returncode}"})]
    return lines


TLC_ERR = re.compile(r"TRACE-(ACCEPTED|REJECTED) (\d+)")


def tlc(module, config, scratch, env=None, workers=1, heap="3g", timeout=840, args=()):
    meta = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ); e.update(env or {})
    gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers),
           "-config", os.path.join(SPEC, config), "-metadir", meta, "-noTE", *args, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra(f"TLC timed out on {module} {config}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


def validate(module, config, lines, cplx, scratch, other=None):
    """-> (accepted, 1-based rejected line, generated, distinct, why)"""
    res = _validate(module, config, lines, cplx, scratch, other)
    if not res[0] and not other and res[1] >= len(lines) and lines and '"op": "BadScript"' in lines[-1]: raise Infra("driver rejects its script: " + lines[-1])
    return res


def _validate(module, config, lines, cplx, scratch, other=None):
    paths = []
    for ls in [lines] + ([other] if other else []):
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch); paths.append(path)
        with os.fdopen(fd, "w") as f: f.write("\n".join(ls) + "\n")
    rc, out = tlc(module, config, scratch, env={"TRACE": paths[0], "TRACE_B": paths[-1], "CPLX": "1" if cplx else "0"})
    for path in paths: os.remove(path)
    g, d = tlc_counts(out)
    m = TLC_ERR.search(out)
    if m and m.group(1) == "ACCEPTED" and int(m.group(2)) == len(lines) and "Error:" not in out: return True, 0, g, d, ""
    if m and m.group(1) == "REJECTED": return False, int(m.group(2)), g, d, ""
    if re.search(r"Invariant \w+ is violated", out): return False, max(1, d - 1), g, d, "invariant violated"
    if "Evaluating" in out or "verflow" in out or "evaluat" in out or "Attempted to" in out:
        # the logged values cannot be evaluated against the action that must explain them
        s = re.findall(r"^State (\d+)", out, re.M)
        k = max(map(int, s)) if s else 1
        return False, min(k, len(lines)), g, d, "not evaluable: " + " ".join(out.split("Error:")[1].split())[:400] if "Error:" in out else ""
    raise Infra(f"TLC gave no verdict on a trace of {module}:\n{out[-3000:]}")


# ------------------------------------------------------------------------------------------------ comparing logs
BITS = re.compile(r',"h":\d+')
ROUNDED = {"norm2", "divr", "invr", "backsub", "backsubr"}     # calls whose results are logged rounded


def split_value(v):
    """structure (numbers replaced by #) and numbers of a logged value"""
    nums = []
    def walk(x):
        if isinstance(x, bool) or isinstance(x, str): return json.dumps(x)
        if isinstance(x, (int, float)): nums.append(x); return "#"
        if isinstance(x, list): return "[" + ",".join(map(walk, x)) + "]"
        return "{" + ",".join(k + ":" + walk(x[k]) for k in sorted(x) if k != "h") + "}"
    return {"s": walk(v), "v": nums}


def for_agree(lines, tol):
    """the log in the form spec/Agree.tla reads"""
    res = []
    for l in lines:
        e = json.loads(l)
        call = json.dumps({k: v for k, v in e.items() if k not in ("out", "ret", "ch")}, sort_keys=True)
        res.append(json.dumps({"call": call, "out": e.get("out", ""), "ret": split_value(e.get("ret", [])), "tol": max(tol, 1 if e["op"] in ROUNDED else 0), "tolch": tol,
                               "ch": {r: split_value(v) for r, v in e.get("ch", {}).items()}}))
    return res


# ------------------------------------------------------------------------------------------------ a check
class Job:
    """One script for one machine, to be run under one configuration and thread count."""
    def __init__(self, label, spec, cfg, script, threads=1, env=None, tol=0):
        self.label, self.spec, self.cfg, self.script, self.threads, self.env, self.tol = label, spec, cfg, script, threads, env, tol


class Check:
    def log(self, what):
        if os.environ.get("VERIF_VERBOSE"): print(f"  [{time.time() - self.t0:6.1f}] {what}", file=sys.stderr)

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"lalib-{prop}-")
        self.states = self.transitions = self.traces = self.events = self.replayed = 0
        self.samples, self.violations, self.notes = [], [], []
        self.models, self.kinds, self.configs = [], {}, {}
        self.lock = threading.Lock()

    def rng(self, salt): return random.Random(f"{self.seed}/{self.prop}/{salt}")
    @property
    def thorough(self): return self.tier == "thorough"

    # -- models -----------------------------------------------------------------------------------
    def model(self, module, config, workers=4, timeout=840):
        """Exhaustively check a specification; returns the transitions it printed."""
        rc, out = tlc(module, config, self.scratch, workers=workers, heap="6g", timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            body = "\n".join(l for l in out.splitlines() if not l.startswith('"'))
            raise Infra(f"the specification {module} ({config}) does not satisfy its properties:\n{body[-4000:]}")
        self.log(f"model {config}")
        g, d = tlc_counts(out)
        with self.lock:
            self.states += d; self.transitions += g
            self.models.append({"model": config[:-4], "states": d, "transitions": g})
        return [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"{')]

    def must_fail(self, module, config):
        """A model of what the property forbids: the specification's properties have to notice."""
        rc, out = tlc(module, config, self.scratch, workers=4, heap="4g")
        if not re.search(r"is violated|was violated|were violated", out): raise Infra(f"{module} ({config}) is not rejected")
        self.models.append({"model": config[:-4], "rejected": True})

    # -- conformance, code to specification ---------------------------------------------------------
    def traces_of(self, jobs, par_run=None):
        """Run the jobs, deduplicate equal traces, validate them with TLC."""
        cfgs = {j.cfg for j in jobs}
        with cf.ThreadPoolExecutor(NPROC) as ex: bins = dict(zip(cfgs, ex.map(build, cfgs)))

        self.log("built")
        def go(j): return run_driver(bins[j.cfg], j.script, j.threads, self.scratch, extra_env=j.env)
        with cf.ThreadPoolExecutor(par_run or max(2, NPROC // 2)) as ex: outs = list(ex.map(go, jobs))
        self.log("ran")
        groups = {}
        for j, lines in zip(jobs, outs):
            key = (j.spec, j.cfg.cplx, hashlib.sha256("\n".join(lines).encode()).hexdigest())
            groups.setdefault(key, []).append((j, lines))
            k = f"{j.cfg.elem}/{j.cfg.backend}/threads={j.threads}"
            self.configs[k] = self.configs.get(k, 0) + 1

        def val(item):
            (spec, cplx, _), js = item
            lines = js[0][1]
            return item, validate(*spec, lines, cplx, self.scratch)
        self.ngroups = len(groups)
        with cf.ThreadPoolExecutor(max(2, NPROC - 2)) as ex: res = list(ex.map(val, groups.items()))
        self.log(f"validated {len(groups)} of {len(jobs)}")
        for ((spec, cplx, _), js), (ok, k, g, d, why) in res:
            j, lines = js[0]
            self.states += d; self.transitions += g
            if ok:
                self.traces += len(js); self.events += len(lines)
                for l in lines:
                    op = l[7:l.index('"', 7)]
                    self.kinds[op] = self.kinds.get(op, 0) + 1
                if len(self.samples) < 3 and len(lines) > 4:
                    self.samples.append({"config": j.cfg.name, "threads": j.threads, "label": j.label, "events": [l[:400] for l in lines[2:5]]})
            else:
                if '"op":"Hang"' in lines[-1]:          # a slow sandbox is no violation: it must hang again, alone
                    lines2 = run_driver(bins[j.cfg], j.script, j.threads, self.scratch, limit=90, extra_env=j.env)
                    if '"op":"Hang"' not in lines2[-1]:
                        ok2 = validate(*spec, lines2, cplx, self.scratch)
                        if ok2[0]: self.traces += len(js); self.events += len(lines2); continue
                        lines, k, why = lines2, ok2[1], ok2[4]
                self.violation(j, lines, k, why, [f"{x.cfg.name} threads={x.threads}" for x, _ in js])
        return [(j, lines) for j, lines in zip(jobs, outs)]

    # -- conformance of several configurations with each other ------------------------------------------
    def agreement(self, jobs, strict=()):
        """Jobs with one label run the same script; the first is the reference. All logs must agree (spec/Agree.tla, up to
        job.tol), and the specification of the machine must accept them. Logs that agree and are rejected alike break
        some other property; they count here only for the labels in `strict`."""
        cfgs = {j.cfg for j in jobs}
        with cf.ThreadPoolExecutor(NPROC) as ex: bins = dict(zip(cfgs, ex.map(build, cfgs)))
        self.log("built")

        def go(j, limit=40):
            lines = run_driver(bins[j.cfg], j.script, j.threads, self.scratch, limit=limit, extra_env=j.env)
            logs, cur = [], []
            for l in lines:
                if l == "#thread": cur = []; logs.append(cur)
                else: cur.append(l)
            return logs or [cur]
        with cf.ThreadPoolExecutor(3) as ex: outs = list(ex.map(go, jobs))
        for i, (j, logs) in enumerate(zip(jobs, outs)):
            if any(l and '"op":"Hang"' in l[-1] for l in logs): outs[i] = go(j, 120)
        self.log("ran")
        groups = {}
        for j, logs in zip(jobs, outs):
            k = f"{j.cfg.elem}/{j.cfg.backend}/threads={j.threads}" + "".join(f"/{a}={b}" for a, b in sorted((j.env or {}).items()))
            self.configs[k] = self.configs.get(k, 0) + 1
            for lines in logs: groups.setdefault((j.label, j.script), []).append((j, lines))

        def judge(item):
            (label, _), runs = item
            j0, ref = runs[0]
            bare = [BITS.sub("", l) for l in ref]
            distinct, bad, states, same = {}, [], [0, 0], 0
            for j, lines in runs:
                key = hashlib.sha256("\n".join(lines).encode()).hexdigest()
                if key in distinct: same += 1; continue
                distinct[key] = (j, lines)
                if lines is ref or [BITS.sub("", l) for l in lines] == bare: continue
                ok, k, g, d, why = validate("Agree", "Agree.cfg", for_agree(ref, j.tol), False, self.scratch, other=for_agree(lines, j.tol))
                states[0] += g; states[1] += d
                if not ok:
                    rl = ref[k - 1][:1500] if k - 1 < len(ref) else "(end)"
                    bad.append((j, lines, k, f"differs from {j0.cfg.name} threads={j0.threads} {j0.env or ''}: {rl}"))
            rej = []
            for j, lines in distinct.values():
                ok, k, g, d, why = validate(*j.spec, lines, j.cfg.cplx, self.scratch)
                states[0] += g; states[1] += d
                if not ok: rej.append((j, lines, k, why))
            return label, runs, distinct, bad, rej, states
        with cf.ThreadPoolExecutor(max(2, NPROC - 2)) as ex: res = list(ex.map(judge, groups.items()))
        self.log(f"judged {len(groups)} scripts, {sum(len(r[2]) for r in res)} distinct logs of {sum(len(r[1]) for r in res)}")
        for label, runs, distinct, bad, rej, (g, d) in res:
            self.states += d; self.transitions += g
            if not bad and rej:
                if label in strict or len(rej) < len(distinct): bad = rej
                else: self.notes.append(f"{label}: all configurations agree on something the specification does not allow (another property)")
            if bad:
                for j, lines, k, why in bad[:3]: self.violation(j, lines, k, why, [f"{j.cfg.name} threads={j.threads} {j.env or ''}"])
                continue
            self.traces += len(runs); self.events += len(runs[0][1])
            for l in runs[0][1]:
                op = l[7:l.index('"', 7)]
                self.kinds[op] = self.kinds.get(op, 0) + 1
            if len(self.samples) < 3 and len(runs[0][1]) > 4:
                self.samples.append({"label": label, "configurations": len(runs), "events": [l[:400] for l in runs[0][1][2:5]]})

    def violation(self, job, lines, k, why, where):
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        start = max([i for i, l in enumerate(lines[:k]) if l.startswith('{"op":"reset"')] or [0])
        nth = sum(l.startswith('{"op":"reset"') for l in lines[:k])
        sl = job.script.splitlines()
        resets = [i for i, l in enumerate(sl) if l.startswith("reset")]
        seg = sl[resets[nth - 1]:resets[nth] if nth < len(resets) else None] if 0 < nth <= len(resets) else sl
        ev = lines[k - 1] if k - 1 < len(lines) else "(end of trace)"
        txt = [f"property   {self.prop}", f"history    {job.label} seed={self.seed}", f"specified  {job.spec[0]}.tla", f"fails in   {'; '.join(where)}",
               f"rejected   {ev[:2000]}", f"reason     {why or 'no action of the specification explains this event'}", "script     (run the driver on it; see DESIGN.md)", *seg[:4000],
               "trace", *[l[:2000] for l in lines[start:k]]]
        name = f"{self.prop}-{hashlib.sha256(chr(10).join(txt).encode()).hexdigest()[:12]}.txt"
        path = os.path.join(VERIF, "replay", name)
        with open(path, "w") as f: f.write("\n".join(txt) + "\n")
        self.violations.append((path, ev[:300], f"{job.label} {where[0]}"))

    # -- conformance, specification to code ---------------------------------------------------------
    def replay(self, transitions, cfg, label, header, to_lines, project, threads=1, norm=lambda r, x: x):
        """Drive the code through transitions of the model and compare outcome, return value and state.
        to_lines(transition, known) -> script lines ending in the call; project(state) -> {register: json} as logged."""
        want = {}
        for t in transitions:
            k = json.dumps([t["s"], t["a"]], sort_keys=True)
            want.setdefault(k, (t, []))[1].append((t["o"], t["v"], t["t"]))
        known, script, marks = {}, [header], []
        for t, outs in want.values():
            lines, known = to_lines(t, known)
            script += lines
            marks.append(len(lines))
            if len({json.dumps(o, sort_keys=True) for o in outs}) == 1 and outs[0][0] == "ok": known = project(outs[0][2])
            elif all(o[0] != "ok" for o in outs): known = project(outs[0][2])
            else: known = project(t["t"])
        text = "\n".join(script) + "\n"
        binary = build(cfg)
        lines = run_driver(binary, text, threads, self.scratch, timeout=600)
        n_head = header.count("\n") + 1
        cur, pos, bad = {}, 0, None
        evs = iter(enumerate(lines))
        # header events: reset + init
        for _ in range(2):
            i, l = next(evs, (0, "{}"))
            cur.update(json.loads(l).get("ch", {}))
        for (t, outs), m in zip(want.values(), marks):
            for _ in range(m):
                i, l = next(evs, (len(lines), '{"op":"Crash"}'))
                e = json.loads(l); cur.update(e.get("ch", {}))
                if e["op"] in ("Crash", "Hang"): break
            good = any(e.get("out") == o and e.get("ret") == v and all(norm(r, cur.get(r)) == x for r, x in project(s).items()) for o, v, s in outs)
            if not good:
                bad = (t, outs, e, i); break
            self.replayed += 1
        self.configs[f"{cfg.elem}/{cfg.backend}/replay"] = self.configs.get(f"{cfg.elem}/{cfg.backend}/replay", 0) + 1
        self.log(f"replayed on {cfg.name}")
        if bad:
            t, outs, e, i = bad
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            txt = [f"property   {self.prop}", f"history    {label} (transition of the specification replayed on the code) {cfg.name}",
                   "from state " + json.dumps(t["s"]), "call       " + json.dumps(t["a"]), "specified  " + json.dumps(outs[:4]), "observed   " + json.dumps(e),
                   "registers  " + json.dumps(cur), "script", header, *to_lines(t, {})[0]]
            name = f"{self.prop}-{hashlib.sha256(chr(10).join(txt).encode()).hexdigest()[:12]}.txt"
            path = os.path.join(VERIF, "replay", name)
            with open(path, "w") as f: f.write("\n".join(txt) + "\n")
            self.violations.append((path, json.dumps(e)[:300], f"{label} {cfg.name}"))
        elif len(self.samples) < 4 and want:
            t, outs = list(want.values())[len(want) // 2]
            self.samples.append({"replayed transition": t["a"], "from": t["s"], "specified": outs[0]})

    # -- the end ------------------------------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_in_distinct_traces": self.events,
                           "model_transitions_replayed_on_impl": self.replayed,
                           "models": self.models, "calls": dict(sorted(self.kinds.items())), "configurations": dict(sorted(self.configs.items())),
                           "samples": self.samples or ["none"]},
              "assumptions": ASSUMPTIONS,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for path, what, where in self.violations[:10]:
            print(f"  {where}: {what}")
        for path, _, _ in self.violations[:1]:
            print(f"VIOLATION property={self.prop} replay={path}")
        for n in self.notes[:5]: print("  note: " + n)
        if not self.violations:
            print(f"{self.prop} held: {self.states} states, {self.transitions} transitions, {self.traces} traces validated, {self.replayed} transitions replayed, {ev['wall_s']} s")
        return 1 if self.violations else 0


ASSUMPTIONS = ["values in histories are integers (times a power of two) small enough to be exact in the element type, or tolerances stated in the specification",
               "the driver (harness/) reports the public API's results faithfully", "TLC, gcc, OpenBLAS, LAPACKE and libgomp are correct"]
