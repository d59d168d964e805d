"""Histories with calls made by several user threads at once ("par"), and the recorded schedules of the element-wise
operations (harness/driver_probe.cc, spec/ParFor.tla)."""
import gen_vec, gen_mat, gen_sparse, gen_pack, gen_solve
from vlib import Config, Job, ELEMS


class P:
    """Groups of concurrent calls; dst registers are handed out once per group, src registers are only read."""
    def __init__(self, rng, elem):
        self.r = rng; self.elem = elem; self.cplx = ELEMS[elem][1]; self.out = []
    def emit(self, s): self.out.append(s)
    def text(self): return "\n".join(self.out) + "\n"
    def v(self, m=9): return " ".join(str(self.r.randint(-m, m)) for _ in range(2 if self.cplx else 1))
    def vs(self, k, m=9): return " ".join(self.v(m) for _ in range(k))
    def al(self): return f"{self.r.choice([1, -1, 2, 3])}" + (f" {self.r.choice([0, 1])}" if self.cplx else "")
    def zero(self): return "0 0" if self.cplx else "0"
    def group(self, reps, writers, readers, extra=2):
        """writers: {dst: [call, ...]}: one call for each dst"""
        calls = [self.r.choice(cs) for cs in writers.values() if cs] + self.r.sample(readers, min(extra, len(readers)))
        self.r.shuffle(calls)
        self.emit(f"par {reps} " + " ; ".join(calls))


def vec_par(g, count, lengths):
    r = g.r
    for _ in range(count):
        N = r.choice([2, 3, 8]); per = 8
        g.emit(f"reset {N} {per} 0")
        n = r.choice(lengths)
        for x in ("d0", "d1", "d2", "d3"): g.emit(f"load {x} vec {n} " + g.vs(min(n, per)))
        for x in ("s0", "s1", "s2", "s3"): g.emit(f"load {x} vec {N} " + g.vs(N))
        sq = r.choice([1, 2, 4, 16]) ** 2
        for _ in range(3):
            w = {}
            for d in ("d2", "d3"): w[d] = [f"{o} {d} {a} {b}" for o in ("add", "sub", "opadd", "opsub") for a, b in (("d0", "d1"), ("d1", "d0"))] \
                    + [f"neg {d} d0", f"opneg {d} d1", f"scaled {d} {g.al()} d0", f"mull {d} {g.al()} d1", f"mulr {d} {g.al()} d0"]
            for d in ("s2", "s3"):
                w[d] = [f"{o} {d} {a} {b}" for o in ("add", "sub", "opadd", "opsub") for a, b in (("s0", "s1"), ("s1", "s0"))] + [f"neg {d} s0", f"scaled {d} {g.al()} s0", f"mull {d} {g.al()} s1"]
                if N == 3 and not g.cplx: w[d] += [f"cross3 {d} s0 s1", f"cross3to {d} s0 s1"]
            rd = [f"get d0 {r.randrange(n)}", f"get s1 {r.randrange(N)}"] if n else []
            if not g.cplx: rd += ["dot d0 d1", "mdot d1 d0", "dot d0 d0", "mdot s0 s1"]
            g.group(r.choice([3, 10, 30]) if n > 3000 else 60, w, rd, 3)


def mat_par(g, count, top):
    r = g.r
    for _ in range(count):
        g.emit("reset 2 3 4 64 0")                      # a: 2x3, b: 3x4, c: 2x4, q: 2x2, x: 3, y: 2
        n, l, m = (r.randint(1, top) for _ in range(3))
        if r.random() < .4: n = l = m
        for x, (p, q) in {"m0": (n, l), "m1": (l, m), "m2": (n, m), "m3": (n, l), "a0": (2, 3), "a1": (2, 3), "b0": (3, 4), "c0": (2, 4), "q0": (2, 2), "q1": (2, 2)}.items():
            g.emit(f"loadm {x} vec {p} {q} " + (g.vs(min(p, 64) * min(q, 64)) if x != "q0" else " ".join(["1 0" if g.cplx else "1", g.v(), g.zero(), "1 0" if g.cplx else "1"])))
        for x, k in {"v0": l, "v1": n, "v2": n, "v3": l, "x0": 3, "x1": 3, "y0": 2}.items(): g.emit(f"loadv {x} {k} " + g.vs(min(k, 64)))
        z = g.zero()
        for _ in range(2):
            w = {"m2": [f"gemm m2 {g.al()} m0 m1 {z}", "opmul m2 m0 m1"],
                 "m3": ["addm m3 m0 m0", "subm m3 m0 m0", "opaddm m3 m0 m0", f"mulsm m3 {g.al()} m0"] + ([] if g.cplx else ["opnegm m3 m0"]),
                 "c0": [f"gemm c0 {g.al()} a0 b0 {z}", "opmul c0 a0 b0"], "a1": ["addm a1 a0 a0", f"mulsm a1 {g.al()} a0"],
                 "q1": ["inv q1 to q0", "inv q1 ret q0"], "v1": [f"gemv v1 {g.al()} m0 v0 {z}", "opmulv v1 m0 v0"], "v2": [f"gemv v2 {g.al()} m0 v0 {z}"],
                 "y0": [f"gemv y0 {g.al()} a0 x0 {z}", "opmulv y0 a0 x0"]}
            g.group(60 if n * l * m < 4000 else 6, w, [f"getm m0 {n - 1} {l - 1}", "getm a0 1 2"])


def sparse_par(g, count, top):
    r = g.r
    for _ in range(count):
        n, m = r.randint(1, top), r.randint(1, top)
        g.emit(f"reset 0 {7 if max(n, m) <= 7 else 0}")
        keys = sorted({(r.randrange(n), r.randrange(m)) for _ in range(2 * n + m)} | {(n - 1, r.randrange(m)), (r.randrange(n), m - 1)})
        r.shuffle(keys)
        more = sorted({(r.randrange(n), r.randrange(m)) for _ in range(n)} | {(n - 1, m - 1)})
        for x, ks in (("c0", keys), ("c1", more), ("c2", more), ("c3", keys)):
            g.emit(f"coo {x} copy {len(ks)} {len(ks)} {len(ks)} " + g.vs(len(ks)) + " " + " ".join(str(i) for i, _ in ks) + " " + " ".join(str(j) for _, j in ks))
        g.emit("conv s0 c0 copy"); g.emit("conv s1 c1 copy"); g.emit("conv s2 c1 copy")
        g.emit(f"vec v0 {m} " + g.vs(m)); g.emit(f"vec v2 {n} " + g.vs(n)); g.emit(f"vec v3 {n} " + g.vs(n))
        i, j = r.choice(keys); z = g.zero()
        for _ in range(2):
            w = {"c2": ["add c2 c0 c1", f"muls c2 {g.al()} c0"] + ([] if g.cplx else ["sub c2 c0 c1"]), "c3": ["add c3 c1 c0", f"muls c3 {g.al()} c1"] + ([] if g.cplx else ["neg c3 c0"]),
                 "s1": ["conv s1 c0 copy"], "s2": ["conv s2 c1 copy", f"muls s2 {g.al()} s0"], "v2": [f"mulv v2 {g.al()} s0 v0 {z}", "opmulv v2 s0 v0"], "v3": [f"mulv v3 {g.al()} s0 v0 {z}"]}
            g.group(40, w, [f"get c0 {i} {j}", f"get s0 {i} {j}", f"get c1 {n - 1} {m - 1}"], 3)


def solve_par(g, what, count):
    """one solver, several threads solving with it"""
    r = g.r
    q = gen_solve.G(r, g.elem)
    for _ in range(count):
        q.reset(LB=0, S=6 if what == "gmres" and q.float else 8 if q.float else 12, SF=0 if what == "gmres" else 4, ea=0)
        n = q.N if r.random() < .5 else r.randint(1, 5 if q.float else 9)
        if what == "chol":
            kind = r.choice(["cd", "ct"])
            A = gen_solve.Sym.dd(r, n, True); gen_solve.emit_make(q, "z0", kind, A, gen_solve.cert(t="dd")); ap = gen_solve.sym_apply(A)
        elif what == "mod":
            A = gen_solve.Sym.dd(r, n, False); gen_solve.emit_make(q, "z0", "cm", A, gen_solve.cert(t="dd")); ap = gen_solve.sym_apply(A)
        else:
            A = gen_solve.gen_dd(r, n, r.choice(gen_solve.HOW)); kind = r.choice(["id", "is", "io"] if what == "ilu" else ["gd", "gs"])
            gen_solve.emit_make(q, "z0", kind, A, gen_solve.cert(t="dd"), tol=1); ap = gen_solve.gen_apply(A)
        col = lambda: ap([r.randint(-5, 5) for _ in range(n)])
        for _ in range(2):
            pairs = [("d0", "d1"), ("d0", "d2")]
            q.load("d0", n, col)
            if what in ("chol", "mod"):
                k = r.randint(1, 4); pairs += [("m0", "m1"), ("m0", "m2")]
                for x in ("m0", "m1", "m2"): q.load(x, n, col, k)
                if n == q.N: pairs += [("v0", "v1"), ("s0", "s1")]; q.load("v0", n, col); q.load("s0", n, col)
            q.load("d1", n, col); q.load("d2", n, col)
            r.shuffle(pairs)
            q.emit("parsolve 300 " + " ".join(f"z0 {b} {x}" for b, x in pairs))
            q.emit("solve z0 d0 d1")
    g.emit(q.text().rstrip("\n"))


def make_par(g, count):
    """factorizations, tri-diagonal solvers and orthogonalizations of their own, each by a thread of its own"""
    r = g.r
    q = gen_solve.G(r, g.elem)
    for _ in range(count):
        q.reset(LB=0, S=8 if q.float else 12, SF=4, ea=0)
        n = q.N if r.random() < .5 else r.choice([2, 3, 5, 9, 17, r.randint(1, 40)])
        m = min(n, 5 if q.float else 9)
        calls = []
        for z in ("z0", "z1", "z2", "z3"):
            kind = r.choice(["cd", "ct", "cm", "id", "is", "io"]); h = gen_solve.G(r, g.elem); h.float = q.float
            A = gen_solve.Sym.dd(r, m, kind != "cm") if kind[0] == "c" else gen_solve.gen_dd(r, m, r.choice(gen_solve.HOW))
            gen_solve.emit_make(h, z, kind, A, gen_solve.cert(t="dd")); calls.append(h.out[-1])
        q.emit("par 60 " + " ; ".join(calls))
        calls = []
        for kind in ("dyn", "deque", "dyn"):
            k = r.randint(1, 4); W = gen_solve.orth_basis(r, k)[:k]; V = []
            for j in range(k):
                v = list(W[j])
                for i in range(j): c = r.randint(-3, 3); v = [x + c * y for x, y in zip(v, W[i])]
                V.append(v)
            calls.append(f"cgs {kind} {k} {k} " + " ".join(str(x) for v in V for x in v))
        q.emit("reset 2 0 0 0 0"); q.emit("par 100 " + " ; ".join(calls))
        # every thread has a solver of its own
        q.emit(f"reset {q.N} 0 0 {q.S} 4"); q.tm = {}
        for i in range(4):
            q.tri(f"t{i % 2}", n); q.emit(f"mktri z{i} t{i % 2} {r.choice(['lv', 'mv'])}")
        for _ in range(2):
            k = r.randint(1, 4)
            col = lambda: [r.randint(-50, 50) for _ in range(n)]
            for x in ("d0", "d1", "d2"): q.load(x, n, col)
            for x in ("m0", "m1", "m2"): q.load(x, n, col, k)
            pairs = [("d0", "d1"), ("d0", "d2"), ("m0", "m1"), ("m0", "m2")]; r.shuffle(pairs)
            q.emit("parsolve 1000 " + " ".join(f"z{i} {b} {x}" for i, (b, x) in enumerate(pairs)))
    g.emit(q.text().rstrip("\n"))


def pack_par(g, count):
    """solves with shared triangular matrices, columns of shared Hessenberg matrices, copies"""
    r = g.r
    h = gen_pack.G(r, g.elem)
    for _ in range(count):
        h.reset(r.choice([2, 3, 5]), "upper", 6, E=0)
        calls = []
        for x in ("u0", "u1"):
            h.regs = [x]; k = len(h.out)
            h.backsub(r.choice([1, 2, 3, 5, 8, 12]), True)
            calls += [c for c in h.out[k:] if c.startswith("backsub")]
        h.emit("loadp h0 0 8 " + h.vs(8))
        h.emit("par 100 " + " ; ".join(calls[:5] + ["copyp u2 u0", "getcol h0 1", "getcol h0 2", "copyp h1 h0"]))
    g.emit(h.text().rstrip("\n"))


PAR = {"vec": lambda g, k: (vec_par(g, k, [1, 5, 15, 16, 17, 100]), vec_par(g, max(1, k // 3), [1000, 5000])), "mat": lambda g, k: (mat_par(g, k, 6), mat_par(g, max(1, k // 4), 30)),
       "sparse": lambda g, k: (sparse_par(g, k, 6), sparse_par(g, max(1, k // 4), 40)), "chol": lambda g, k: solve_par(g, "chol", k), "mod": lambda g, k: solve_par(g, "mod", k),
       "ilu": lambda g, k: solve_par(g, "ilu", k), "gmres": lambda g, k: solve_par(g, "gmres", k), "make": lambda g, k: make_par(g, k), "pack": lambda g, k: pack_par(g, k)}
MACHINE = {"vec": ("vec", gen_vec.SPEC), "mat": ("mat", gen_mat.SPEC), "sparse": ("sparse", gen_sparse.SPEC), "pack": ("pack", gen_pack.SPEC), **{w: ("solve", gen_solve.SPEC) for w in ("chol", "mod", "ilu", "gmres", "make")}}


def par_jobs(ck, elems, count, threads=(1, 2)):
    """concurrent calls on shared inputs, against the same calls made one after another"""
    js = []
    for elem, backend in elems:
        for what in PAR:
            if MACHINE[what][0] == "solve" and elem.startswith("c"): continue
            be = "lapack" if MACHINE[what][0] == "solve" and backend == "blas" else backend
            g = P(ck.rng(f"par-{what}-{elem}"), elem); PAR[what](g, count)
            drv, spec = MACHINE[what]
            for env in ({"SEQ": "1"}, {}, {"A": "2"}):
                for t in threads[:1] if "SEQ" in env else threads: js.append(Job(f"par-{what}-{elem}-{be}", spec, Config(drv, elem, be), g.text(), t, env=env, tol=1 if drv == "solve" else 0))
    return js


def schedules(rng, count, n_of):
    """scripts for driver_probe"""
    r, out = rng, ["reset"]
    for _ in range(count):
        n = n_of(r); kind = r.choice(["dyn", "dyn", "dyn", "mat" if n % 2 == 0 and n else "dyn"])
        if r.random() < .15: n = 24; kind = "sized"
        out.append(f"mem {n} " + " ".join(str(r.randint(-99, 99)) for _ in range(3 * n)))
        for _ in range(2):
            op = r.choice(["add", "add", "sub", "scale"] + (["neg", "axpy"] if kind != "mat" else []))
            x, y, z = r.choice([(0, 1, 2), (0, 1, 2), (0, 1, 0), (0, 1, 1), (0, 0, 1), (2, 2, 2), (1, 0, 1)])
            if op == "neg": y = 0
            if op == "scale": x = y = 0
            if op == "axpy": y = 0
            out.append(f"call {kind} {op} {x} {y} {z} {r.choice([2, 3, -1])} {r.choice([0, r.randint(1, 10 ** 6), r.randint(1, 10 ** 6)])}")
    return "\n".join(out) + "\n"


def schedule_jobs(ck, count, threads):
    js = []
    for t in threads:
        for p in range(3 if ck.thorough else 1):
            sc = schedules(ck.rng(f"probe-{t}-{p}"), count, lambda r: r.choice([0, 1, 2, 7, 15, 16, 16, 17, 18, 23, 31, 33, 40, 64]))
            js.append(Job(f"probe-{t}-{p}", ("ParForTrace", "ParForTrace.cfg"), Config("probe", "double", "internal"), sc, t))
    return js


# ---- whole histories of every kind
def scripts(ck, elem, size):
    """(label, driver, specification, script, tolerance) for every machine"""
    class Few:                                            # generators ask the check for its tier and random numbers
        thorough = False
        @staticmethod
        def rng(salt): return ck.rng("all-" + salt)
    E = [(elem, ("internal",))]
    js = []
    for what in ("elementwise", "reduction", "mismatch", "value"):
        if what == "reduction" and elem.startswith("c"): continue
        js += [j for j in gen_vec.jobs(Few, what, E, size, 25, (1,)) if not j.label.startswith("sweep") or elem == "double"]
    for what in ("values", "arithmetic", "gemm", "gemv", "inverse", "bad"): js += gen_mat.jobs(Few, what, E, size // 2, 25, (1,))
    for what in ("tri", "hess", "upper", "lower"): js += gen_pack.jobs(Few, what, E, size // 3, 30)
    for what in ("coo", "sum", "csr", "prod"): js += gen_sparse.jobs(Few, what, E, size // 3, 25)
    if not elem.startswith("c"):
        for what in ("tri", "chol", "mod", "ilu", "gmres", "cgs"):
            for j in gen_solve.jobs(Few, what, E, size // 2, 12):
                if what == "gmres" and "large" in j.label: continue
                j.script = "\n".join(" ".join(l.split()[:6]) if l.startswith("reset") else l for l in j.script.split("\n"))     # without the finer digits
                j.label = "solve-" + j.label; j.tol = 2 ** 30 if what == "gmres" else 2; js.append(j)
    for j in js: j.label = f"{j.cfg.driver}-{j.label}"
    return js


def backend_jobs(ck, elem):
    """the same histories in the three configurations; GMRES may stop anywhere within its tolerance"""
    js = []
    for j in scripts(ck, elem, 240 if ck.thorough else 60):
        for be in ("internal", "blas", "lapack") + (("accel",) if j.cfg.driver in ("vec", "mat") else ()): js.append(Job(j.label, j.spec, Config(j.cfg.driver, elem, be), j.script, 2, tol=j.tol))
    return js


def alone_jobs(ck, elems, users):
    """every history by several user threads at the same time, against one alone"""
    js = []
    for elem, be in elems:
        for j in scripts(ck, elem, 60 if ck.thorough else 30):
            if any(w in j.label for w in ("sweep", "large", "growth", "builds", "long", "sizes")): continue
            for k in (0,) + users: js.append(Job(f"{j.label}-{be}", j.spec, Config(j.cfg.driver, elem, be), j.script, 1 if k != 2 else 2, env={"CONC": str(k)} if k else None, tol=1 if j.cfg.driver == "solve" else 0))
            if be == "internal": js.append(Job(f"{j.label}-{be}", j.spec, Config(j.cfg.driver, elem, be), j.script, 1, env={"CONC": "2", "CONC_OMP": "1", "OMP_NUM_THREADS": "4"}, tol=1 if j.cfg.driver == "solve" else 0))
    return js
