"""Histories for the packed matrix machine (spec/Pack.tla, harness/driver_pack.cc)."""
from vlib import Config, Job, ELEMS

SPEC = ("PackTrace", "PackTrace.cfg")
NUM = {"t": 3, "s": 2, "h": 3, "u": 3, "l": 3, "k": 2, "g": 3, "f": 2}
SIZED = "skf"
KINDS = {"tri": "ts", "hess": "h", "upper": "u", "lower": "lkgf"}


def hlen(n): return n * (n + 3) // 2 - 1 if n else 0
def ulen(n): return n * (n + 1) // 2


class G:
    def __init__(self, rng, elem):
        self.r = rng; _, self.cplx, self.lim = ELEMS[elem]; self.small_e = elem in ("float", "cfloat")
        self.out = []

    def emit(self, s): self.out.append(s)
    def text(self): return "\n".join(self.out) + "\n"

    def reset(self, N, what, top, E=None):
        r = self.r
        self.N, self.top = N, top
        self.E = E if E is not None else 0 if r.random() < .5 else r.randint(-30, 30) if self.small_e else r.randint(-250, 250)
        self.regs = [k + str(i) for k in KINDS[what] if not (self.cplx and k in "gf") for i in range(NUM[k])]
        self.n = {x: N if x[0] in SIZED else 0 for x in self.regs}
        self.k = {x: 0 for x in self.regs}           # stored elements (Hessenberg)
        self.emit(f"reset {N} {self.E}")

    def v(self):
        one = lambda: self.r.choice([0, self.r.randint(-99, 99), self.r.randint(-99, 99), self.r.randint(-self.lim, self.lim)])
        return f"{one()} {one()}" if self.cplx else str(one())

    def vs(self, k): return " ".join(self.v() for _ in range(k))
    def size(self): return self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, self.r.randint(0, self.top)])

    def load(self, x, n=None):
        r = self.r
        n = self.N if x[0] in SIZED else self.size() if n is None else n
        if x[0] in "ts":
            self.emit(f"loadt {x} {r.choice(['copy', 'move'])} {n} " + self.vs(max(0, n - 1) * 2 + n)); self.n[x] = n
        elif x[0] in "lkgf":
            self.emit(f"loadp {x} {n} {ulen(n)} " + self.vs(ulen(n))); self.n[x] = n
        else:
            k = hlen(n) if x[0] == "h" else ulen(n)
            self.emit(f"loadp {x} 0 {k} " + self.vs(k)); self.n[x] = n; self.k[x] = k

    def badload(self, x):
        if x[0] not in "hu": return
        r = self.r
        f = hlen if x[0] == "h" else ulen
        ok = {f(n) for n in range(200)}
        n = self.size()
        k = r.choice([max(0, f(n) - 1), f(n) + 1, r.randint(0, 40), 2, ulen(n) if x[0] == "h" else hlen(n)])
        if k in ok: return
        self.emit(f"loadp {x} 0 {k} " + self.vs(k))

    def build(self, x):
        if x[0] not in "hu": return
        f = hlen if x[0] == "h" else ulen
        n = self.r.choice([self.r.randint(0, 40), self.r.randint(40, 900)])
        self.emit(f"build {x[0]} {max(0, f(n) + self.r.choice([0, 0, 0, -1, 1, self.r.randint(-n, n)]))}")

    def step(self):
        r = self.r
        x = r.choice(self.regs)
        n = self.n[x]
        p = r.random()
        if p < .10: self.load(x)
        elif p < .18:
            y = r.choice([y for y in self.regs if y[0] == x[0]])
            op = r.choice(["copyp", "copyp", "assignp", "movep"])
            if op == "movep" and x == y: return
            self.emit(f"{op} {x} {y}")
            self.n[x], self.k[x] = self.n[y], self.k[y]
            if op == "movep" and y[0] not in SIZED: self.n[y] = self.k[y] = 0
        elif p < .55 and n:
            # in and around the band, corners, anywhere
            i = r.choice([0, n - 1, r.randrange(n), r.randrange(n)])
            j = min(n - 1, max(0, r.choice([i, i - 1, i + 1, i + 2, i - 2, 0, n - 1, r.randrange(n)])))
            self.emit(f"set {x} {r.choice(['op', 'mut'])} {i} {j} {self.v()}")
        elif p < .68 and n:
            if x[0] in "ts":
                w = r.randrange(3); m = n if w == 1 else n - 1
                if m: self.emit(f"poke {x} {w} {r.choice([0, m - 1, r.randrange(m)])} {self.v()}")
            else:
                m = self.k[x] if x[0] == "h" else ulen(n)
                self.emit(f"poke {x} 0 {r.choice([0, m - 1, r.randrange(m)])} {self.v()}")
        elif x[0] in "hu":
            if p < .78 and n < self.top + 3:
                add = (1 if n == 0 else n + 2) if x[0] == "h" else n + 1
                self.emit(f"ext0 {x}"); self.n[x] += 1; self.k[x] += add
            elif p < .88 and n < self.top + 3:
                add = n + 2 if x[0] == "h" else n + 1
                k = add if r.random() < .7 else max(0, add + r.choice([-1, 1, -2, 2, 5]))
                self.emit(f"extw {x} {k} " + self.vs(k))
                if k == add: self.n[x] += 1; self.k[x] += add
            elif p < .91: self.badload(x)
            elif p < .93: self.emit(f"empty {x} {r.choice(['cap', 'dflt'])} {r.randint(0, 30)}"); self.n[x] = self.k[x] = 0
            elif p < .95: self.build(x)
            elif x[0] == "h" and n: self.emit(f"getcol {x} {r.choice([0, n - 1, r.randrange(n)])}")
        elif x[0] in "lkgf" and p < .80 and not self.cplx:
            a, b = r.choice([("l", "g"), ("k", "f")])
            x = a + str(r.randrange(NUM[a])); y = b + str(r.randrange(NUM[b]))
            self.emit(f"intolow {x} {y}"); self.n[x] = self.n[y]
            if b == "g": self.n[y] = 0

    # ---- back substitution: U with integer solution, exact; or any, rounded
    def backsub(self, n, exact):
        r = self.r
        x = r.choice(self.regs)
        one = lambda m: complex(r.randint(-m, m), r.randint(-m, m)) if self.cplx else r.randint(-m, m)
        unit = lambda: r.choice([1, -1, 2, -2, 4] + ([1j, -1j, 2j] if self.cplx else [])) if exact else r.choice([-1, 1]) * r.randint(2 * n + 1, 4 * n + 5)
        dens = r.choice([0.2, 0.6, 1])
        U = [[(unit() if i == j else one(2) if r.random() < dens else 0) if i <= j else 0 for j in range(n)] for i in range(n)]
        w = lambda c: f"{int(complex(c).real)} {int(complex(c).imag)}" if self.cplx else str(int(c))
        self.emit(f"loadp {x} 0 {ulen(n)} " + " ".join(w(U[i][j]) for j in range(n) for i in range(j + 1))); self.n[x] = n
        for _ in range(r.randint(1, 3)):
            if exact:
                sol = [one(5) for _ in range(n)]
                y = [sum(U[i][j] * sol[j] for j in range(n)) for i in range(n)]
            else: y = [one(50) for _ in range(n)]
            m = n if r.random() < .85 else max(0, n + r.choice([-1, 1]))
            y = (y + [7])[:m]
            kind = r.choice(["dyn", "std", "span"] + (["sized"] if m == self.N else []))
            self.emit(f"backsub {x} {kind} {0 if exact or m != n else 10} {m} " + " ".join(map(w, y)))


def histories(rng, elem, what, count, ops):
    g = G(rng, elem)
    for _ in range(count):
        g.reset(rng.choice([1, 2, 3, 5, 8]), what, rng.choice([3, 4, 6, 10]))
        for x in g.regs: g.load(x)
        for _ in range(ops): g.step()
    return g.text()


def growth(rng, elem, what, count, top):
    """grow from nothing, one dimension at a time, by a mix of the two ways"""
    g = G(rng, elem)
    for _ in range(count):
        g.reset(1, what, top)
        x = g.regs[0]
        how = rng.choice(["dflt", "cap", "one", "k"])
        if how in ("dflt", "cap"): g.emit(f"empty {x} {how} {rng.randint(0, 9)}")
        elif how == "k": g.load(x, rng.randint(0, 3))
        while g.n[x] < top:
            n = g.n[x]; h = x[0] == "h"
            if rng.random() < .5: g.emit(f"ext0 {x}"); g.k[x] += (1 if n == 0 else n + 2) if h else n + 1
            else:
                add = n + 2 if h else n + 1
                g.emit(f"extw {x} {add} " + g.vs(add)); g.k[x] += add
            g.n[x] += 1
            if rng.random() < .6: g.emit(f"set {x} {rng.choice(['op', 'mut'])} {rng.randrange(g.n[x])} {g.n[x] - 1} {g.v()}")
            if h and rng.random() < .5: g.emit(f"getcol {x} {rng.randrange(g.n[x])}")
    return g.text()


def backs(rng, elem, count, sizes, every=False):
    g = G(rng, elem)
    if every:
        for n in sizes: g.reset(1, "upper", 4, E=0); g.backsub(n, True)
        return g.text()
    for _ in range(count):
        g.reset(rng.choice([1, 2, 3, 5, 8]), "upper", 4, E=0)
        for _ in range(4):
            exact = g.cplx or rng.random() < .6
            g.backsub(rng.choice(sizes) if exact else min(24, rng.choice(sizes)), exact)
    return g.text()


def large(rng, elem, what, sizes):
    """a few calls on matrices past any block size"""
    g = G(rng, elem)
    for n in sizes:
        g.reset(1, what, n)
        g.lim = 99
        x = rng.choice([x for x in g.regs if x[0] not in SIZED])
        g.regs = [y for y in g.regs if y[0] == x[0]]; g.regs = g.regs[:2]
        for y in g.regs: g.load(y, n)
        for _ in range(14): g.step()
        if what == "lower" and not g.cplx:
            g.emit("loadp g0 %d %d " % (n, ulen(n)) + g.vs(ulen(n))); g.emit("intolow l0 g0")
        if what == "upper": g.regs = ["u2"]; g.E or [g.backsub(m, True) for m in (n, n)]
    return g.text()


def builds(rng, elem, top):
    """sizes from element counts, every count up to top, and around large admissible ones"""
    g = G(rng, elem); g.reset(1, "hess", 1, E=0)
    for w, f in (("h", hlen), ("u", ulen)):
        ks = set(range(top)) | {max(0, f(n) + d) for n in (50, 99, 255, 256, 500, 777, 1023, 1024) for d in (-1, 0, 1)}
        for k in sorted(ks): g.emit(f"build {w} {k}")
    return g.text()


def jobs(ck, what, elems, hist, ops):
    js, th = [], ck.thorough
    for elem, backends in elems:
        k = hist * (8 if th else 1) // (1 if elem == "double" else 2)
        parts = max(1, k // 30)
        scs = [(f"{what}-{elem}-{p}", histories(ck.rng(f"{what}-{elem}-{p}"), elem, what, max(1, k // parts), ops)) for p in range(parts)]
        if what in ("hess", "upper"):
            scs.append((f"growth-{what}-{elem}", growth(ck.rng(f"growth-{what}-{elem}"), elem, what, 30 if th else 8, 16 if th else 9)))
            scs.append((f"builds-{elem}", builds(ck.rng("builds"), elem, 400 if th else 150)))
        scs.append((f"large-{what}-{elem}", large(ck.rng(f"large-{what}-{elem}"), elem, what, [17, 33, 48, 65] + ([31, 64, 100, 129] if th else []))))
        if what == "upper":
            for a in (0, 1): scs.append((f"backsizes{a}-{elem}", backs(ck.rng(f"backsizes-{a}-{elem}"), elem, 1, range(5 + a, 60, 2), True)))
            for p in range(4 if th else 1): scs.append((f"backsub{p}-{elem}", backs(ck.rng(f"backsub-{p}-{elem}"), elem, 60, [0, 1, 1, 2, 2, 3, 4, 5, 8, 12])))
        for lab, sc in scs:
            for be in backends: js.append(Job(lab, SPEC, Config("pack", elem, be), sc, 1))
    return js


ARGS = {"set": ["r", "via", "i", "j", "x"], "poke": "rwix", "ext0": "r", "getcol": "rj", "copyp": "ra", "assignp": "ra", "movep": "ra", "intolow": "ra"}


def flat(p):
    if isinstance(p, list):
        for x in p: yield from flat(x)
    else: yield str(p)


def to_lines(t, known):
    lines = []
    for r, v in t["s"].items():
        if known.get(r) == v: continue
        vals = list(flat(v["p"])); n = v["n"]
        if r[0] in "ts": lines.append(f"loadt {r} copy {n} " + " ".join(vals))
        elif r[0] == "h" and len(vals) > hlen(n):           # a last column with its sub-diagonal element: grow to it
            m = 1
            lines.append(f"empty {r} cap 0")
            pos = 0
            for c in range(n): lines.append(f"extw {r} {c + 2} " + " ".join(vals[pos:pos + c + 2])); pos += c + 2
        elif r[0] in "hu": lines.append(f"loadp {r} 0 {len(vals)} " + " ".join(vals))
        else: lines.append(f"loadp {r} {n} {len(vals)} " + " ".join(vals))
    a = t["a"]; op = a["op"]
    if op == "loadp": lines.append(f"loadp {a['r']} {a['n']} {len(a['p'])} " + " ".join(map(str, a["p"])))
    elif op == "extw": lines.append(f"extw {a['r']} {len(a['p'])} " + " ".join(map(str, a["p"])))
    elif op == "empty": lines.append(f"empty {a['r']} dflt 3")
    else: lines.append(op + " " + " ".join(str(a[x]) for x in ARGS[op]))
    return lines, dict(t["s"])


def replay(ck, config, cfgs):
    ts = ck.model("MC_Pack", config)
    for n in sorted({t["d"] for t in ts}):
        part = [t for t in ts if t["d"] == n]
        for cfg in cfgs: ck.replay(part, cfg, config[:-4], f"reset {n} 0", to_lines, lambda s: dict(s))
