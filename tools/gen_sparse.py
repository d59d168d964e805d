"""Histories for the sparse matrix machine (spec/Sparse.tla, harness/driver_sparse.cc)."""
from vlib import Config, Job, ELEMS

SPEC = ("SparseTrace", "SparseTrace.cfg")
COO, CSR, VEC = ["c0", "c1", "c2", "c3"], ["s0", "s1", "s2"], ["v0", "v1", "v2", "v3"]
HUGE = [-1, -2, 2 ** 62, 2 ** 32, 2 ** 31]


class M:
    """what the generator knows of a matrix: {(i, j): in order}, and for CSR the rows"""
    def __init__(self, keys=(), rows=0): self.keys, self.rows = list(keys), rows
    @property
    def nr(self): return max([i for i, _ in self.keys], default=-1) + 1
    @property
    def nc(self): return max([j for _, j in self.keys], default=-1) + 1


class G:
    def __init__(self, rng, elem):
        self.r = rng; _, self.cplx, self.lim = ELEMS[elem]; self.small_e = elem in ("float", "cfloat")
        self.out = []

    def emit(self, s): self.out.append(s)
    def text(self): return "\n".join(self.out) + "\n"

    def reset(self, full=6, E=None, top=5, K=(1, 1)):
        r = self.r
        self.E = E if E is not None else 0 if r.random() < .5 else r.randint(-30, 30) if self.small_e else r.randint(-250, 250)
        self.top = top
        self.m = {x: M() for x in COO + CSR}
        self.len = {x: 0 for x in VEC}
        self.K = K
        self.emit(f"reset {self.E} {full}" if K == (1, 1) else f"reset {self.E} 0 {K[0]} {K[1]}")

    def lit(self, v): return f"{v} {self.r.randint(-9, 9)}" if self.cplx else str(v)
    def v(self, m=99):
        r = self.r
        x = r.choice([0, r.randint(-9, 9), r.randint(-m, m), r.randint(-m, m)])
        return self.lit(x)

    def alpha(self): return self.lit(self.r.choice([0, 1, -1, 2, 3, -2, 5]))

    def keys(self, dens=None, nr=None, nc=None):
        r = self.r
        nr = r.randint(1, self.top) if nr is None else nr
        nc = r.randint(1, self.top) if nc is None else nc
        dens = r.choice([0, .15, .3, .5, .8, 1]) if dens is None else dens
        ks = [(i, j) for i in range(nr) for j in range(nc) if r.random() < dens]
        # empty rows and columns
        for _ in range(r.choice([0, 0, 1, 2])):
            a = r.randrange(nr); ks = [k for k in ks if k[0] != a]
        for _ in range(r.choice([0, 0, 1])):
            a = r.randrange(nc); ks = [k for k in ks if k[1] != a]
        return ks

    def coo(self, x, ks=None, big=99):
        r = self.r
        ks = self.keys() if ks is None else list(ks)
        how = r.randrange(5)
        if how == 0: ks.sort()
        elif how == 1: ks.sort(reverse=True)
        elif how == 2: ks.sort(key=lambda k: (k[1], k[0]))
        elif how == 3: ks.sort(key=lambda k: (k[0], -k[1]))
        else: r.shuffle(ks)
        n = len(ks)
        self.emit(f"coo {x} {r.choice(['copy', 'move'])} {n} {n} {n} " + " ".join([self.v(big) for _ in ks] + [str(i) for i, _ in ks] + [str(j) for _, j in ks]))
        self.m[x] = M(sorted(ks))

    def badload(self, x):
        r = self.r
        k = [r.randint(0, 4) for _ in range(3)]
        if x[0] == "s": k[1] = 2
        if k[0] == k[2] and (x[0] == "s" or k[0] == k[1]): return
        rows = [r.randint(0, 3) for _ in range(k[1])] if x[0] == "c" else [0, k[0]]
        self.emit(f"{'coo' if x[0] == 'c' else 'csr'} {x} {r.choice(['copy', 'move'])} {k[0]} {k[1]} {k[2]} " +
                  " ".join([self.v() for _ in range(k[0])] + [str(i) for i in rows] + [str(r.randint(0, 3)) for _ in range(k[2])]))

    def csr(self, x, ks=None, extra=None, big=99):
        """direct: columns of a row in any order, rows without entries at the end too"""
        r = self.r
        ks = self.keys() if ks is None else list(ks)
        nr = max([i for i, _ in ks], default=-1) + 1 + (r.choice([0, 0, 1, 2]) if extra is None else extra)
        ptr, cols, order = [0], [], []
        for i in range(nr):
            cs = [j for a, j in ks if a == i]
            if r.random() < .5: cs.sort()
            else: r.shuffle(cs)
            cols += cs; order += [(i, j) for j in cs]; ptr.append(len(cols))
        n = len(cols)
        self.emit(f"csr {x} {r.choice(['copy', 'move'])} {n} {len(ptr)} {n} " + " ".join([self.v(big) for _ in cols] + [str(p) for p in ptr] + [str(c) for c in cols]))
        self.m[x] = M(order, nr)

    def conv(self, x, a):
        self.emit(f"conv {x} {a} {self.r.choice(['copy', 'tmp'])}")
        self.m[x] = M(self.m[a].keys, self.m[a].nr)

    def at(self, x, read):
        """a coordinate: stored, in a stored row, just outside, far outside"""
        r, m = self.r, self.m[x]
        p = r.random()
        if m.keys and p < .45: return r.choice(m.keys)
        nr = m.rows if x[0] == "s" else m.nr
        i = r.choice([0, nr - 1, r.randint(0, nr)]) if nr else 0
        j = r.choice([0, m.nc, r.randint(0, m.nc + 1)])
        i = max(0, i)
        if p > .8 and self.K != (1, 1):        # near a stored coordinate, or equal to it in its lowest bits
            a, b = r.choice(m.keys) if m.keys else (i, j)
            near = lambda x, K: r.choice([x * K + 1, x * K - 1, (x * K) % 2 ** 32, (x * K) % 2 ** 31, (x * K) % 2 ** 16, x * K + 2 ** 32, x * K + 2 ** 16])
            j = near(b, self.K[1])
            i = near(a, self.K[0]) if x[0] == "c" and r.random() < .3 else a
            if i != a and i <= 10 ** 6: i = a
            if j <= 10 ** 6: j = b                # meant as a coordinate of the script
        elif p > .85:
            j = r.choice(HUGE + [nr])
            if r.random() < .5: i, j = r.choice(HUGE + [nr]), r.choice([0, j])
        if x[0] == "s" and read and (i < 0 or i >= m.rows):
            if not m.rows: return None
            i = r.randrange(m.rows)
        return i, j

    def access(self, regs):
        r = self.r
        x = r.choice(regs)
        p = r.random()
        if p < .35:
            k = self.at(x, True)
            if k: self.emit(f"get {x} {k[0]} {k[1]}")
        elif p < .75:
            k = self.at(x, False)
            self.emit(f"set {x} {k[0]} {k[1]} {self.v()}")
        elif p < .9 and self.m[x].keys:
            n = len(self.m[x].keys)
            self.emit(f"poke {x} {r.choice([0, n - 1, r.randrange(n)])} {self.v()}")
        else: self.emit(f"reserve {x} {r.choice([0, 1, 50])}")

    def values(self, regs):
        """copies, moves, clearing"""
        r = self.r
        x = r.choice(regs); y = r.choice([z for z in regs if z[0] == x[0]])
        op = r.choice(["copy", "copy", "assign", "assign", "move", "clear", "unit"])
        if op == "move" and x == y: return
        if op == "clear": self.emit(f"clear {x}"); self.m[x] = M()
        elif op == "unit":
            if self.E or self.K != (1, 1): return
            n = r.choice([0, 1, 2, 3, r.randint(0, 9)])
            self.emit(f"unit {x} {n}"); self.m[x] = M([(i, i) for i in range(n)], n)
        else:
            self.emit(f"{op} {x} {y}"); self.m[x] = self.m[y]
            if op == "move": self.m[y] = M()

    def sums(self):
        r = self.r
        x, a, b = (r.choice(COO) for _ in range(3))
        op = r.choice(["addas", "addas", "add"] + ([] if self.cplx else ["sub"]))
        if op == "addas": self.emit(f"addas {x} {a}"); self.m[x] = M(sorted(set(self.m[x].keys) | set(self.m[a].keys)))
        else: self.emit(f"{op} {x} {a} {b}"); self.m[x] = M(sorted(set(self.m[a].keys) | set(self.m[b].keys)))

    def vec(self, y, n, big=9):
        self.emit(f"vec {y} {n} " + " ".join(self.v(big) for _ in range(n))); self.len[y] = n

    def product(self):
        r = self.r
        a = r.choice(CSR); m = self.m[a]
        y, x = r.choice(VEC), r.choice(VEC)
        alias = x == y
        if alias:
            n = m.rows
            if m.nc > n: return
            self.vec(y, n)
        else:
            self.vec(x, m.nc + r.choice([0, 0, 0, 1, 3]))
            if r.random() < .85: self.vec(y, m.rows)
            else: y = None
        if y is None or (self.E == 0 and r.random() < .3):
            if self.E: return
            y = y or r.choice([v for v in VEC if v != x])
            self.emit(f"opmulv {y} {a} {x}"); self.len[y] = m.rows
        else: self.emit(f"mulv {y} {self.alpha()} {a} {x} {self.alpha()}")

    def scaling(self):
        r = self.r
        x = r.choice(COO + CSR); n = len(self.m[x].keys)
        op = r.choice(["scale", "scalee", "muls"] + ([] if self.cplx else ["neg"]))
        if op == "scale": self.emit(f"scale {x} {self.alpha()}")
        elif op == "scalee":
            if self.E == 0 and n: self.emit(f"scalee {x} {r.choice([0, n - 1, r.randrange(n)])}")
        else:
            y = r.choice([z for z in COO + CSR if z[0] == x[0]])
            self.emit(f"muls {x} {self.alpha()} {y}" if op == "muls" else f"neg {x} {y}"); self.m[x] = self.m[y]


def coo_hist(g, count, ops, top):
    for _ in range(count):
        g.reset(top=top)
        for x in COO: g.coo(x)
        for _ in range(ops):
            p = g.r.random()
            if p < .15: g.coo(g.r.choice(COO))
            elif p < .22: g.badload(g.r.choice(COO))
            elif p < .4: g.values(COO)
            else: g.access(COO)


def sum_hist(g, count, ops, top):
    for _ in range(count):
        g.reset(top=top)
        for x in COO: g.coo(x)
        for k in range(ops):
            if g.r.random() < .3:
                x = g.r.choice(COO)
                if g.r.random() < .5: g.coo(x)
                else:                         # pattern related to another's: part of it, or beside it, or after all of it
                    o = g.m[g.r.choice(COO)]; w = g.r.randrange(4)
                    if w == 0: ks = [k for k in o.keys if g.r.random() < .5]
                    elif w == 1: ks = [(i, j + 1) for i, j in o.keys]
                    elif w == 2: ks = [(o.nr + g.r.randint(0, 1), j) for j in range(g.r.randint(0, 3))]
                    else: ks = [(i + 1, j) for i, j in o.keys]
                    g.coo(x, ks if len(ks) < 60 and max([max(k) for k in ks], default=0) < 12 else None)
            elif g.r.random() < .12: g.values(COO)
            else: g.sums()


def csr_hist(g, count, ops, top):
    for _ in range(count):
        g.reset(top=top)
        for x in COO: g.coo(x)
        for x in CSR: g.conv(x, g.r.choice(COO)) if g.r.random() < .6 else g.csr(x)
        for _ in range(ops):
            p = g.r.random()
            if p < .18: g.conv(g.r.choice(CSR), g.r.choice(COO))
            elif p < .28: g.csr(g.r.choice(CSR))
            elif p < .33: g.coo(g.r.choice(COO))
            elif p < .36: g.badload(g.r.choice(CSR))
            elif p < .5: g.values(CSR)
            elif p < .55: g.access(COO)
            else: g.access(CSR)


def prod_hist(g, count, ops, top):
    for _ in range(count):
        g.reset(top=top)
        for x in COO: g.coo(x, big=9)
        for x in CSR: g.conv(x, g.r.choice(COO)) if g.r.random() < .5 else g.csr(x, big=9)
        k = 0
        for _ in range(ops):
            p = g.r.random()
            if p < .2 or k > 3:                                        # keep values small: fresh matrices after a few scalings
                k = 0
                for x in COO: g.coo(x, big=9)
                for x in CSR: g.conv(x, g.r.choice(COO)) if g.r.random() < .5 else g.csr(x, big=9)
            elif p < .75: g.product()
            else: g.scaling(); k += 1


def large(g, what, n, count):
    """larger matrices, elements not shown one by one"""
    for _ in range(count):
        g.reset(full=0, top=n)
        r = g.r
        mk = lambda: list({(r.choice([r.randrange(n), r.randrange(n), n - 1]), r.randrange(n)) for _ in range(r.choice([n, 2 * n, 3 * n]))})
        g.coo("c0", mk(), 9); g.coo("c1", mk(), 9)
        if what == "coo":
            for _ in range(25): g.access(["c0", "c1"])
        elif what == "sum":
            g.emit("add c2 c0 c1"); g.emit("addas c0 c0"); g.emit("addas c1 c0")
            if not g.cplx: g.emit("sub c3 c1 c2")
        elif what == "csr":
            g.conv("s0", "c0"); g.conv("s1", "c1")
            for _ in range(25): g.access(["s0", "s1"])
        else:
            g.conv("s0", "c0"); g.csr("s1", g.m["c1"].keys, big=9)
            for a in ("s0", "s1"):
                g.vec("v0", g.m[a].nc); g.vec("v1", g.m[a].rows)
                g.emit(f"mulv v1 {g.alpha()} {a} v0 {g.alpha()}")
                k = max(g.m[a].nc, g.m[a].rows)
                if g.m[a].nc <= g.m[a].rows: g.vec("v2", k); g.emit(f"mulv v2 {g.alpha()} {a} v2 {g.alpha()}")
                if g.E == 0: g.emit(f"opmulv v3 {a} v0")
            g.emit(f"scale s0 {g.alpha()}"); g.emit(f"scale c0 {g.alpha()}")


def wide(g, what, count, ops, top):
    """coordinates far apart: the columns (and for COO the rows) of a history multiplied by a common factor"""
    for _ in range(count):
        r = g.r
        kc = r.choice([1, 3, 1000, 4096, 65536, 99991, 2 ** 30, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 40 + 1])
        kr = r.choice([1, 1, 7, 100, 1000, 1024] + ([65536, 99991] if what == "sum" else [65536, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 40 + 1] if what == "coo" else []))
        if kr == kc == 1: kc = 2 ** 32
        g.reset(full=0, top=top, K=(kr, kc))
        for x in COO: g.coo(x)
        if what == "csr":
            for x in CSR: g.conv(x, r.choice(COO)) if r.random() < .7 else g.csr(x)
        for _ in range(ops):
            p = r.random()
            if p < .1: g.coo(r.choice(COO))
            elif p < .2: g.values(CSR if what == "csr" and r.random() < .6 else COO)
            elif what == "sum" and p < .7: g.sums()
            elif what == "csr" and p < .35: g.conv(r.choice(CSR), r.choice(COO))
            elif what == "csr" and p < .4: g.csr(r.choice(CSR))
            elif what == "prod" and p < .6: g.scaling()
            else: g.access(CSR if what == "csr" and r.random() < .8 else COO)


HIST = {"coo": coo_hist, "sum": sum_hist, "csr": csr_hist, "prod": prod_hist}


def jobs(ck, what, elems, hist, ops, threads=(1,)):
    js, th = [], ck.thorough
    for elem, backends in elems:
        k = hist * (8 if th else 1) // (1 if elem == "double" else 2)
        parts = max(1, k // 25)
        scs = []
        for p in range(parts):
            g = G(ck.rng(f"{what}-{elem}-{p}"), elem)
            HIST[what](g, max(1, k // parts), ops, g.r.choice([2, 3, 5, 5, 7]))
            scs.append((f"{what}-{elem}-{p}", g.text()))
        g = G(ck.rng(f"large-{what}-{elem}"), elem)
        for n in ((20, 60, 150, 400) if th else (20, 60)): large(g, what, n, 4 if th else 1)
        scs.append((f"large-{what}-{elem}", g.text()))
        if what != "prod":
            g = G(ck.rng(f"wide-{what}-{elem}"), elem)
            wide(g, what, max(6, k // 6), ops, 5); scs.append((f"wide-{what}-{elem}", g.text()))
        for lab, sc in scs:
            for be in backends:
                for t in threads: js.append(Job(lab, SPEC, Config("sparse", elem, be), sc, t))
    return js


def to_lines(t, known):
    lines = []
    for r, v in t["s"].items():
        if known.get(r) == v: continue
        if r[0] == "v": lines.append(f"vec {r} {len(v)} " + " ".join(map(str, v)))
        else:
            op = "coo" if r[0] == "c" else "csr"
            lines.append(f"{op} {r} copy {len(v['v'])} {len(v['r'])} {len(v['c'])} " + " ".join(map(str, v["v"] + v["r"] + v["c"])))
    a = t["a"]; op = a["op"]
    if op == "coo": lines.append(f"coo {a['r']} {a['kind']} {len(a['v'])} {len(a['rows'])} {len(a['cols'])} " + " ".join(map(str, a["v"] + a["rows"] + a["cols"])))
    else: lines.append(op + " " + " ".join(str(a[x]) for x in ARGS[op]))
    return lines, dict(t["s"])


ARGS = {"unit": "rn", "clear": "r", "copy": "ra", "assign": "ra", "move": "ra", "conv": ["r", "a", "kind"], "get": "rij", "set": "rijx", "poke": "rkx",
        "addas": "ra", "add": "rab", "sub": "rab", "scale": ["r", "al"], "scalee": "rk", "muls": ["r", "al", "a"], "neg": "ra",
        "mulv": ["y", "al", "a", "x", "be"], "opmulv": "yax"}


def replay(ck, config, cfgs):
    ts = ck.model("MC_Sparse", config)
    for cfg in cfgs: ck.replay(ts, cfg, config[:-4], "reset 0 8", to_lines, lambda s: dict(s))
