"""Histories for the dense matrix machine (spec/Mat.tla, harness/driver_mat.cc)."""
from vlib import Config, Job, ELEMS
SHAPES = [(2, 2, 2), (3, 2, 2), (2, 2, 3), (2, 3, 4), (5, 1, 3), (1, 4, 1)]
SPEC = ("MatTrace", "MatTrace.cfg")
DM = ["m0", "m1", "m2", "m3"]; SM = ["a0", "a1", "b0", "b1", "c0", "c1"]; QM = ["q0", "q1"]
DV = ["v0", "v1", "v2", "v3"]; SV = ["x0", "x1", "y0", "y1"]


class G:
    def __init__(self, rng, elem):
        self.r = rng; _, self.cplx, self.lim = ELEMS[elem]; self.small_e = elem in ("float", "cfloat")
        self.f = 2 if self.cplx else 1; self.int = elem in ("int", "uint")
        self.out = []

    def emit(self, s): self.out.append(s)
    def text(self): return "\n".join(self.out) + "\n"

    def reset(self, dims, per, E):
        self.d, self.per, self.E = dims, per, E
        N, L, M = dims
        self.sh = {r: (0, 0) for r in DM}
        for r in SM + QM: self.sh[r] = {"a": (N, L), "b": (L, M), "c": (N, M), "q": (2, 2)}[r[0]]
        for r in DV: self.sh[r] = (0,)
        for r in SV: self.sh[r] = {"x": (L,), "y": (N,)}[r[0]]
        self.m = {r: 0 for r in self.sh}
        self.emit(f"reset {N} {L} {M} {per} {E}")

    def static(self, r): return r[0] not in "mv"
    def exp(self):
        if self.r.random() < 0.5 or self.int: return 0
        return self.r.randint(-30, 30) if self.small_e else self.r.randint(-250, 250)
    def scale_of(self): return self.r.choice([1, 2, 3, 9, 100, 1000, 4097, self.lim // 64, self.lim // 4])

    def v(self, m, zero=0.12):
        def one():
            k = self.r.random()
            if k < zero: return 0
            if k < zero + 0.1: return self.r.choice([-m, m])
            return self.r.randint(-m, m)
        return f"{one()} {one()}" if self.cplx else str(one())

    def alpha(self, zero=True):
        a = self.r.choice(([0] if zero else []) + [1, 1, -1, 2, -2, 3, -3, 5, -8])
        if self.cplx:
            b = self.r.choice([0, 0, 1, -1, 2, -3]); return f"{a} {b}", abs(a) + abs(b)
        return str(a), abs(a)

    def loadm(self, r, shape=None, m=None, kind=None):
        n, k = shape or self.sh[r]
        m = max(1, m or self.scale_of()); zero = self.r.choice([0.05, 0.1, 0.5])
        kind = kind or self.r.choice(["vec", "depr", "init", "arr", "write"])
        self.emit(f"loadm {r} {kind} {n} {k} " + " ".join(self.v(m, zero) for _ in range(min(n, self.per) * min(k, self.per))))
        if not self.static(r): self.sh[r] = (n, k)
        elif n * k != self.sh[r][0] * self.sh[r][1]: return
        self.m[r] = m * self.f

    def loadv(self, r, n=None, m=None):
        n = self.sh[r][0] if n is None else n; m = max(1, m or self.scale_of())
        self.emit(f"loadv {r} {n} " + " ".join(self.v(m) for _ in range(min(n, self.per))))
        if not self.static(r): self.sh[r] = (n,)
        self.m[r] = m * self.f

    def ensure(self, r, bound):
        if self.m[r] > bound:
            m = max(1, min(bound // self.f, self.scale_of()))
            (self.loadm if len(self.sh[r]) == 2 else self.loadv)(r, m=m)

    def like(self, r): return [x for x in self.sh if len(self.sh[x]) == len(self.sh[r]) and (self.static(x) == self.static(r)) and (not self.static(r) or (self.sh[x] == self.sh[r] and (x[0] == "q") == (r[0] == "q")))]

    # ---- M01
    def values(self):
        r = self.r; op = r.choice(["loadm", "fillm", "diagv", "diags", "ident", "copym", "assignm", "movem", "swapm", "setm", "setm", "setm", "getm", "getm", "scalem"])
        x = r.choice(DM + SM + QM)
        any_shape = lambda: (r.randint(0, 5), r.randint(0, 5)) if r.random() < .7 else (r.randint(1, 12), r.randint(1, 12))
        square = [y for y in SM + QM if self.sh[y][0] == self.sh[y][1]] + DM
        if op == "loadm": self.loadm(x, self.sh[x] if self.static(x) else any_shape())
        elif op == "fillm":
            n, k = self.sh[x] if self.static(x) else any_shape(); m = self.scale_of()
            self.emit(f"fillm {x} {n} {k} {self.v(m)}"); self.sh[x] = (n, k); self.m[x] = m * self.f
        elif op in ("diagv", "diags", "ident"):
            x = r.choice(square); n = self.sh[x][0] if self.static(x) else r.choice([0, 1, 2, 3, 4, 7, 16, 17]); m = self.scale_of()
            if op == "ident":
                if self.E: return
                self.emit(f"ident {x} {n}"); m = 1
            elif op == "diagv": self.emit(f"diagv {x} {n} " + " ".join(self.v(m) for _ in range(n)))
            else: self.emit(f"diags {x} {n} {self.v(m)}")
            self.sh[x] = (n, n); self.m[x] = m * self.f
        elif op in ("copym", "assignm", "movem", "swapm"):
            y = r.choice([z for z in self.like(x) if (z[0] == "q") == (x[0] == "q")])
            self.emit(f"{op} {x} {y}")
            sx, mx, sy, my = self.sh[x], self.m[x], self.sh[y], self.m[y]
            if op == "swapm": self.sh[x], self.m[x], self.sh[y], self.m[y] = sy, my, sx, mx
            elif op == "movem" and x[0] == "m": self.sh[y], self.m[y] = (0, 0), 0; self.sh[x], self.m[x] = sy, my
            else: self.sh[x], self.m[x] = sy, my
        elif op in ("setm", "getm"):
            n, k = self.sh[x]
            if n * k == 0: return
            i, j = r.choice([0, n - 1, r.randrange(n)]), r.choice([0, k - 1, r.randrange(k)])
            if op == "setm":
                m = self.scale_of(); self.emit(f"setm {x} {r.choice(['op', 'mut', 'data', 'iter', 'rev'])} {i} {j} {self.v(m)}"); self.m[x] = max(self.m[x], m * self.f)
            else: self.emit(f"getm {x} {i} {j}")
        else: self.scale(x)

    def bad_sizes(self):   # V03: wrong number of elements for a sized matrix
        r = self.r; x = r.choice(SM + QM); n, k = self.sh[x]
        t = r.choice([c for c in (0, 1, 2, 3, 4, 5, 6, n * k - 1, n * k + 1, 2 * n * k) if c >= 0 and c != n * k])
        self.loadm(x, (1, t) if t else (0, 0), m=5, kind=r.choice(["vec", "init"]))
        if r.random() < .3: self.loadm(x)

    def scale(self, x):
        t, k = self.alpha(); self.ensure(x, self.lim // 24); self.emit(f"scalem {x} {t}"); self.m[x] *= k

    # ---- M02
    def arithmetic(self):
        r = self.r; op = r.choice(["addm", "addm", "subm", "subm", "opaddm", "opsubm", "scalem", "scalee", "mulsm", "opnegm", "setm"])
        x = r.choice(DM + DM + SM)
        same = [y for y in DM + SM if self.sh[y] == self.sh[x]]
        kin = [y for y in same if self.static(y) == self.static(x)]
        if op in ("addm", "subm"):
            if not self.static(x): a, b = r.choice(kin), r.choice(kin)
            else:
                a, b = r.choice(same), r.choice(same)
                if not self.static(a) and not self.static(b): a = r.choice(kin)
            self.ensure(a, self.lim // 2); self.ensure(b, self.lim // 2)
            self.emit(f"{op} {x} {a} {b}"); self.m[x] = self.m[a] + self.m[b]
        elif op in ("opaddm", "opsubm"):
            a = r.choice([y for y in DM + SM if self.static(y) == self.static(x) and (not self.static(x) or self.sh[y] == self.sh[x])])
            b = r.choice([y for y in DM + SM if self.static(y) == self.static(x) and self.sh[y] == self.sh[a]])
            self.ensure(a, self.lim // 2); self.ensure(b, self.lim // 2)
            self.emit(f"{op} {x} {a} {b}"); self.m[x] = self.m[a] + self.m[b]; self.sh[x] = self.sh[a]
        elif op == "scalem": self.scale(x)
        elif op == "scalee":
            n, k = self.sh[x]
            if self.E or n * k == 0: return
            self.ensure(x, int((self.lim / self.f) ** .5)); self.emit(f"scalee {x} {r.randrange(n)} {r.randrange(k)}"); self.m[x] *= self.m[x] * self.f
        elif op in ("mulsm", "opnegm"):
            if op == "opnegm" and self.cplx: return
            a = r.choice([y for y in DM + SM if self.static(y) == self.static(x) and (not self.static(x) or self.sh[y] == self.sh[x])])
            if op == "mulsm":
                t, k = self.alpha(); self.ensure(a, self.lim // 24); self.emit(f"mulsm {x} {t} {a}"); self.m[x] = k * self.m[a]
            else: self.emit(f"opnegm {x} {a}"); self.m[x] = self.m[a]
            self.sh[x] = self.sh[a]
        elif op == "setm":
            n, k = self.sh[x]
            if n * k == 0 or n > self.per or k > self.per: return
            m = self.scale_of(); self.emit(f"setm {x} op {r.randrange(n)} {r.randrange(k)} {self.v(m)}"); self.m[x] = max(self.m[x], m * self.f)

    # ---- products
    def fit(self, regs, need):
        """reload operands until need() <= lim"""
        if need() > self.lim:
            K = max(max(self.sh[x]) for x in regs)
            m = max(1, int((self.lim / (K * 40 * self.f ** 4)) ** .5))
            for x in set(regs): self.ensure(x, max(self.f, m))
        return need() <= self.lim

    def gemm(self, r=None, a=None, b=None):
        rr = self.r
        pool = [x for x in DM + SM if min(self.sh[x]) > 0]
        if a is None:
            # prefer aliased and mixed combinations
            cand = [(x, y, z) for x in pool for y in pool for z in pool if self.sh[y][1] == self.sh[z][0] and self.sh[x] == (self.sh[y][0], self.sh[z][1])]
            if not cand: return
            al = [c for c in cand if c[0] in c[1:]]
            r, a, b = rr.choice(al) if al and rr.random() < .35 else rr.choice(cand)
        t, k = self.alpha(); u, h = self.alpha()
        f = self.f; K = self.sh[a][1]
        need = lambda: K * self.m[a] * self.m[b] * f * max(k, 1) * f + max(h, 1) * self.m[r] * f
        if not self.fit([r, a, b], need): return
        self.emit(f"gemm {r} {t} {a} {b} {u}")
        self.m[r] = K * self.m[a] * self.m[b] * f * k * f + h * self.m[r] * f

    def opmul(self):
        if self.E: return self.gemm()
        rr = self.r
        pool = [x for x in (DM if rr.random() < .6 else SM) if min(self.sh[x]) > 0]
        cand = [(y, z) for y in pool for z in pool if self.sh[y][1] == self.sh[z][0]]
        if not cand: return
        a, b = rr.choice(cand); s = (self.sh[a][0], self.sh[b][1])
        dst = DM if a[0] == "m" else [x for x in SM if self.sh[x] == s]
        if not dst: return
        r = rr.choice(dst)
        need = lambda: self.sh[a][1] * self.m[a] * self.m[b] * self.f
        if not self.fit([a, b], need): return
        self.emit(f"opmul {r} {a} {b}"); self.m[r] = need(); self.sh[r] = s

    def gemv(self):
        rr = self.r
        mats = [x for x in DM + SM if min(self.sh[x]) > 0]
        vecs = DV + SV
        cand = [(y, a, x) for a in mats for x in vecs for y in vecs if self.static(y) == self.static(a) and self.sh[x] == (self.sh[a][1],) and self.sh[y] == (self.sh[a][0],)]
        if not cand: return
        al = [c for c in cand if c[0] == c[2]]
        y, a, x = rr.choice(al) if al and rr.random() < .35 else rr.choice(cand)
        t, k = self.alpha(); u, h = self.alpha(); f = self.f; K = self.sh[a][1]
        need = lambda: K * self.m[a] * self.m[x] * f * f * max(k, 1) + max(1, h) * self.m[y] * f
        if not self.fit([y, a, x], need): return
        self.emit(f"gemv {y} {t} {a} {x} {u}"); self.m[y] = K * self.m[a] * self.m[x] * f * f * k + h * self.m[y] * f

    def opmulv(self):
        if self.E: return self.gemv()
        rr = self.r
        mats = [x for x in DM + SM if min(self.sh[x]) > 0]
        cand = [(a, x) for a in mats for x in DV + SV if self.sh[x] == (self.sh[a][1],)]
        if not cand: return
        a, x = rr.choice(cand)
        dst = DV if not self.static(a) else [y for y in SV if self.sh[y] == (self.sh[a][0],)]
        y = rr.choice(dst)
        need = lambda: self.sh[a][1] * self.m[a] * self.m[x] * self.f
        if not self.fit([a, x], need): return
        self.emit(f"opmulv {y} {a} {x}"); self.m[y] = need(); self.sh[y] = (self.sh[a][0],)

    def setup_products(self):
        """operands with many conforming combinations: dims of the sized registers, plus a square or rectangular set"""
        r = self.r; N, L, M = self.d
        if r.random() < .5:
            n, l, m = N, L, M
        elif r.random() < .5:
            n = l = m = r.choice([1, 2, 3, 4, 5, 8, 9, 16, 17])
        else: n, l, m = (r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20]) for _ in range(3))
        dims = r.sample([(n, l), (l, m), (n, m), (l, l), (n, n), (m, l), (l, n)], 3)
        if r.random() < .6: dims = [(n, l), (l, m), (n, m)]
        for x, s in zip(DM, dims + [r.choice([(n, l), (l, m), (n, m), (l, l)])]): self.loadm(x, s, m=r.choice([1, 3, 9, 50]))
        for x in SM: self.loadm(x, m=r.choice([1, 3, 9, 50]))
        for x, k in zip(DV, [n, l, m, r.choice([n, l, m])]): self.loadv(x, k, m=r.choice([1, 3, 9, 50]))
        for x in SV: self.loadv(x, m=r.choice([1, 3, 9, 50]))

    # ---- M05
    def inverse(self):
        r = self.r
        def unimod():
            one = lambda: r.choice([-2, -1, 0, 1, 2])
            if self.cplx: g = lambda: complex(one(), one()); units = [1, -1, 1j, -1j]
            else: g = one; units = [1, -1]
            A = [[r.choice(units), 0], [0, r.choice(units)]]
            for _ in range(r.randint(0, 3)):
                k = g()
                B = [[1, k], [0, 1]] if r.random() < .5 else [[1, 0], [k, 1]]
                if r.random() < .2: B = [[0, 1], [1, 0]]
                A = [[sum(A[i][t] * B[t][j] for t in range(2)) for j in range(2)] for i in range(2)]
            return A
        e = -self.E
        A = unimod()
        k1, k2 = r.randint(0, e), r.randint(0, e)
        if r.random() < .5: A = [[A[0][0] * 2 ** k1, A[0][1] * 2 ** k1], [A[1][0] * 2 ** k2, A[1][1] * 2 ** k2]]
        else: A = [[A[0][0] * 2 ** k1, A[0][1] * 2 ** k2], [A[1][0] * 2 ** k1, A[1][1] * 2 ** k2]]
        det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        R = [x * 4 ** e / det for x in (A[1][1], A[0][1], A[1][0], A[0][0])]
        flat = [x for row in A for x in row]
        mag = max(max(abs(complex(x).real), abs(complex(x).imag)) for x in flat + R)
        if mag > 4000: return
        s = " ".join(f"{int(complex(x).real)} {int(complex(x).imag)}" if self.cplx else str(int(x)) for x in flat)
        a = r.choice(QM); self.emit(f"loadm {a} vec 2 2 {s}")
        kind = r.choice(["to", "to", "self", "ret"])
        dst = a if kind == "self" or r.random() < .3 else r.choice(QM)
        self.emit(f"inv {dst} {kind} {a}")
        if r.random() < .4: self.emit(f"inv {dst} self {dst}")   # and back

    def inverse_round(self):
        r = self.r
        for _ in range(10):
            A = [r.randint(-20, 20) for _ in range(4)]
            if r.random() < .3: A[r.randrange(4)] = 0
            d = A[0] * A[3] - A[1] * A[2]
            if d and abs(d) <= 800: break
        else: return
        a = r.choice(QM); self.emit(f"loadm {a} vec 2 2 " + " ".join(map(str, A)))
        self.emit(f"invr {r.choice(['to', 'self', 'ret'])} {a} 10")


def histories(rng, elem, what, count, ops):
    g = G(rng, elem)
    for _ in range(count):
        if what == "inverse":
            rnd = not g.cplx and rng.random() < .4
            g.reset(rng.choice(SHAPES), 40, 0 if rnd else -rng.randint(0, 4))
            for _ in range(ops): (g.inverse_round if rnd else g.inverse)()
            continue
        g.reset(rng.choice(SHAPES), 40, g.exp() if what != "bad" else 0)
        if what == "values":
            for x in DM: g.loadm(x, (rng.randint(0, 5), rng.randint(0, 5)))
            for x in SM + QM: g.loadm(x)
            for _ in range(ops): g.values()
        elif what == "bad":
            for x in SM + QM: g.loadm(x, m=5)
            for _ in range(ops): g.bad_sizes()
        elif what == "arithmetic":
            s = rng.choice([g.sh["a0"], g.sh["b0"], g.sh["c0"], (rng.randint(0, 9), rng.randint(0, 9)), (rng.randint(1, 30), rng.randint(1, 30))])
            for x in DM: g.loadm(x, s)
            for x in SM: g.loadm(x)
            for _ in range(ops): g.arithmetic()
        else:
            g.setup_products()
            for _ in range(ops):
                if what == "gemm": rng.choice([g.gemm, g.gemm, g.gemm, g.opmul])()
                else: rng.choice([g.gemv, g.gemv, g.gemv, g.opmulv])()
    return g.text()


def large(rng, elem, what, count, top):
    """large, patterned operands"""
    g = G(rng, elem)
    dim = lambda: rng.choice([rng.randint(1, top), rng.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513]), rng.choice([1, 2, 3])])
    for _ in range(count):
        per = rng.choice([1, 2, 3, 5, 7])
        g.reset((2, 3, 4), per, 0)
        n, l, m = (min(dim(), top) for _ in range(3))
        if rng.random() < .25: l = m = n
        K = max(n, l, m)
        mag = max(1, min(9, int((g.lim / (K * 20 * g.f ** 5)) ** .5)))
        if what == "arithmetic":
            for x in DM[:3]: g.loadm(x, (n, m), m=g.scale_of(), kind="vec")
            for _ in range(5): g.arithmetic()
        elif what == "gemm":
            if K * mag * mag * 3 * g.f ** 4 > g.lim: continue
            g.loadm("m0", (n, l), m=mag, kind="vec"); g.loadm("m1", (l, m), m=mag, kind="vec"); g.loadm("m2", (n, m), m=mag, kind="vec")
            g.gemm("m2", "m0", "m1"); 
            if not g.E and g.m["m0"] * g.m["m1"] * l * g.f <= g.lim: g.emit("opmul m3 m0 m1"); g.m["m3"] = g.lim; g.sh["m3"] = (n, m)
            if n == l == m:
                g.gemm("m0", "m0", "m1")
                g.loadm("m0", (n, n), m=mag, kind="vec"); g.gemm("m1", "m0", "m1"); g.gemm("m0", "m0", "m0")
        else:
            g.loadm("m0", (n, l), m=mag, kind="vec"); g.loadv("v0", l, m=mag); g.loadv("v1", n, m=mag); g.loadv("v2", l, m=mag)
            for _ in range(3): g.gemv()
            g.opmulv()
            if n == l:
                for _ in range(2): g.gemv()
    return g.text()


def gen_shapes_sweep(rng, elem, what, top):
    """every small shape once"""
    g = G(rng, elem)
    for n in range(1, top + 1):
        for l in range(1, top + 1):
            if what == "gemv":
                g.reset((2, 3, 4), 40, 0)
                g.loadm("m0", (n, l), m=9); g.loadv("v0", l, m=9); g.loadv("v1", n, m=9)
                g.gemv(); g.opmulv()
                if n == l: g.emit(f"gemv v0 {g.alpha()[0]} m0 v0 {g.alpha()[0]}")
                continue
            for m in range(1, top + 1):
                g.reset((2, 3, 4), 40, 0)
                g.loadm("m0", (n, l), m=9); g.loadm("m1", (l, m), m=9); g.loadm("m2", (n, m), m=9)
                g.gemm("m2", "m0", "m1")
                if l == m: g.gemm("m0", "m0", "m1")
                elif n == l: g.gemm("m1", "m0", "m1")
    return g.text()


def gen_long_sweep(rng, elem, what, ks):
    """every length of one dimension once, the others small: sums and loops of each length"""
    g = G(rng, elem)
    for K in ks:
        for pos in range(3 if what == "gemm" else 2):
            per = rng.choice([2, 3, 5]); g.reset((2, 3, 4), per, 0)
            n, l, m = ([K if q == pos else rng.randint(1, 3) for q in range(3)])
            mag = max(1, min(9, int((g.lim / (l * 40 * g.f ** 5)) ** .5)))
            nz = lambda: g.alpha(zero=False)[0]
            if what == "arithmetic":
                for x in DM[:3]: g.loadm(x, (n, l), m=g.scale_of(), kind="vec")
                g.arithmetic(); g.arithmetic()
            elif what == "gemm":
                g.loadm("m0", (n, l), m=mag, kind="vec"); g.loadm("m1", (l, m), m=mag, kind="vec"); g.loadm("m2", (n, m), m=mag, kind="vec")
                if rng.random() < .3 and g.E == 0: g.emit("opmul m2 m0 m1")
                else: g.emit(f"gemm m2 {nz()} m0 m1 {g.alpha()[0]}")
            else:
                g.loadm("m0", (n, l), m=mag, kind="vec"); g.loadv("v0", l, m=mag); g.loadv("v1", n, m=mag)
                if rng.random() < .3: g.emit("opmulv v1 m0 v0")
                else: g.emit(f"gemv v1 {nz()} m0 v0 {g.alpha()[0]}")
        if what != "arithmetic" and K <= 70 or K % 16 in (0, 1, 15):      # square and in place
            per = rng.choice([2, 3, 5]); g.reset((2, 3, 4), per, 0); mag = max(1, min(9, int((g.lim / (K * 40 * g.f ** 5)) ** .5)))
            g.loadm("m0", (K, K), m=mag, kind="vec")
            if what == "gemm": g.loadm("m1", (K, K), m=mag, kind="vec"); g.emit(f"gemm {rng.choice(['m0 %s m0 m1', 'm1 %s m0 m1', 'm0 %s m0 m0']) % g.alpha(zero=False)[0]} {g.alpha()[0]}")
            elif what == "gemv": g.loadv("v0", K, m=mag); g.emit(f"gemv v0 {g.alpha(zero=False)[0]} m0 v0 {g.alpha()[0]}")
    return g.text()


def jobs(ck, what, elems, hist, ops, threads):
    js = []
    th = ck.thorough
    for elem, backends in elems:
        k = hist * (6 if th else 1) // (1 if elem == "double" else 2)
        parts = max(1, k // 40)
        scs = [(f"{what}-{elem}-{p}", histories(ck.rng(f"{what}-{elem}-{p}"), elem, what, max(1, k // parts), ops)) for p in range(parts)]
        if what in ("gemm", "gemv", "arithmetic"):
            for p in range(3 if th else 1): scs.append((f"large{p}-{what}-{elem}", large(ck.rng(f"large-{what}-{elem}-{p}"), elem, what, 30 if th else 12, 520 if th or what != "gemm" else 300)))
        if what in ("gemm", "gemv", "arithmetic"):
            top = 1060 if th else 300 if elem == "double" else 140
            for a in range(3): scs.append((f"long{a}-{what}-{elem}", gen_long_sweep(ck.rng(f"long-{what}-{elem}-{a}"), elem, what, range(1 + a, top, 3))))
            if what != "arithmetic": scs.append((f"shapes-{what}-{elem}", gen_shapes_sweep(ck.rng(f"shapes-{what}-{elem}"), elem, what, (8 if th else 5) if what == "gemm" else (20 if th else 12))))
        for lab, sc in scs:
            for be in backends:
                for t in threads: js.append(Job(lab, SPEC, Config("mat", elem, be), sc, t))
    return js


# ---------------------------------------------------------------- transitions of MC_Mat replayed
ARGS = {"addm": "rab", "subm": "rab", "opaddm": "rab", "opsubm": "rab", "opmul": "rab", "opmulv": "rab", "copym": "ra", "assignm": "ra", "movem": "ra", "swapm": "ra",
        "opnegm": "ra", "gemm": ["r", "al", "a", "b", "be"], "gemv": ["r", "al", "a", "b", "be"], "mulsm": ["r", "al", "a"], "scalem": ["r", "al"], "scalee": "rij",
        "getm": "rij", "setm": ["r", "via", "i", "j", "al"], "fillm": ["r", "n", "m", "al"], "diags": ["r", "n", "al"], "ident": "rn", "diagv": "rnp",
        "loadm": ["r", "kind", "n", "m", "p"], "inv": ["r", "kind", "a"]}


def flat(p):
    if isinstance(p, list):
        for x in p: yield from flat(x)
    else: yield str(p)


def to_lines(t, known):
    lines = []
    for r, v in t["s"].items():
        if known.get(r) != v:
            if "m" in v: lines.append(f"loadm {r} vec {v['n']} {v['m']} " + " ".join(flat(v["p"])))
            else: lines.append(f"loadv {r} {v['n']} " + " ".join(flat(v["p"])))
    a = t["a"]
    toks = [y for x in ARGS[a["op"]] for y in flat(a[x])]
    lines.append(a["op"] + " " + " ".join(toks))
    return lines, dict(t["s"])


def replay(ck, config, header, cfgs):
    ts = ck.model("MC_Mat", config)
    for cfg in cfgs: ck.replay(ts, cfg, config[:-4], f"reset {header}", to_lines, lambda s: dict(s))
