"""Histories for the solver machine (spec/Solve.tla, harness/driver_solve.cc)."""
import json
from fractions import Fraction
from math import gcd
from vlib import Config, Job, ELEMS

SPEC = ("SolveTrace", "SolveTrace.cfg")
DENSE_RHS = {"d": 3, "v": 2, "m": 3, "s": 2}


def cert(**k): return json.dumps(k, separators=(",", ":"))
def det(a):
    a = [[Fraction(x) for x in r] for r in a]; n = len(a); d = Fraction(1)
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i]), None)
        if p is None: return 0
        if p != i: a[i], a[p] = a[p], a[i]; d = -d
        d *= a[i][i]
        for k in range(i + 1, n):
            f = a[k][i] / a[i][i]
            if f: a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return d


class G:
    def __init__(self, rng, elem):
        self.r = rng; self.float = elem in ("float", "cfloat")
        self.out = []

    def emit(self, s): self.out.append(s)
    def text(self): return "\n".join(self.out) + "\n"

    def reset(self, S=None, SF=4, ea=None, LB=None):
        r = self.r
        self.N = r.choice([1, 2, 2, 3, 3, 5, 8])
        self.S = S if S is not None else 8 if self.float else 14
        self.SF = SF
        e = 14 if self.float else 120
        self.EA = ea if ea is not None else r.choice([0, 0, 2 * r.randint(-e // 2, e // 2)])
        self.EB = r.choice([0, 0, r.randint(-e, e)])
        self.k = {}; self.dim = {}
        self.LB = LB if LB is not None else 0 if self.float else 16
        self.emit(f"reset {self.N} {self.EA} {self.EB} {self.S} {self.SF} {self.LB}")

    def val(self, m=9): return self.r.choice([0, self.r.randint(-m, m), self.r.randint(-m, m)])

    # ---- right-hand sides
    def kinds(self, n, vec_only=False):
        ks = ["d", "d"] if vec_only else ["d", "m", "m"]
        if n == self.N: ks += ["v"] if not vec_only else []
        if n == self.N and not vec_only: ks += ["s"]
        return ks

    def reg(self, kind): return kind + str(self.r.randrange(DENSE_RHS[kind]))

    def load(self, r, n, vals_of, k=None):
        """vals_of(): one column"""
        k = 1 if r[0] in "dv" else 3 if r[0] == "s" else k if k else self.r.choice([1, 2, 3, 4, self.r.randint(1, 9)])
        cols = [vals_of() for _ in range(k)]
        self.emit(f"rhs {r} {n} {k} " + " ".join(str(cols[c][i]) for i in range(n) for c in range(k)))
        self.dim[r] = (n, k); return k

    def solve_some(self, z, n, apply_, count, inplace, mut, vec_only=False, xmax=9, A=None):
        """right-hand sides A x (integer x) or anything, solved in every way"""
        r = self.r
        wild = A is None or inv_norm(A) * 50 * 2 ** self.S * max(sum(abs(x) for x in w) for w in A) < (2 ** 22 if self.float else 2 ** 29)
        def column():
            w = r.random()
            if w < .07: return [0] * n
            if w < .25 and wild: return [r.choice([-1, 0, 0, 1]) if r.random() < .5 else r.randint(-50, 50) for _ in range(n)]
            return apply_([self.val(xmax) for _ in range(n)])
        for _ in range(count):
            kind = r.choice(self.kinds(n, vec_only))
            b = self.reg(kind)
            k = self.load(b, n, column)
            again = r.choice([1, 1, 2])
            for _ in range(again):
                x = self.reg(kind)
                if mut and r.random() < .5: self.emit(f"solvem {z} {b}"); break
                if x == b:
                    if not inplace: continue
                    self.emit(f"solve {z} {b} {b}"); break
                if kind == "m" and inplace: self.load(x, n, column, k)          # the result has the right shape beforehand
                elif kind == "d" and inplace: self.load(x, n, column)
                elif kind in "vs" or True:
                    if r.random() < .3: self.load(x, n, column, k)
                self.emit(f"solve {z} {b} {x}")

    # ---- tri-diagonal
    def trimat(self, n):
        r = self.r
        m = r.choice([1, 2, 5, 9])
        z = r.choice([0, .3, .7])
        o = lambda: 0 if r.random() < z else r.randint(-m, m)
        dl, du = [o() for _ in range(max(0, n - 1))], [o() for _ in range(max(0, n - 1))]
        s = lambda i: (abs(dl[i - 1]) if i else 0) + (abs(du[i]) if i < n - 1 else 0)
        tight = r.random() < .5
        d = [r.choice([-1, 1]) * (s(i) + (1 if tight else r.randint(1, 6))) for i in range(n)]
        return dl, d, du

    def tri(self, t, n):
        dl, d, du = self.trimat(n)
        self.tm[t] = [dl, d, du]
        self.emit(f"tri {t} {n} " + " ".join(map(str, dl + d + du)))


def inverse_times(A, M):
    """A^-1 M, or None"""
    n = len(A)
    a = [[Fraction(x) for x in A[i]] + [Fraction(x) for x in M[i]] for i in range(n)]
    for i in range(n):
        p = next((k for k in range(i, n) if a[k][i]), None)
        if p is None: return None
        a[i], a[p] = a[p], a[i]
        f = a[i][i]; a[i] = [x / f for x in a[i]]
        for k in range(n):
            if k != i and a[k][i]:
                f = a[k][i]; a[k] = [x - f * y for x, y in zip(a[k], a[i])]
    return [row[n:] for row in a]


def inv_norm(A):
    n = len(A)
    X = inverse_times(A, [[int(i == j) for j in range(n)] for i in range(n)])
    return max(sum(abs(x) for x in w) for w in X) if X else 10 ** 9


def tri_apply(m):
    dl, d, du = m
    n = len(d)
    return lambda x: [d[i] * x[i] + (dl[i - 1] * x[i - 1] if i else 0) + (du[i] * x[i + 1] if i < n - 1 else 0) for i in range(n)]


def tri_hist(g, count, top):
    r = g.r
    for _ in range(count):
        g.reset(); g.tm = {}; zs = {}
        for _ in range(r.randint(2, 4)):
            t = r.choice(["t0", "t1", "u0", "u1"])
            n = g.N if t[0] == "u" else r.choice([1, 1, 2, 2, 3, g.N, g.N, r.randint(1, top)])
            g.tri(t, n)
            z = f"z{r.randrange(4)}"
            g.emit(f"mktri {z} {t} {r.choice(['lv', 'mv'])}")
            zs[z] = (n, [list(x) for x in g.tm[t]])
            if r.random() < .4:                       # the matrix changes afterwards, the solver does not
                w = r.randrange(3); m = n if w == 1 else n - 1
                if m: g.emit(f"tpoke {t} {w} {r.randrange(m)} {r.randint(-9, 9)}")
                else: g.tri(t, n)
                g.tm.pop(t, None)
            if r.random() < .25:
                y = r.choice(list(zs)); z2 = f"z{r.randrange(4)}"
                op = r.choice(["zcopy", "zmove"])
                if not (op == "zmove" and y == z2):
                    g.emit(f"{op} {z2} {y}"); zs[z2] = zs[y]
                    if op == "zmove": del zs[y]
            for _ in range(r.randint(1, 3)):
                z = r.choice(list(zs))
                n, m = zs[z]
                g.solve_some(z, n, tri_apply(m), r.randint(1, 2), True, False)


def tri_large(g, sizes):
    r = g.r
    for n in sizes:
        g.reset(); g.tm = {}
        g.tri("t0", n); g.emit("mktri z0 t0 lv")
        ap = tri_apply(g.tm["t0"])
        g.load("d0", n, lambda: ap([g.val() for _ in range(n)]))
        g.load("d1", n, lambda: [0] * n)
        g.emit("solve z0 d0 d1"); g.emit("solve z0 d0 d0")
        k = g.load("m0", n, lambda: ap([g.val() for _ in range(n)]), 3); g.emit("solve z0 m0 m0")


# ---- dense symmetric
def sym_apply(A):
    n = len(A)
    return lambda x: [sum((A[i][j] if i >= j else A[j][i]) * x[j] for j in range(n)) for i in range(n)]


def full(A): return [[A[i][j] if i >= j else A[j][i] for j in range(len(A))] for i in range(len(A))]


class Sym:
    """symmetric matrices with a certificate; the upper triangle is filled by `upper`"""
    @staticmethod
    def ldl(r, n, d, m=1, dens=None):
        dens = r.choice([.3, .7, 1]) if dens is None else dens
        L = [[1 if i == j else (r.randint(-m, m) if j < i and r.random() < dens else 0) for j in range(n)] for i in range(n)]
        A = [[sum(L[i][k] * d[k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]
        return A, L

    @staticmethod
    def dd(r, n, sign):
        m = r.choice([1, 3, 6])
        A = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i): A[i][j] = A[j][i] = r.randint(-m, m) if r.random() < .8 else 0
        for i in range(n): A[i][i] = (1 if sign else r.choice([-1, 1])) * (sum(abs(x) for x in A[i]) + r.randint(1, 4))
        return A


def emit_make(g, z, kind, A, c, junk=False, tol=0):
    n = len(A); r = g.r
    vals = [A[i][j] if i >= j or not junk else r.randint(-30, 30) for i in range(n) for j in range(n)]
    g.emit(f"make {z} {kind} {n} {tol} " + " ".join(map(str, vals)) + " " + c)


def chol_hist(g, count, top):
    r = g.r
    live = {}
    for _ in range(count):
        g.reset(SF=8 if r.random() < .5 else 6); live.clear()
        for _ in range(r.randint(2, 5)):
            z = f"z{r.randrange(4)}"; kind = r.choice(["cd", "ct"])
            n = r.choice([1, 1, 2, 2, 3, 3, 4, g.N, r.randint(1, top)])
            if g.float: n = min(n, 8)
            what = r.choice(["sq", "sq", "ldl", "dd", "dd", "neg", "neg", "zero"])
            junk = kind == "cd" and r.random() < .6
            if what in ("sq", "ldl"):
                d = [r.choice([1, 1, 4, 9] if what == "sq" else [1, 2, 3, 5]) for _ in range(n)]
                if what == "ldl": n = min(n, 5); d = d[:n]
                A, L = Sym.ldl(r, n, d, 2 if what == "sq" else 1)
                emit_make(g, z, kind, A, cert(t="ldl", L=[row for row in L], d=d), junk); live[z] = A
            elif what == "dd":
                A = Sym.dd(r, n, True)
                if max(map(max, A)) * 2 ** (2 * g.SF) > 2 ** 28: continue
                emit_make(g, z, kind, A, cert(t="dd"), junk); live[z] = A
            elif what == "zero":                         # the p-th pivot is exactly zero
                p = r.randint(1, n)
                d = [r.choice([1, 4]) for _ in range(p - 1)] + [0] + [r.choice([1, 2, -1]) for _ in range(n - p)]
                A, L = Sym.ldl(r, n, d, 2)
                emit_make(g, z, kind, A, cert(t="zero", L=L, d=d, m=p), junk)
            else:                                         # a negative pivot at p: w = L^-T e_p has w^T A w = d_p < 0
                p = r.randint(1, n)
                d = [r.choice([1, 4, 9]) for _ in range(n)]; d[p - 1] = r.choice([-1, -1, -4, -9])
                A, L = Sym.ldl(r, n, d, 1)
                w = [0] * n; w[p - 1] = 1
                for i in range(p - 2, -1, -1): w[i] = -sum(L[k][i] * w[k] for k in range(i + 1, n))
                if max(map(abs, w)) > 200: continue
                emit_make(g, z, kind, A, cert(t="neg", w=w), junk)
            if r.random() < .2 and live:
                y = r.choice(list(live)); z2 = f"z{r.randrange(4)}"; op = r.choice(["zcopy", "zmove"])
                if z2 != y:
                    g.emit(f"{op} {z2} {y}"); live[z2] = live[y]
                    if op == "zmove": del live[y]
            for _ in range(r.randint(1, 2)):
                if not live: break
                q = r.choice(list(live)); A = live[q]
                g.solve_some(q, len(A), sym_apply(A), r.randint(1, 2), False, True, A=full(A))


def mod_hist(g, count, top):
    r = g.r
    live = {}
    for _ in range(count):
        g.reset(SF=4); live.clear()
        for _ in range(r.randint(2, 4)):
            z = f"z{r.randrange(4)}"
            n = r.choice([1, 1, 2, 2, 3, 3, 4, g.N, r.randint(1, top)])
            if g.float: n = min(n, 8)
            what = r.choice(["ldl", "ldl", "ldl", "dd", "dd", "zero"])
            junk = r.random() < .6
            if what == "ldl":
                d = [r.choice([1, -1, 2, -2, 3, -5, 4]) for _ in range(n)]
                if g.float: d = [max(-2, min(2, x)) for x in d]
                A, L = Sym.ldl(r, n, d, 1 if n > 5 else 2)
                emit_make(g, z, "cm", A, cert(t="ldl", L=L, d=d), junk); live[z] = A
            elif what == "dd":
                A = Sym.dd(r, n, False); emit_make(g, z, "cm", A, cert(t="dd"), junk); live[z] = A
            else:
                p = r.randint(1, n)
                d = [r.choice([1, -1, 2, -2]) for _ in range(p - 1)] + [0] + [r.choice([1, 2, -1]) for _ in range(n - p)]
                A, L = Sym.ldl(r, n, d, 2)
                emit_make(g, z, "cm", A, cert(t="zero", L=L, d=d, m=p), junk)
            if r.random() < .2 and live:
                y = r.choice(list(live)); z2 = f"z{r.randrange(4)}"; op = r.choice(["zcopy", "zmove"])
                if z2 != y:
                    g.emit(f"{op} {z2} {y}"); live[z2] = live[y]
                    if op == "zmove": del live[y]
            for _ in range(r.randint(1, 2)):
                if not live: break
                q = r.choice(list(live)); A = live[q]
                g.solve_some(q, len(A), sym_apply(A), r.randint(1, 2), False, True, xmax=5, A=full(A))


# ---- ILU(0) and GMRES
def pattern(r, n, how):
    P = {(i, i) for i in range(n)}
    if how == "dense": P = {(i, j) for i in range(n) for j in range(n)}
    elif how == "tri": P |= {(i, j) for i in range(n) for j in range(n) if abs(i - j) == 1}
    elif how == "arrow": P |= {(0, j) for j in range(n)} | {(i, 0) for i in range(n)}          # fills everything
    elif how == "lower": P |= {(n - 1, j) for j in range(n)} | {(i, n - 1) for i in range(n)}  # fills nothing
    elif how == "random": P |= {(i, j) for i in range(n) for j in range(n) if r.random() < .4}
    elif how == "band": P |= {(i, j) for i in range(n) for j in range(n) if j - i in (2, -2, -1, 3)}
    return P


def ilu_lattice(r, n, how, piv, m=1, zero=None):
    """A with integer ILU(0) factors F on its pattern; zero: the row with the zero pivot"""
    for _ in range(40):
        P = pattern(r, n, how)
        F = [[0] * n for _ in range(n)]
        for i, j in P: F[i][j] = r.choice([x for x in range(-m, m + 1) if x]) if r.random() < .9 else 0
        for i in range(n): F[i][i] = r.choice(piv)
        if zero is not None: F[zero][zero] = 0
        lu = lambda i, j: sum((1 if k == i else F[i][k]) * F[k][j] for k in range(min(i, j) + 1))
        A = [[lu(i, j) if (i, j) in P else 0 for j in range(n)] for i in range(n)]
        # an element of A that comes out zero is not in its pattern: then F must be zero there too
        rows = range(n if zero is None else zero + 1)
        if all(A[i][j] != 0 or F[i][j] == 0 for i in rows for j in range(n)): return A, F
    return None, None


def gen_apply(A):
    n = len(A)
    return lambda x: [sum(A[i][j] * x[j] for j in range(n)) for i in range(n)]


def gen_dd(r, n, how):
    m = r.choice([1, 3, 6])
    A = [[0] * n for _ in range(n)]
    for i, j in pattern(r, n, how):
        if i != j: A[i][j] = r.choice([x for x in range(-m, m + 1) if x])
    for i in range(n): A[i][i] = r.choice([-1, 1]) * (sum(abs(x) for x in A[i]) + r.randint(1, 4))
    return A


HOW = ["dense", "tri", "arrow", "lower", "random", "random", "band"]


def ilu_hist(g, count, top):
    r = g.r
    live = {}
    for _ in range(count):
        g.reset(SF=6); live.clear()
        for _ in range(r.randint(2, 4)):
            z = f"z{r.randrange(4)}"
            n = r.choice([1, 2, 2, 3, 3, 4, g.N, g.N, r.randint(1, top)])
            if g.float: n = min(n, 6)
            kind = r.choice(["id", "is", "io"] + (["iz", "iz"] if n == g.N else []))
            what = r.choice(["lu", "lu", "lu", "dd", "zero"])
            how = r.choice(HOW)
            if what == "lu":
                A, F = ilu_lattice(r, n, how, [1, -1, 2, -2, 3], 2 if n < 6 else 1)
                if A is None: continue
                emit_make(g, z, kind, A, cert(t="lu", F=F)); live[z] = (A, F)
            elif what == "dd":
                A = gen_dd(r, n, how); emit_make(g, z, kind, A, cert(t="dd")); live[z] = (A, None)
            else:
                p = r.choice([0, n - 1, r.randrange(n)])
                A, F = ilu_lattice(r, n, how, [1, -1, 2], 2 if n < 6 else 1, p)
                if A is None: continue
                if kind in ("is",) and not any(A[n - 1]) : continue      # CSR needs its last row
                if kind in ("is", "io") and (not any(A[n - 1]) or not any(A[i][n - 1] for i in range(n))): continue
                emit_make(g, z, kind, A, cert(t="zero", F=F, m=p + 1))
            for _ in range(r.randint(1, 2)):
                if not live: break
                q = r.choice(list(live)); A, F = live[q]; m = len(A); LU = None
                ap = gen_apply(A)
                if F and r.random() < .7:
                    lu = lambda i, j: sum((1 if k == i else F[i][k]) * F[k][j] for k in range(min(i, j) + 1))
                    LU = [[lu(i, j) for j in range(m)] for i in range(m)]
                    if max(abs(x) for w in LU for x in w) < 400: ap = gen_apply(LU)
                g.solve_some(q, m, ap, r.randint(1, 2), False, False, vec_only=True, xmax=5, A=LU or A)


def gmres_hist(g, count, top):
    r = g.r
    for _ in range(count):
        g.reset(S=6 if g.float else 12, SF=0, ea=r.choice([0, 0, 2 * r.randint(-4, 4)]))
        live = {}
        for _ in range(r.randint(1, 3)):
            z = f"z{r.randrange(4)}"
            n = r.choice([1, 2, 2, 3, 3, 4, r.randint(1, top)])
            if g.float: n = min(n, 5)
            kind = r.choice(["gd", "gs"])
            how = r.choice(HOW)
            tol = r.choice([1, 1, 4]) if r.random() < .6 else r.choice([1, 8, 40]) << (g.S - 4)
            if r.random() < .7:
                A, F = ilu_lattice(r, n, how, [1, -1], 1)
                if A is None or det(A) == 0: continue
                lu = lambda i, j: sum((1 if k == i else F[i][k]) * F[k][j] for k in range(min(i, j) + 1))
                M = [[lu(i, j) for j in range(n)] for i in range(n)]
                if max(abs(x) for w in M for x in w) > 60: continue
                # not too ill-conditioned after preconditioning: A^-1 M of moderate size
                if abs(det(A)) < 1 or not mild(A, M, 30 if g.float else 2000): continue
                emit_make(g, z, kind, A, cert(t="lu", F=F), tol=tol)
            else:
                A = gen_dd(r, n, how); emit_make(g, z, kind, A, cert(t="dd"), tol=tol)
            live[z] = A
            if r.random() < .2:
                z2 = f"z{r.randrange(4)}"; g.emit(f"zcopy {z2} {z}"); live[z2] = A
            for _ in range(r.randint(1, 3)):
                q = r.choice(list(live)); A = live[q]; m = len(A)
                big = r.choice([1, 1, 6])
                def column():
                    w = r.random()
                    if w < .12: return [0] * m
                    if w < .3: return [r.choice([0, 0, 1]) for _ in range(m)]
                    x = [g.val(5) * big for _ in range(m)]
                    return gen_apply(A)(x)
                b, x = g.r.sample(["d0", "d1", "d2"], 2)
                g.load(b, m, column)
                g.emit(f"solve {q} {b} {x if r.random() < .8 else b}")


def gmres_large(g, sizes):
    """large sparse systems dominated by the diagonal, a tolerance far below everything else: many iterations"""
    r = g.r
    for n in sizes:
        g.reset(S=14, SF=0, ea=r.choice([0, 0, 2 * r.randint(-20, 20)]), LB=20)
        m = r.choice([1, 2, 4])
        dens = r.choice([.1, .25, .5, .9])
        A = [[r.choice([x for x in range(-m, m + 1) if x]) if i != j and r.random() < dens else 0 for j in range(n)] for i in range(n)]
        for i in range(n):
            A[i][i] = r.choice([1, 1, 1, -1]) * max(sum(abs(x) for x in A[i]) + r.randint(1, 3), r.choice([1, 10]))
        for z, kind in (("z0", "gs"), ("z1", "gd")):
            if kind == "gd" and n > 24: continue
            emit_make(g, z, kind, A, cert(t="dd"), tol="0+16")
            for b, x in (("d0", "d1"), ("d2", "d2")):
                g.load(b, n, lambda: [r.randint(-9, 9) for _ in range(n)])
                g.emit(f"solve {z} {b} {x}")


def mild(A, M, lim):
    X = inverse_times(A, M)
    return X is not None and max(sum(abs(x) for x in w) for w in X) < lim


# ---- Gram-Schmidt
def orth_basis(r, n):
    """n integer vectors, pairwise orthogonal, of different lengths"""
    B = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for _ in range(r.randint(1, 4)):
        if n < 2: break
        i, j = r.sample(range(n), 2)
        a, b = r.choice([(1, 1), (1, 2), (2, 1), (1, -1), (3, 1)])
        # rotate two coordinates of all vectors: orthogonality holds if lengths stay compatible; do it on vectors of equal length
        if sum(x * x for x in B[i]) != sum(x * x for x in B[j]): continue
        u = [a * x + b * y for x, y in zip(B[i], B[j])]; v = [-b * x + a * y for x, y in zip(B[i], B[j])]
        if max(map(abs, u + v)) > 12: continue
        B[i], B[j] = u, v
    r.shuffle(B)
    return [[x * s for x in w] for w in B for s in [r.choice([1, 1, -1, 2])]]


def cgs_hist(g, count, top):
    r = g.r
    for _ in range(count):
        exact = r.random() < .7
        g.reset(S=0 if exact else 6, SF=0)
        for _ in range(3):
            kind = r.choice(["dyn", "dyn", "deque", "sized", "arr"])
            n = g.N if kind == "sized" else r.choice([1, 2, 3, 3, 4, 5, r.randint(1, top)])
            m = r.choice([1, 2, n, r.randint(1, n)])
            if kind == "arr": n = max(n, 3); m = 3
            m = min(m, n)
            if exact:
                W = orth_basis(r, n)[:m]
                V = []
                for j in range(m):
                    v = list(W[j])
                    for k in range(j):
                        c = r.choice([0, 1, -1, 2, r.randint(-4, 4)])
                        v = [x + c * y for x, y in zip(v, W[k])]
                    V.append(v)
            else:
                while True:                              # well away from dependence
                    V = [[r.randint(-9, 9) for _ in range(n)] for _ in range(m)]
                    W, ok = [], True
                    for v in V:
                        w = [Fraction(x) for x in v]
                        for u in W:
                            c = sum(a * b for a, b in zip(u, v)) / sum(a * a for a in u)
                            w = [a - c * b for a, b in zip(w, u)]
                        if 4 * sum(a * a for a in w) < max(4, sum(x * x for x in v)): ok = False; break
                        W.append(w)
                    if ok: break
                    m = max(1, m - 1) if r.random() < .2 and kind != "arr" else m
            g.emit(f"cgs {kind} {n} {m} " + " ".join(str(x) for v in V for x in v))


# ---- sizes past any block or unrolling factor
def sparse_unit_low(r, n, per_row, m=1):
    L = [[int(i == j) for j in range(n)] for i in range(n)]
    for i in range(1, n):
        for j in r.sample(range(i), min(i, r.randint(0, per_row))): L[i][j] = r.choice([-m, m])
    return L


def ldl_of(L, d):
    n = len(d)
    return [[sum(L[i][k] * d[k] * L[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]


def sym_large(g, kinds, sizes, whats=("ldl", "dd", "bad")):
    r = g.r
    for n in sizes:
        for kind in kinds if len(whats) > 1 else [r.choice(kinds)]:
            for what in whats:
                if what == "bad" and r.random() < .4: continue
                g.reset(SF=6 if kind != "cm" else 4)
                z = "z0"; junk = kind != "ct" and r.random() < .5
                mod = kind == "cm"
                if what == "ldl":
                    d = [r.choice([1, -1, 2, -2] if mod else [1, 1, 4]) for _ in range(n)]
                    L = sparse_unit_low(r, n, 4 if g.float else 5 if len(whats) == 1 else r.choice([3, n]))
                    A = ldl_of(L, d); emit_make(g, z, kind, A, cert(t="ldl", L=L, d=d), junk)
                elif what == "dd":
                    A = Sym.dd(r, n, not mod)
                    if max(map(max, A)) * 2 ** (2 * g.SF) > 2 ** 28: continue
                    emit_make(g, z, kind, A, cert(t="dd"), junk)
                else:
                    p = r.choice([1, n, n - 1, n // 2, r.randint(1, n)])
                    d = [r.choice([1, -1, 2] if mod else [1, 4]) for _ in range(n)]
                    d[p - 1] = 0 if mod or r.random() < .5 else -1
                    L = sparse_unit_low(r, n, 2)
                    A = ldl_of(L, d)
                    if d[p - 1] == 0: c = cert(t="zero", L=L, d=d, m=p)
                    else:
                        w = [0] * n; w[p - 1] = 1
                        for i in range(p - 2, -1, -1): w[i] = -sum(L[k][i] * w[k] for k in range(i + 1, n))
                        if max(map(abs, w)) > 200: continue
                        c = cert(t="neg", w=w)
                    emit_make(g, z, kind, A, c, junk); continue
                ap = sym_apply(A)
                g.load("d0", n, lambda: ap([g.val() for _ in range(n)]))
                g.load("m0", n, lambda: ap([g.val() for _ in range(n)]), r.choice([1, 2, 5, 17]))
                g.emit(f"solve {z} d0 d1"); g.emit(f"solve {z} m0 m1"); g.emit(f"solvem {z} {r.choice(['d0', 'm0'])}")


def ilu_sparse(r, n, per_row, piv, zero=None):
    """like ilu_lattice, for large sparse patterns: elements of A that come out zero leave the pattern"""
    F = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in r.sample(range(n), min(n, r.randint(1, per_row))): F[i][j] = r.choice([-1, 1])
        F[i][i] = r.choice(piv)
    F[n - 1][0] = F[0][n - 1] = 1                       # a COO matrix shows its size by its last row and column
    if zero is not None: F[zero][zero] = 0
    for _ in range(60):
        P = {(i, j) for i in range(n) for j in range(n) if i == j or F[i][j]}
        lu = lambda i, j: sum((1 if k == i else F[i][k]) * F[k][j] for k in range(min(i, j) + 1) if k == i or F[i][k])
        A = [[lu(i, j) if (i, j) in P else 0 for j in range(n)] for i in range(n)]
        bad = [(i, j) for i, j in P if A[i][j] == 0 and F[i][j] and (zero is None or i <= zero)]
        if not bad: return (A, F) if any(A[-1]) and any(w[-1] for w in A) else (None, None)
        for i, j in bad: F[i][j] = r.choice(piv) if i == j else 0
    return None, None


def ilu_large(g, sizes, whats=("lu", "lu", "dd", "zero")):
    r = g.r
    for n in sizes:
        for what in whats:
            g.reset(SF=6)
            kind = r.choice(["id", "is", "io"])
            if what == "lu":
                A, F = ilu_sparse(r, n, r.choice([2, 4, 8]), [1, -1, 2, -2])
                if A is None: continue
                emit_make(g, "z0", kind, A, cert(t="lu", F=F))
                lu = lambda i, j: sum((1 if k == i else F[i][k]) * F[k][j] for k in range(min(i, j) + 1) if k == i or F[i][k])
                ap = gen_apply([[lu(i, j) for j in range(n)] for i in range(n)])
            elif what == "dd":
                A = gen_dd(r, n, r.choice(["tri", "lower"])); F = None
                emit_make(g, "z0", kind, A, cert(t="dd")); ap = gen_apply(A)
            else:
                p = r.choice([0, n - 1, n // 2])
                A, F = ilu_sparse(r, n, 3, [1, -1, 2], p)
                if A is None: continue
                emit_make(g, "z0", kind, A, cert(t="zero", F=F, m=p + 1)); continue
            for b, x in (("d0", "d1"), ("d1", "d2")):
                g.load(b, n, lambda: ap([g.val(5) for _ in range(n)])); g.emit(f"solve z0 {b} {x}")


def cgs_large(g, sizes):
    r = g.r
    for n in sizes:
        g.reset(S=0, SF=0)
        for m in (r.choice([2, 3, 4]), min(n, r.randint(5, 12))):
            W = orth_basis(r, n)[:m]; V = []
            for j in range(m):
                v = list(W[j])
                for k in range(j):
                    c = r.choice([0, 1, -1, 2])
                    v = [x + c * y for x, y in zip(v, W[k])]
                V.append(v)
            g.emit(f"cgs {r.choice(['dyn', 'deque'])} {n} {m} " + " ".join(str(x) for v in V for x in v))


# ---- Hermitian matrices, as the real symmetric ones of twice the size that act alike
def embed(A):
    """complex -> real: x+iy becomes [[x,-y],[y,x]]"""
    n = len(A)
    return [[(lambda z, a, b: z.real if a == b else z.imag if a else -z.imag)(complex(A[i // 2][j // 2]), i % 2, j % 2) for j in range(2 * n)] for i in range(2 * n)]


def herm_hist(g, count, top):
    r = g.r
    gi = lambda m: complex(r.randint(-m, m), r.randint(-m, m))
    for _ in range(count):
        g.reset(SF=8 if r.random() < .5 else 6); live = {}
        for _ in range(r.randint(2, 4)):
            z = f"z{r.randrange(4)}"
            n = r.choice([1, 1, 2, 2, 3, 3, 4, g.N, r.randint(1, top)])
            if g.float: n = min(n, 5)
            what = r.choice(["sq", "sq", "dd", "dd", "neg", "zero"])
            if what == "dd":
                m = r.choice([1, 3, 5]); H = [[0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i): H[i][j] = gi(m) if r.random() < .8 else 0; H[j][i] = complex(H[i][j]).conjugate()
                for i in range(n): H[i][i] = int(sum(abs(complex(x).real) + abs(complex(x).imag) for x in H[i])) + r.randint(1, 4)
                A = [[int(x) for x in w] for w in embed(H)]
                if max(map(max, A)) * 2 ** (2 * g.SF) > 2 ** 28: continue
                c, good = cert(t="dd"), True
            else:
                dens = r.choice([.3, .7, 1]); m = 1 if n > 3 else 2
                L = [[int(x) for x in w] for w in embed([[1 if i == j else gi(m) if j < i and r.random() < dens else 0 for j in range(n)] for i in range(n)])]
                p = r.randint(1, n); d = [r.choice([1, 1, 4, 9 if n < 4 else 4]) for _ in range(n)]
                if what == "neg": d[p - 1] = r.choice([-1, -4])
                if what == "zero": d[p - 1] = 0; d[p:] = [r.choice([1, 2, -1]) for _ in d[p:]]
                d = [x for x in d for _ in (0, 1)]
                A = ldl_of(L, d); good = what == "sq"
                if max(abs(x) for w in A for x in w) * 2 ** (2 * g.SF) > 2 ** 28: continue
                if what == "sq": c = cert(t="ldl", L=L, d=d)
                elif what == "zero": c = cert(t="zero", L=L, d=d, m=2 * p - 1)
                else:
                    w = [0] * (2 * n); w[2 * p - 2] = 1
                    for i in range(2 * p - 3, -1, -1): w[i] = -sum(L[k][i] * w[k] for k in range(i + 1, 2 * n))
                    if max(map(abs, w)) > 200: continue
                    c = cert(t="neg", w=w)
            junk = r.random() < .5                       # the strictly upper triangle does not count
            k = 2 * n
            vals = [A[i][j] if i // 2 >= j // 2 or not junk else r.randint(-30, 30) for i in range(k) for j in range(k)]
            full_ = [[vals[i * k + j] if i // 2 >= j // 2 else vals[i * k + j] for j in range(k)] for i in range(k)]
            g.emit(f"make {z} cd {k} 0 " + " ".join(str(x) for w in full_ for x in w) + " " + c)
            if good: live[z] = A
            if r.random() < .2 and live:
                y = r.choice(list(live)); z2 = f"z{r.randrange(4)}"; op = r.choice(["zcopy", "zmove"])
                if z2 != y:
                    g.emit(f"{op} {z2} {y}"); live[z2] = live[y]
                    if op == "zmove": del live[y]
            for _ in range(r.randint(1, 2)):
                if not live: break
                q = r.choice(list(live)); A = live[q]
                N0, g.N = g.N, 2 * g.N
                g.solve_some(q, len(A), sym_apply(A), r.randint(1, 2), False, True, A=full(A))
                g.N = N0


HIST = {"herm": herm_hist, "tri": tri_hist, "chol": chol_hist, "mod": mod_hist, "ilu": ilu_hist, "gmres": gmres_hist, "cgs": cgs_hist}


def jobs(ck, what, elems, hist, top, threads=(1,)):
    js, th = [], ck.thorough
    for elem, backends in elems:
        k = hist * (8 if th else 1) // (1 if elem in ("double", "cdouble") else 2)
        parts = max(1, k // 30)
        scs = []
        for p in range(parts):
            g = G(ck.rng(f"{what}-{elem}-{p}"), elem)
            HIST[what](g, max(1, k // parts), top)
            scs.append((f"{what}-{elem}-{p}", g.text()))
        if what == "tri":
            g = G(ck.rng(f"large-{elem}"), elem); tri_large(g, [40, 129, 300, 1000] if th else [40, 129]); scs.append((f"large-{what}-{elem}", g.text()))
        if what == "gmres" and elem != "float":
            for i in range(4 if th else 1):
                g = G(ck.rng(f"large-{elem}-{i}"), elem); gmres_large(g, [6, 8, 10, 12, 14, 17, 20, 25, 30, 33, 40] * (2 if th else 1)); scs.append((f"large-{what}-{elem}-{i}", g.text()))
        big = ([17, 33] if elem == "float" else [17, 33, 50]) + ([40, 64, 65] + ([100, 129] if elem != "float" else []) if th else [])
        large = {"chol": lambda g: sym_large(g, ["cd", "ct"], big), "mod": lambda g: sym_large(g, ["cm"], big), "ilu": lambda g: ilu_large(g, big), "cgs": lambda g: cgs_large(g, big + [9, 12, 24])}
        if what in large: g = G(ck.rng(f"large-{elem}"), elem); large[what](g); scs.append((f"large-{what}-{elem}", g.text()))
        # every size once
        top1 = 24 if elem == "float" else 72 if th else 52
        sweep = {"tri": lambda g: tri_large(g, range(4, 600 if th else 140)), "chol": lambda g: sym_large(g, ["cd", "ct"], range(5, top1), ("ldl",)),
                 "mod": lambda g: sym_large(g, ["cm"], range(5, top1), ("ldl",)), "ilu": lambda g: ilu_large(g, range(5, min(44, top1)), ("lu",))}
        if what in sweep: g = G(ck.rng(f"sizes-{elem}"), elem); sweep[what](g); scs.append((f"sizes-{what}-{elem}", g.text()))
        for lab, sc in scs:
            for be in backends:
                for t in threads: js.append(Job(lab, SPEC, Config("csolve" if what == "herm" else "solve", elem, be), sc, t))
    return js


# ---- transitions of the specification on the code
class Replay:
    def __init__(self, gm): self.have = None; self.gm = gm

    def make(self, a):
        n, A = a["n"], a["A"]
        if a["kind"] in ("tdd", "tds"):
            t = "t0" if a["kind"] == "tdd" else "u0"
            vals = [str(x) for w in (A["dl"], A["d"], A["du"]) for x in w]
            return [f"tri {t} {n} " + " ".join(vals), f"mktri z0 {t} " + ("lv" if sum(A["d"]) % 2 else "mv")]
        return [f"make z0 {a['kind']} {n} {a['tol']} " + " ".join(str(x) for w in A for x in w) + " " + json.dumps(a["cert"], separators=(",", ":"))]

    def to_lines(self, t, known):
        a = t["a"]
        if a["op"] == "make":
            if t["o"] == "ok": self.have = json.dumps(a, sort_keys=True)
            return self.make(a), known
        lines, k = [], json.dumps(t["s"]["z"], sort_keys=True)
        if self.have != k: lines += self.make(t["s"]["z"]); self.have = k
        B = a["B"]
        lines.append(f"rhs {a['b']} {B['n']} {B['k']} " + " ".join(str(x // 256) for x in B["p"]))
        if a["b"] != a["x"] and a["op"] == "solve":       # a tri-diagonal solver wants a result of the right shape
            lines.append(f"rhs {a['x']} {B['n']} {B['k']} " + " ".join(["77"] * len(B["p"])))
        lines.append(f"solvem z0 {a['b']}" if a["op"] == "solvem" else f"solve z0 {a['b']} {a['x']}")
        return lines, known

    def norm(self, r, x):
        if not isinstance(x, dict): return x
        x = {k: v for k, v in x.items() if k not in ("h", "q")}
        if self.gm and "p" in x: x["p"] = [(v + 8) // 16 * 16 for v in x["p"]]     # up to the tolerance
        return x


def possible(t):
    """can the code be given this matrix: a COO matrix has no empty last row or column; sized objects have the driver's size"""
    a = t["a"] if t["a"]["op"] == "make" else t["s"]["z"]
    if a["kind"] in ("tds", "iz") and a["n"] != 3: return False
    if a["kind"] in ("is", "io", "gs"): return any(a["A"][-1]) and any(w[-1] for w in a["A"])
    return True


def replay(ck, config, cfgs, gm=False):
    ts = sorted((t for t in ck.model("MC_Solve", config) if possible(t)), key=lambda t: (json.dumps(t["s"]), json.dumps(t["a"])))
    for cfg in cfgs:
        R = Replay(gm)
        ck.replay(ts, cfg, config[:-4], "reset 3 0 0 8 4", R.to_lines, lambda s: s if isinstance(s, dict) else {}, norm=R.norm)


class ReplayCgs:
    def __init__(self): self.i = 0

    def to_lines(self, t, known):
        a = t["a"]; self.i += 1
        kind = ["dyn", "deque", "sized"][self.i % 3] if a["n"] == 3 else ["dyn", "deque"][self.i % 2]
        if a["n"] == 3 and len(a["v"]) == 3 and self.i % 4 == 3: kind = "arr"
        return [f"cgs {kind} {a['n']} {len(a['v'])} " + " ".join(str(x) for v in a["v"] for x in v)], known


def replay_cgs(ck, config, cfgs):
    ts = sorted(ck.model("MC_Cgs", config), key=lambda t: json.dumps(t["a"]))
    for cfg in cfgs: ck.replay(ts, cfg, config[:-4], "reset 3 0 0 0 0", ReplayCgs().to_lines, lambda s: {})
