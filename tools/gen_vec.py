"""Histories for the vector machine (spec/Vec.tla, harness/driver_vec.cc)."""
from vlib import Config, Job
SIZES = (1, 2, 3, 4, 8, 17)
SPEC = ("VecTrace", "VecTrace.cfg")
EDGES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001,
         1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769,
         65535, 65536, 65537, 100000, 131071, 131072, 131073, 262145, 524289, 1000003, 1048576, 1048577]
DREG = ["d0", "d1", "d2", "d3"]
SREG = ["s0", "s1", "s2", "s3"]


class G:
    """Writes a script while tracking lengths and magnitude bounds, so that every value stays exact."""
    def __init__(self, rng, elem):
        from vlib import ELEMS
        self.r, self.cplx, self.lim = rng, ELEMS[elem][1], ELEMS[elem][2]
        self.small_e = elem in ("float", "cfloat"); self.int = elem in ("int", "uint")
        self.out = []
        self.reset(1, 100, 0)

    def reset(self, N, per, E):
        self.N, self.per, self.E = N, per, E
        self.n = {d: 0 for d in DREG}; self.n.update({s: N for s in SREG})
        self.m = {x: 0 for x in DREG + SREG}
        self.out.append(f"reset {N} {per} {E}")

    def exp(self):
        k = self.r.random()
        if k < 0.5 or self.int: return 0
        return self.r.randint(-35, 35) if self.small_e else self.r.randint(-300, 300)

    def scale_of(self):
        return self.r.choice([1, 2, 3, 7, 100, 1000, 4097, self.lim // 64, self.lim // 4])

    def v(self, m):
        def one():
            k = self.r.random()
            if k < 0.1: return 0
            if k < 0.25: return self.r.choice([-m, m])
            return self.r.randint(-m, m)
        return f"{one()} {one()}" if self.cplx else str(one())

    def alpha(self):
        a = self.r.choice([0, 1, -1, 2, -2, 3, -3, 5, 7, -8])
        if self.cplx:
            b = self.r.choice([0, 0, 1, -1, 2, -3])
            return f"{a} {b}", abs(a) + abs(b)
        return str(a), abs(a)

    def emit(self, s): self.out.append(s)

    def load(self, r, n=None, m=None, kind=None):
        n = self.n[r] if n is None else n
        m = m or self.scale_of()
        if r[0] == "s": kind = kind or self.r.choice(["vec", "move", "arr", "init", "write"])
        else: kind = kind or self.r.choice(["vec", "move", "arr", "init", "write"])
        self.emit(f"load {r} {kind} {n} " + " ".join(self.v(m) for _ in range(min(n, self.per))))
        if r[0] == "d" or n == self.N: self.n[r] = n; self.m[r] = m * (2 if self.cplx else 1)

    def ensure(self, r, bound):
        """reload r when its bound has grown too much"""
        if self.m[r] > bound: self.load(r, m=max(1, min(bound // 2, self.scale_of())))

    def same_len(self, r):  # registers with the length of r
        return [x for x in DREG + SREG if self.n[x] == self.n[r]]

    def elementwise(self):
        r = self.r; op = r.choice(["add", "add", "sub", "sub", "neg", "axpy", "axpy", "scale", "opadd", "opsub", "opneg", "scaled", "mull", "mulr", "div", "divr"])
        if op[:3] == "div" and self.int: op = "axpy"                  # division is for floating point
        dst = r.choice(DREG + SREG)
        same = self.same_len(dst)
        kind = [x for x in same if x[0] == dst[0]]
        if op in ("add", "sub"):
            if dst[0] == "d": a, b = r.choice(kind), r.choice(kind)
            else:
                a, b = r.choice(same), r.choice(same)
                if a[0] == "d" and b[0] == "d":
                    if r.random() < .5: a = r.choice(kind)
                    else: b = r.choice(kind)
            self.ensure(a, self.lim // 2); self.ensure(b, self.lim // 2)
            self.emit(f"{op} {dst} {a} {b}"); self.m[dst] = self.m[a] + self.m[b]
        elif op in ("opadd", "opsub"):
            # operands of any (equal) length: the destination takes it
            a = r.choice([x for x in DREG + SREG if x[0] == dst[0]])
            b = r.choice([x for x in DREG + SREG if x[0] == dst[0] and self.n[x] == self.n[a]])
            self.ensure(a, self.lim // 2); self.ensure(b, self.lim // 2)
            self.emit(f"{op} {dst} {a} {b}"); self.m[dst] = self.m[a] + self.m[b]; self.n[dst] = self.n[a]
        elif op == "neg":
            a = r.choice(kind); self.emit(f"neg {dst} {a}"); self.m[dst] = self.m[a]
        elif op == "opneg":
            a = r.choice(DREG if dst[0] == "d" else SREG); self.emit(f"opneg {dst} {a}"); self.m[dst] = self.m[a]; self.n[dst] = self.n[a]
        elif op == "axpy":
            a = r.choice(kind); t, k = self.alpha(); self.ensure(a, self.lim // 40); self.ensure(dst, self.lim // 2)
            self.emit(f"axpy {dst} {t} {a}"); self.m[dst] = self.m[dst] + k * self.m[a]
        elif op == "scale":
            t, k = self.alpha(); self.ensure(dst, self.lim // 20); self.emit(f"scale {dst} {t}"); self.m[dst] *= k
        elif op in ("scaled", "mull", "mulr"):
            a = r.choice(DREG if dst[0] == "d" else SREG); t, k = self.alpha(); self.ensure(a, self.lim // 20)
            self.emit(f"{op} {dst} {t} {a}"); self.m[dst] = self.m[a] * k; self.n[dst] = self.n[a]
        elif op == "div":
            # make a multiple of the divisor first
            a = r.choice(DREG if dst[0] == "d" else SREG); d = r.choice([1, 2, -2, 4, -8, -1])
            self.ensure(a, self.lim // 20)
            z = " 0" if self.cplx else ""
            self.emit(f"scale {a} {d}{z}"); self.m[a] *= abs(d)
            self.emit(f"div {dst} {a} {d}{z}"); self.n[dst] = self.n[a]; self.m[dst] = self.m[a]
        elif op == "divr":
            a = r.choice(DREG + SREG); d = r.choice([3, 5, -7, 10, 9]); z = " 0" if self.cplx else ""
            if self.cplx and r.random() < .8: d = r.choice([1, -1, 2, 3, -4, 0]); z = " %d" % r.choice([1, -2, 3, -5, 4])
            self.ensure(a, 500)
            self.emit(f"divr {a} {d}{z} 10")

    def bound_red(self, a, b):
        """make n*|a|*|b| small enough"""
        n = max(1, self.n[a]); f = 2 if self.cplx else 1
        while n * self.m[a] * self.m[b] * f > self.lim:
            k = max(1, int((self.lim / n / f) ** 0.5) // f)
            if n * k * k * f * f * f > self.lim: return False
            k = self.r.choice([k, max(1, k // 2), min(3, k)])
            if self.m[a] > k: self.load(a, m=max(1, k // f))
            if a != b and self.m[b] > k: self.load(b, m=max(1, k // f))
            if a == b or (self.m[a] <= k and self.m[b] <= k): break
        return n * self.m[a] * self.m[b] * f <= self.lim

    def reduction(self):
        r = self.r; op = r.choice(["dot", "dot", "mdot", "norm2", "cross", "cross", "elem"])
        if op == "norm2" and self.int: op = "dot"
        if self.cplx and op != "elem": op = "cross"
        if op == "elem": return self.elementwise()
        if op in ("dot", "mdot"):
            a = r.choice(DREG + SREG); b = r.choice(self.same_len(a))
            if a[0] != b[0]: op = "mdot"
            if self.bound_red(a, b): self.emit(f"{op} {a} {b}")
        elif op == "norm2":
            a = r.choice(DREG + SREG)
            self.norm(a)
        elif op == "cross":
            self.cross()

    def norm(self, a):
        """mostly vectors whose norm is an integer"""
        r = self.r; n = self.n[a]
        pick = r.random()
        if pick < 0.6 and 0 < n <= self.per and n <= 64:
            # sum of squares = square: 1,2,2 / 3,4 / 1,1,1,1 / ... padded with zeros, scattered, with signs
            base = r.choice([[1], [3, 4], [1, 2, 2], [1, 1, 1, 1], [2, 3, 6], [5, 12], [8, 15], [1, 4, 8], [2, 4, 5, 6], [1, 1, 3, 5], [1] * 9, [1] * 16, [2] * 25])
            if len(base) <= n:
                k = r.choice([1, 2, 3, 7, 11])
                vals = [x * k * r.choice([-1, 1]) for x in base] + [0] * (n - len(base))
                r.shuffle(vals)
                self.emit(f"load {a} vec {n} " + " ".join(map(str, vals))); self.m[a] = max(map(abs, vals))
                self.emit(f"norm2 {a} 10"); return
        if n > 0 and self.m[a] * self.m[a] * n <= self.lim and (self.m[a] * n ** .5) * 8 < 2 ** 23:
            self.emit(f"norm2 {a} 3")

    def cross(self):
        r = self.r
        if self.E != 0 or self.N not in (2, 3): return
        L = [x for x in DREG + SREG if self.n[x] == self.N]
        for x in L: self.ensure(x, 900 if not self.small_e else 300)
        a, b, d = r.choice(L), r.choice(L), r.choice(L)
        if self.N == 2:
            if a[0] == "d" and b[0] == "d": a = r.choice(SREG)
            self.emit(f"cross2 {a} {b}")
        else:
            k = r.choice(["cross3", "cross3to", "crossacc"])
            if k == "cross3":
                if a[0] == "d" and b[0] == "d": a = r.choice(SREG)
                d = r.choice(SREG)
            self.emit(f"{k} {d} {a} {b}")
            f = 2 if self.cplx else 1
            self.m[d] = (self.m[d] if k == "crossacc" else 0) + 2 * f * self.m[a] * self.m[b]

    def value_ops(self):
        r = self.r; op = r.choice(["load", "load", "fill", "copy", "assign", "move", "moveassign", "swap", "set", "set", "set", "get", "scale", "add"])
        x = r.choice(DREG + SREG); pool = DREG if x[0] == "d" else SREG
        if op == "load": self.load(x, n=self.N if x[0] == "s" else r.choice([0, 1, 2, 3, 4, 5, 6, 9, 16, 17, self.N]))
        elif op == "fill":
            m = self.scale_of(); n = self.N if x[0] == "s" else r.choice([0, 1, 2, 5, 17, 40])
            self.emit(f"fill {x} {n} {self.v(m)}"); self.n[x] = n; self.m[x] = m * (2 if self.cplx else 1)
        elif op in ("copy", "assign", "move", "moveassign"):
            a = r.choice(pool)
            if op == "moveassign" and a == x: return           # unspecified
            self.emit(f"{op} {x} {a}")
            nn, mm = self.n[a], self.m[a]
            if op[0] == "m" and x[0] == "d" and x != a: self.n[a] = 0; self.m[a] = 0
            self.n[x], self.m[x] = nn, mm
        elif op == "swap":
            a = r.choice(pool); self.emit(f"swap {x} {a}")
            self.n[a], self.n[x] = self.n[x], self.n[a]; self.m[a], self.m[x] = self.m[x], self.m[a]
        elif op == "set" and 0 < self.n[x] <= self.per:
            i = r.choice([0, self.n[x] - 1, r.randrange(self.n[x])]); m = self.scale_of()
            self.emit(f"set {x} {r.choice(['idx', 'data', 'iter', 'rev'])} {i} {self.v(m)}"); self.m[x] = max(self.m[x], m * (2 if self.cplx else 1))
        elif op == "get" and self.n[x] > 0:
            self.emit(f"get {x} {r.choice([0, self.n[x] - 1, r.randrange(self.n[x])])}")
        elif op == "scale":
            self.ensure(x, self.lim // 20); t, k = self.alpha(); self.emit(f"scale {x} {t}"); self.m[x] *= k
        elif op == "add":
            a = r.choice([y for y in pool if self.n[y] == self.n[x]])
            self.ensure(x, self.lim // 2); self.ensure(a, self.lim // 2); self.emit(f"add {x} {x} {a}"); self.m[x] += self.m[a]

    def mismatch(self):
        r = self.r; op = r.choice(["add", "sub", "neg", "axpy", "dot", "mdot", "opadd", "opsub", "load", "loadbad"])
        x = r.choice(DREG + SREG); pool = DREG if x[0] == "d" else SREG
        if op in ("dot", "mdot") and self.cplx: op = "add"
        if op == "load":
            d = r.choice(DREG); self.load(d, n=r.choice([0, 1, 2, 3, 4, self.N, self.N, max(0, self.N - 1), self.N + 1, 16, 17, 64]), m=r.choice([1, 5, 20]))
        elif op == "loadbad":
            n = r.choice([k for k in (0, 1, 2, 3, self.N - 1, self.N + 1, 2 * self.N, 40) if k >= 0 and k != self.N])
            self.load(r.choice(SREG), n=n, m=3, kind=r.choice(["vec", "move", "init"]))
        elif op in ("add", "sub"):
            if x[0] == "d": a, b = r.choice(DREG), r.choice(DREG)
            else:
                a, b = r.choice(DREG + SREG), r.choice(DREG + SREG)
                if a[0] == b[0] == "d": a = r.choice(SREG)
            self.ensure(a, self.lim // 2); self.ensure(b, self.lim // 2)
            self.emit(f"{op} {x} {a} {b}")
            if self.n[a] == self.n[b] == self.n[x]: self.m[x] = self.m[a] + self.m[b]
        elif op in ("opadd", "opsub"):
            a, b = r.choice(pool), r.choice(pool); self.ensure(a, self.lim // 2); self.ensure(b, self.lim // 2)
            self.emit(f"{op} {x} {a} {b}")
            if self.n[a] == self.n[b]: self.m[x] = self.m[a] + self.m[b]; self.n[x] = self.n[a]
        elif op == "neg":
            a = r.choice(pool); self.emit(f"neg {x} {a}")
            if self.n[a] == self.n[x]: self.m[x] = self.m[a]
        elif op == "axpy":
            a = r.choice(pool); t, k = self.alpha(); self.ensure(a, self.lim // 40); self.ensure(x, self.lim // 2); self.emit(f"axpy {x} {t} {a}")
            if self.n[a] == self.n[x]: self.m[x] += k * self.m[a]
        else:
            a, b = r.choice(DREG + SREG), r.choice(DREG + SREG)
            if a[0] != b[0]: op = "mdot"
            if self.n[a] == self.n[b] and not self.bound_red(a, b): return
            self.emit(f"{op} {a} {b}")

    def text(self): return "\n".join(self.out) + "\n"


def histories(rng, elem, what, count, ops):
    g = G(rng, elem)
    for _ in range(count):
        N = rng.choice(SIZES if what != "reduction" else SIZES + (2, 3, 3, 3))
        E = g.exp()
        if what == "reduction" and N in (2, 3) and rng.random() < 0.7: E = 0
        g.reset(N, 100, E)
        if what == "mismatch":
            for x in DREG: g.load(x, n=rng.choice([0, 1, N, N, N + 1, 5]), m=rng.choice([1, 9, 30]))
            for x in SREG: g.load(x, m=rng.choice([1, 9, 30]))
        else:
            n = rng.choice([N, N, N, rng.randint(0, 70), rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 64, 70])])
            for x in DREG: g.load(x, n=n)
            for x in SREG: g.load(x)
        for _ in range(ops): {"elementwise": g.elementwise, "reduction": g.reduction, "value": g.value_ops, "mismatch": g.mismatch}[what]()
    return g.text()


def sweep(rng, elem, what, lengths, per=13):
    """every length: the same calls on patterned vectors"""
    g = G(rng, elem)
    g.reset(1, per, g.exp() if what == "elementwise" else 0)
    for n in lengths:
        if what == "elementwise":
            m = g.scale_of(); m2 = g.scale_of()
            g.load("d0", n=n, m=m, kind="vec"); g.load("d1", n=n, m=m2, kind="vec"); g.load("d2", n=n, m=1, kind="write")
            for op in ("add", "sub"):
                a, b = ("d0", "d1") if rng.random() < .5 else ("d1", "d0")
                g.emit(f"{op} d2 {a} {b}"); g.m["d2"] = g.m["d0"] + g.m["d1"]
            t, k = g.alpha(); g.ensure("d0", g.lim // 40); g.ensure("d1", g.lim // 2); g.emit(f"axpy d1 {t} d0"); g.m["d1"] += k * g.m["d0"]
            g.emit("neg d2 d0"); g.m["d2"] = g.m["d0"]
            t, k = g.alpha(); g.ensure("d2", g.lim // 20); g.emit(f"scale d2 {t}"); g.m["d2"] *= k
            g.ensure("d0", g.lim // 2); g.ensure("d2", g.lim // 2)
            x = rng.choice(["add d0 d0 d2", "sub d0 d2 d0", "sub d0 d0 d2", "opadd d0 d0 d2", "opsub d3 d0 d2", "opneg d3 d2"]); g.emit(x)
            if x[:2] == "op" and " d3 " in x: g.n["d3"] = n; g.m["d3"] = g.m["d0"] + g.m["d2"]
            else: g.m["d0"] += g.m["d2"]
        else:
            g.load("d0", n=n, m=3, kind="vec"); g.load("d1", n=n, m=3, kind="vec")
            for a, b in (("d0", "d1"), ("d1", "d0"), ("d0", "d0")):
                op = rng.choice(["dot", "mdot"])
                if g.bound_red(a, b): g.emit(f"{op} {a} {b}")
            k = int(n ** .5)
            if g.int: continue
            if k * k == n and n: g.emit(f"fill d2 {n} {rng.choice([1, -1, 2, 3])}"); g.n["d2"] = n; g.m["d2"] = 3; g.emit("norm2 d2 3")
            elif n: g.norm("d0")
    return g.text()


def jobs(ck, what, quick_elems, hist, ops, threads):
    js = []
    th = ck.thorough
    for elem, backends in quick_elems:
        k = hist * (6 if th else 1) // (1 if elem == "double" else 2)
        parts = max(1, k // 60)
        for p in range(parts):
            sc = histories(ck.rng(f"{what}-{elem}-{p}"), elem, what, k // parts, ops)
            for be in backends:
                for t in threads: js.append(Job(f"{what}-{elem}-{p}", SPEC, Config("vec", elem, be), sc, t))
        if what in ("elementwise", "reduction") and not (what == "reduction" and elem.startswith("c")):
            top = 2100 if th else (700 if elem == "double" else 300)
            scs = [sweep(ck.rng(f"sweep-{what}-{elem}-{a}"), elem, what, range(a, top, 3), per) for a, per in ((0, 13), (1, 7), (2, 16))]
            e = EDGES if th else [x for x in EDGES if x >= 300]
            scs.append(sweep(ck.rng(f"edges-{what}-{elem}"), elem, what, e, 11))
            for i, sc in enumerate(scs):
                for be in backends:
                    for t in threads: js.append(Job(f"sweep{i}-{what}-{elem}", SPEC, Config("vec", elem, be), sc, t))
    return js


# ---------------------------------------------------------------- transitions of MC_Vec replayed
ARGS = {"add": "rab", "sub": "rab", "opadd": "rab", "opsub": "rab", "cross3": "rab", "cross3to": "rab", "crossacc": "rab", "neg": "ra", "opneg": "ra",
        "copy": "ra", "assign": "ra", "move": "ra", "moveassign": "ra", "swap": "ra", "axpy": ["r", "al", "a"], "scaled": ["r", "al", "a"], "mull": ["r", "al", "a"],
        "mulr": ["r", "al", "a"], "div": ["r", "a", "al"], "dot": "ab", "mdot": "ab", "cross2": "ab", "scale": ["r", "al"], "get": "ri", "set": ["r", "via", "i", "a"],
        "fill": "rna", "load": ["r", "kind", "n", "p"], "norm2": "ak"}


def to_lines(t, known):
    lines = []
    for r, v in t["s"].items():
        if known.get(r) != v: lines.append(f"load {r} vec {v['n']} " + " ".join(map(str, v["p"])))
    a = t["a"]
    toks = []
    for x in ARGS[a["op"]]: toks += list(map(str, a[x])) if isinstance(a[x], list) else [str(a[x])]
    lines.append(a["op"] + " " + " ".join(toks))
    return lines, dict(t["s"])


def replay(ck, config, size, cfgs, part=1):
    ts = ck.model("MC_Vec", config)
    for cfg in cfgs: ck.replay(ts, cfg, config[:-4], f"reset {size} 8 0", to_lines, lambda s: dict(s))
