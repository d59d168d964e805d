-------------------------------- MODULE Vec --------------------------------
(* The vector part of lalib: dynamic vectors d0..d3 and sized vectors       *)
(* s0..s3 of one compile-time length N. One action per public call.         *)
(*                                                                          *)
(* A vector is [n |-> length, p |-> pattern]: element i (from 1) is         *)
(* p[((i-1) % per) + 1] and Len(p) = min(n, per). With per >= n the pattern *)
(* is simply all elements; histories on very long vectors use a small per.  *)
EXTENDS Num, TLC

CONSTANTS DReg, SReg            \* register names

VARIABLES N, per, reg, out, ret
vars == <<N, per, reg, out, ret>>

Reg == DReg \cup SReg
V(n, p) == [n |-> n, p |-> p]
Empty == V(0, <<>>)
Const(n, a) == V(n, [i \in 1..MinOf(n, per) |-> a])
At(v, i) == v.p[((i - 1) % per) + 1]

Map(v, f(_)) == V(v.n, [i \in 1..Len(v.p) |-> f(v.p[i])])
Zip(v, w, f(_, _)) == V(v.n, [i \in 1..Len(v.p) |-> f(v.p[i], w.p[i])])
VAdd(v, w) == Zip(v, w, NAdd)
VSub(v, w) == Zip(v, w, NSub)
VNeg(v) == Map(v, NNeg)
VScale(a, v) == Map(v, LAMBDA x : NMul(a, x))
VAxpy(a, v, w) == Zip(v, w, LAMBDA x, y : NAdd(NMul(a, x), y))
VDot(v, w) == LET P == Len(v.p)
                  q == v.n \div P
                  r == v.n % P
                  f(i) == NMul(v.p[i], w.p[i])
              IN  IF P = 0 THEN NZero
                  ELSE NAdd(NInt(q, NSumF(f, 1, P)), NSumF(f, 1, r))
Cross2(v, w) == NSub(NMul(v.p[1], w.p[2]), NMul(w.p[1], v.p[2]))
Cross3(v, w) == V(3, <<NSub(NMul(v.p[2], w.p[3]), NMul(w.p[2], v.p[3])),
                       NSub(NMul(v.p[3], w.p[1]), NMul(w.p[3], v.p[1])),
                       NSub(NMul(v.p[1], w.p[2]), NMul(w.p[1], v.p[2]))>>)

\* v, a multiple of 2^-k, is the norm of x up to one unit
NormOK(x, k, v) ==
    LET S == VDot(x, x)
        m == ISqrt(S)
        K == Pow2(k)
    IN  /\ v >= 0
        /\ IF m * m = S THEN Abs(v - m * K) <= 1
           ELSE /\ v <= (m + 1) * K + 1 /\ v >= m * K - 1
                /\ (S < 65536 /\ k <= 7) => /\ (v - 1) * (v - 1) <= S * K * K \/ v = 0
                                           /\ (v + 1) * (v + 1) >= S * K * K

------------------------------------------------------------------------------
(* Outcomes *)
Becomes(r, v) == reg' = [reg EXCEPT ![r] = v] /\ out' = "ok" /\ ret' = <<>>
Yields(s)     == UNCHANGED reg /\ out' = "ok" /\ ret' = s
Rejects(o)    == UNCHANGED reg /\ out' = o /\ ret' = <<>>
Same == UNCHANGED <<N, per>>

(* Which operand kinds have an overload *)
Dyn(r) == r \in DReg
Siz(r) == r \in SReg
ElemOverload(r, a, b) == \/ Dyn(r) /\ Dyn(a) /\ Dyn(b)
                         \/ Siz(r) /\ (Siz(a) \/ Siz(b))
SameKind(r, a) == Dyn(r) <=> Dyn(a)

------------------------------------------------------------------------------
(* V04: construction, copies, element writes *)
Load(r, n, p) ==
    /\ Same /\ Len(p) = MinOf(n, per)
    /\ IF Siz(r) /\ n # N THEN Rejects("runtime_error") ELSE Becomes(r, V(n, p))
Fill(r, n, a) == Same /\ Becomes(r, IF Siz(r) THEN Const(N, a) ELSE Const(n, a))
Copy(r, a) == Same /\ SameKind(r, a) /\ Becomes(r, reg[a])
\* a moved-from dynamic vector is reset to the empty vector by the driver
Move(r, a) == /\ Same /\ SameKind(r, a)
              /\ reg' = IF Dyn(r) /\ r # a THEN [reg EXCEPT ![r] = reg[a], ![a] = Empty] ELSE [reg EXCEPT ![r] = reg[a]]
              /\ out' = "ok" /\ ret' = <<>>
Swap(r, a) == /\ Same /\ SameKind(r, a)
              /\ reg' = [reg EXCEPT ![r] = reg[a], ![a] = reg[r]]
              /\ out' = "ok" /\ ret' = <<>>
Set(r, i, a) == /\ Same /\ i \in 0..(reg[r].n - 1) /\ reg[r].n <= per
                /\ Becomes(r, V(reg[r].n, [reg[r].p EXCEPT ![i + 1] = a]))
Get(r, i) == Same /\ i \in 0..(reg[r].n - 1) /\ Yields(<<At(reg[r], i + 1)>>)

------------------------------------------------------------------------------
(* V01 and V03: element-wise arithmetic *)
Elementwise(r, a, b, v) ==
    IF reg[a].n = reg[b].n /\ reg[r].n = reg[a].n THEN Becomes(r, v) ELSE Rejects("SizeMismatched")
Add(r, a, b) == Same /\ ElemOverload(r, a, b) /\ Elementwise(r, a, b, VAdd(reg[a], reg[b]))
Sub(r, a, b) == Same /\ ElemOverload(r, a, b) /\ Elementwise(r, a, b, VSub(reg[a], reg[b]))
Neg(r, a)    == Same /\ SameKind(r, a) /\ Elementwise(r, a, a, VNeg(reg[a]))
Axpy(r, al, a) == Same /\ SameKind(r, a) /\ Elementwise(r, a, r, VAxpy(al, reg[a], reg[r]))
Scale(r, al) == Same /\ Becomes(r, VScale(al, reg[r]))
\* operators: the destination takes the length of the operands
OpAdd(r, a, b) == /\ Same /\ SameKind(r, a) /\ SameKind(r, b)
                  /\ IF reg[a].n = reg[b].n THEN Becomes(r, VAdd(reg[a], reg[b])) ELSE Rejects("SizeMismatched")
OpSub(r, a, b) == /\ Same /\ SameKind(r, a) /\ SameKind(r, b)
                  /\ IF reg[a].n = reg[b].n THEN Becomes(r, VSub(reg[a], reg[b])) ELSE Rejects("SizeMismatched")
OpNeg(r, a) == Same /\ SameKind(r, a) /\ Becomes(r, VNeg(reg[a]))
Scaled(r, al, a) == Same /\ SameKind(r, a) /\ Becomes(r, VScale(al, reg[a]))
\* division by a power of two (real) of multiples of it is exact
Div(r, a, al) ==
    LET d == IF CPLX THEN al[1] ELSE al
        Q(x) == IF CPLX THEN <<x[1] \div Abs(d), x[2] \div Abs(d)>> ELSE x \div Abs(d)
        v == Map(reg[a], Q)
    IN  /\ Same /\ SameKind(r, a) /\ IsPow2(d) /\ (CPLX => al[2] = 0)
        /\ VScale(IF CPLX THEN <<Abs(d), 0>> ELSE Abs(d), v) = reg[a]
        /\ Becomes(r, IF d < 0 THEN VNeg(v) ELSE v)
\* any non-zero divisor: quotients rounded to multiples of 2^-k
DivR(a, al, k, q) ==
    LET W == IF CPLX THEN Abs(al[1]) + Abs(al[2]) ELSE Abs(al)
        Near(y, x) == Abs(y - x * Pow2(k)) <= W
        Big(y) == IF CPLX THEN Abs(y[1]) <= 67108864 /\ Abs(y[2]) <= 67108864 ELSE Abs(y) <= 67108864
        OK(x, y) == Big(y) /\ LET z == NMul(y, al) IN IF CPLX THEN Near(z[1], x[1]) /\ Near(z[2], x[2]) ELSE Near(z, x)
    IN  /\ Same /\ al # NZero /\ W <= 10 /\ Len(q) = Len(reg[a].p)
        /\ \A i \in 1..Len(q) : OK(reg[a].p[i], q[i])
        /\ Yields(q)

------------------------------------------------------------------------------
(* V02 and V03: reductions and cross products *)
Dot(a, b)  == /\ Same
              /\ IF reg[a].n = reg[b].n THEN Yields(<<VDot(reg[a], reg[b])>>) ELSE Rejects("SizeMismatched")
Norm2(a, k, v) == Same /\ NormOK(reg[a], k, v) /\ Yields(<<v>>)
CrossOverload(a, b) == Siz(a) \/ Siz(b)
DoCross2(a, b) == /\ Same /\ N = 2 /\ CrossOverload(a, b) /\ reg[a].n = 2 /\ reg[b].n = 2
                  /\ Yields(<<Cross2(reg[a], reg[b])>>)
DoCross3(r, a, b) == /\ Same /\ N = 3 /\ Siz(r) /\ CrossOverload(a, b) /\ reg[a].n = 3 /\ reg[b].n = 3
                     /\ Becomes(r, Cross3(reg[a], reg[b]))
Cross3To(r, a, b) == /\ Same /\ N = 3 /\ reg[r].n = 3 /\ reg[a].n = 3 /\ reg[b].n = 3
                     /\ Becomes(r, Cross3(reg[a], reg[b]))
CrossAcc(r, a, b) == /\ Same /\ N = 3 /\ reg[r].n = 3 /\ reg[a].n = 3 /\ reg[b].n = 3
                     /\ Becomes(r, VAdd(Cross3(reg[a], reg[b]), reg[r]))

------------------------------------------------------------------------------
Start(n, q) ==                       \* a fresh set of registers
    /\ N' = n /\ per' = q
    /\ reg' = [r \in Reg |-> IF r \in SReg THEN V(n, [i \in 1..MinOf(n, q) |-> NZero]) ELSE Empty]
    /\ out' = "ok" /\ ret' = <<>>
VecInit(n, q) ==
    /\ N = n /\ per = q
    /\ reg = [r \in Reg |-> IF r \in SReg THEN V(n, [i \in 1..MinOf(n, q) |-> NZero]) ELSE Empty]
    /\ out = "ok" /\ ret = <<>>

(* Invariants *)
TypeOK == /\ \A r \in Reg : reg[r].n \in Nat /\ Len(reg[r].p) = MinOf(reg[r].n, per)
          /\ \A r \in SReg : reg[r].n = N
=============================================================================
