-------------------------------- MODULE Mat --------------------------------
(* The dense matrix part of lalib: matrices as row-major values, their      *)
(* arithmetic, products with matrices and vectors, inversion of 2x2.        *)
(*                                                                          *)
(* A matrix is [n |-> rows, m |-> columns, p |-> pattern]: element (i,j)    *)
(* (from 1) is p[((i-1) % per) + 1][((j-1) % per) + 1]; with per >= n, m    *)
(* the pattern is the matrix itself. Vectors are [n |-> length, p |-> ..]   *)
(* as in Vec. Values are integers times 2^E.                                *)
EXTENDS Num, TLC

CONSTANTS DMat, AMat, BMat, CMat, QMat, DVec, XVec, YVec       \* register names by type

VARIABLES dim, per, E, reg, out, ret        \* dim = <<N, L, M>>
vars == <<dim, per, E, reg, out, ret>>

MatReg == DMat \cup AMat \cup BMat \cup CMat \cup QMat
VecReg == DVec \cup XVec \cup YVec
Reg == MatReg \cup VecReg

(* the compile-time shape of a register, <<>> when dynamic *)
ShapeOf(r) == CASE r \in AMat -> <<dim[1], dim[2]>> [] r \in BMat -> <<dim[2], dim[3]>>
                [] r \in CMat -> <<dim[1], dim[3]>> [] r \in QMat -> <<2, 2>>
                [] r \in XVec -> <<dim[2]>> [] r \in YVec -> <<dim[1]>>
                [] OTHER -> <<>>
Static(r) == ShapeOf(r) # <<>>
SameType(r, s) == ShapeOf(r) = ShapeOf(s) /\ (r \in MatReg <=> s \in MatReg)

Lim(n) == MinOf(n, per)
Mx(n, m, f(_, _)) == [n |-> n, m |-> m, p |-> [i \in 1..Lim(n) |-> [j \in 1..Lim(m) |-> f(i, j)]]]
Vx(n, f(_)) == [n |-> n, p |-> [i \in 1..Lim(n) |-> f(i)]]
At(A, i, j) == A.p[((i - 1) % per) + 1][((j - 1) % per) + 1]
\* how many of 1..n are congruent to k
Cnt(k, n) == IF k > n THEN 0 ELSE (n - k) \div per + 1

MAdd(A, B) == Mx(A.n, A.m, LAMBDA i, j : NAdd(A.p[i][j], B.p[i][j]))
MSub(A, B) == Mx(A.n, A.m, LAMBDA i, j : NSub(A.p[i][j], B.p[i][j]))
MScale(a, A) == Mx(A.n, A.m, LAMBDA i, j : NMul(a, A.p[i][j]))
Row(A, B, i, j) == NSumF(LAMBDA k : NInt(Cnt(k, A.m), NMul(A.p[i][k], B.p[k][j])), 1, Lim(A.m))
MMul(A, B) == Mx(A.n, B.m, LAMBDA i, j : Row(A, B, i, j))
Gemm(al, A, B, be, C) == Mx(A.n, B.m, LAMBDA i, j : NAdd(NMul(al, Row(A, B, i, j)), NMul(be, C.p[i][j])))
RowV(A, x, i) == NSumF(LAMBDA k : NInt(Cnt(k, A.m), NMul(A.p[i][k], x.p[k])), 1, Lim(A.m))
MMulV(A, x) == Vx(A.n, LAMBDA i : RowV(A, x, i))
Gemv(al, A, x, be, y) == Vx(A.n, LAMBDA i : NAdd(NMul(al, RowV(A, x, i)), NMul(be, y.p[i])))
Transposed(A) == Mx(A.m, A.n, LAMBDA i, j : A.p[j][i])
SameShape(A, B) == A.n = B.n /\ A.m = B.m
NonEmpty(A) == A.n > 0 /\ A.m > 0
Ident(n) == Mx(n, n, LAMBDA i, j : IF i = j THEN NOne ELSE NZero)

Det2(A) == NSub(NMul(A.p[1][1], A.p[2][2]), NMul(A.p[1][2], A.p[2][1]))
Adj2(A) == [n |-> 2, m |-> 2, p |-> << <<A.p[2][2], NNeg(A.p[1][2])>>, <<NNeg(A.p[2][1]), A.p[1][1]>> >>]

------------------------------------------------------------------------------
Becomes(r, v) == reg' = [reg EXCEPT ![r] = v] /\ out' = "ok" /\ ret' = <<>>
Yields(s)     == UNCHANGED reg /\ out' = "ok" /\ ret' = s
Rejects(o)    == UNCHANGED reg /\ out' = o /\ ret' = <<>>
Same == UNCHANGED <<dim, per, E>>

(* M01: construction, copies, element access *)
LoadM(r, n, m, p) ==
    /\ Same /\ r \in MatReg /\ Len(p) = Lim(n) /\ \A i \in 1..Len(p) : Len(p[i]) = Lim(m)
    /\ IF Static(r) /\ <<n, m>> # ShapeOf(r) /\ n * m # ShapeOf(r)[1] * ShapeOf(r)[2] THEN Rejects("runtime_error")
       ELSE (Static(r) => <<n, m>> = ShapeOf(r)) /\ Becomes(r, [n |-> n, m |-> m, p |-> p])
LoadV(r, n, p) ==
    /\ Same /\ r \in VecReg /\ Len(p) = Lim(n)
    /\ IF Static(r) /\ <<n>> # ShapeOf(r) THEN Rejects("runtime_error") ELSE Becomes(r, [n |-> n, p |-> p])
FillM(r, n, m, a) == /\ Same /\ r \in MatReg /\ (Static(r) => <<n, m>> = ShapeOf(r))
                     /\ Becomes(r, Mx(n, m, LAMBDA i, j : a))
DiagV(r, n, p) == /\ Same /\ r \in MatReg /\ n <= per /\ Len(p) = n /\ (Static(r) => <<n, n>> = ShapeOf(r))
                  /\ Becomes(r, Mx(n, n, LAMBDA i, j : IF i = j THEN p[i] ELSE NZero))
DiagS(r, n, a) == /\ Same /\ r \in MatReg /\ n <= per /\ (Static(r) => <<n, n>> = ShapeOf(r))
                  /\ Becomes(r, Mx(n, n, LAMBDA i, j : IF i = j THEN a ELSE NZero))
Identity(r, n) == Same /\ E = 0 /\ DiagS(r, n, NOne)
CopyM(r, a) == Same /\ SameType(r, a) /\ Becomes(r, reg[a])
\* a moved-from dynamic matrix is reset to an empty one by the driver
MoveM(r, a) == /\ Same /\ SameType(r, a)
               /\ reg' = IF Static(r) THEN [reg EXCEPT ![r] = reg[a]]
                         ELSE [[reg EXCEPT ![a] = [n |-> 0, m |-> 0, p |-> <<>>]] EXCEPT ![r] = reg[a]]
               /\ out' = "ok" /\ ret' = <<>>
SwapM(r, a) == /\ Same /\ SameType(r, a) /\ reg' = [reg EXCEPT ![r] = reg[a], ![a] = reg[r]] /\ out' = "ok" /\ ret' = <<>>
SetM(r, i, j, x) == /\ Same /\ r \in MatReg /\ i \in 0..(reg[r].n - 1) /\ j \in 0..(reg[r].m - 1) /\ reg[r].n <= per /\ reg[r].m <= per
                    /\ Becomes(r, [reg[r] EXCEPT !.p[i + 1][j + 1] = x])
GetM(r, i, j) == /\ Same /\ r \in MatReg /\ i \in 0..(reg[r].n - 1) /\ j \in 0..(reg[r].m - 1)
                 /\ LET x == At(reg[r], i + 1, j + 1) IN Yields(<<x, x, x, x>>)

(* M02: element-wise arithmetic *)
SumOverload(r, a, b) == IF Static(r) THEN /\ Static(a) \/ Static(b)
                                          /\ Static(a) => ShapeOf(a) = ShapeOf(r)
                                          /\ Static(b) => ShapeOf(b) = ShapeOf(r)
                        ELSE ~Static(a) /\ ~Static(b)
AddM(r, a, b) == /\ Same /\ SumOverload(r, a, b) /\ SameShape(reg[a], reg[b]) /\ SameShape(reg[a], reg[r])
                 /\ Becomes(r, MAdd(reg[a], reg[b]))
SubM(r, a, b) == /\ Same /\ SumOverload(r, a, b) /\ SameShape(reg[a], reg[b]) /\ SameShape(reg[a], reg[r])
                 /\ Becomes(r, MSub(reg[a], reg[b]))
OpAddM(r, a, b) == Same /\ SameType(r, a) /\ SameType(r, b) /\ SameShape(reg[a], reg[b]) /\ Becomes(r, MAdd(reg[a], reg[b]))
OpSubM(r, a, b) == Same /\ SameType(r, a) /\ SameType(r, b) /\ SameShape(reg[a], reg[b]) /\ Becomes(r, MSub(reg[a], reg[b]))
ScaleM(r, al) == Same /\ r \in MatReg /\ Becomes(r, MScale(al, reg[r]))
ScaleE(r, i, j) == Same /\ E = 0 /\ i \in 0..(reg[r].n - 1) /\ j \in 0..(reg[r].m - 1) /\ Becomes(r, MScale(At(reg[r], i + 1, j + 1), reg[r]))
MulSM(r, al, a) == Same /\ SameType(r, a) /\ Becomes(r, MScale(al, reg[a]))
OpNegM(r, a) == Same /\ ~CPLX /\ SameType(r, a) /\ Becomes(r, MScale(NNeg(NOne), reg[a]))

(* M03: matrix products; the driver gives alpha the weight 2^-E *)
GemmM(r, al, a, b, be) ==
    LET A == reg[a]
        B == reg[b]
        C == reg[r]
    IN  /\ Same /\ {r, a, b} \subseteq MatReg /\ NonEmpty(A) /\ NonEmpty(B)
        /\ A.m = B.n /\ C.n = A.n /\ C.m = B.m
        /\ Becomes(r, Gemm(al, A, B, be, C))
OpMulM(r, a, b) ==
    LET A == reg[a]
        B == reg[b]
    IN  /\ Same /\ E = 0 /\ (Static(r) <=> Static(a)) /\ (Static(r) <=> Static(b)) /\ NonEmpty(A) /\ NonEmpty(B) /\ A.m = B.n
        /\ Becomes(r, MMul(A, B)) /\ (Static(r) => ShapeOf(r) = <<A.n, B.m>>)

(* M04: matrix-vector products *)
GemvM(r, al, a, x, be) ==
    /\ Same /\ a \in MatReg /\ {r, x} \subseteq VecReg /\ (Static(r) <=> Static(a))
    /\ NonEmpty(reg[a]) /\ reg[a].m = reg[x].n /\ reg[r].n = reg[a].n
    /\ Becomes(r, Gemv(al, reg[a], reg[x], be, reg[r]))
OpMulV(r, a, x) ==
    /\ Same /\ E = 0 /\ a \in MatReg /\ {r, x} \subseteq VecReg /\ (Static(r) <=> Static(a))
    /\ NonEmpty(reg[a]) /\ reg[a].m = reg[x].n /\ (Static(r) => ShapeOf(r) = <<reg[a].n>>)
    /\ Becomes(r, MMulV(reg[a], reg[x]))

(* M05: the inverse R of A, exactly: A R = I, that is 2^(2E) * (integers of A) * (integers of R) = I *)
IsInverse(A, R) == MMul(A, R) = MScale(NInt(Pow2(-2 * E), NOne), Ident(2)) /\ MMul(R, A) = MMul(A, R)
Inv(r, kind, a, R) ==
    /\ Same /\ {r, a} \subseteq QMat /\ E <= 0 /\ (kind = "self" => r = a) /\ Det2(reg[a]) # NZero
    /\ \A i, j \in 1..2 : NSmall(R.p[i][j])
    /\ IsInverse(reg[a], R) /\ Becomes(r, R)
\* any non-zero determinant: R[i][j] * 2^k within one unit of the exact element (values integers: E = 0)
InvR(a, k, s) ==
    LET d == Det2(reg[a])
        w == Adj2(reg[a])
        flat == <<w.p[1][1], w.p[1][2], w.p[2][1], w.p[2][2]>>
    IN  /\ Same /\ a \in QMat /\ E = 0 /\ ~CPLX /\ d # 0 /\ Len(s) = 4
        /\ \A i \in 1..4 : Abs(s[i]) <= 1048576 /\ Abs(s[i] * d - flat[i] * Pow2(k)) <= Abs(d)
        /\ Yields(s)

------------------------------------------------------------------------------
Zeros(r, d, q) == LET s == CASE r \in AMat -> <<d[1], d[2]>> [] r \in BMat -> <<d[2], d[3]>> [] r \in CMat -> <<d[1], d[3]>>
                          [] r \in QMat -> <<2, 2>> [] r \in XVec -> <<d[2]>> [] r \in YVec -> <<d[1]>> [] r \in DMat -> <<0, 0>> [] OTHER -> <<0>>
               IN  IF Len(s) = 2 THEN [n |-> s[1], m |-> s[2], p |-> [i \in 1..MinOf(s[1], q) |-> [j \in 1..MinOf(s[2], q) |-> NZero]]]
                   ELSE [n |-> s[1], p |-> [i \in 1..MinOf(s[1], q) |-> NZero]]
Start(d, q, e) == /\ dim' = d /\ per' = q /\ E' = e /\ reg' = [r \in Reg |-> Zeros(r, d, q)] /\ out' = "ok" /\ ret' = <<>>
MatInit(d, q, e) == /\ dim = d /\ per = q /\ E = e /\ reg = [r \in Reg |-> Zeros(r, d, q)] /\ out = "ok" /\ ret = <<>>

TypeOK == /\ \A r \in MatReg : Len(reg[r].p) = Lim(reg[r].n) /\ \A i \in 1..Len(reg[r].p) : Len(reg[r].p[i]) = Lim(reg[r].m)
          /\ \A r \in VecReg : Len(reg[r].p) = Lim(reg[r].n)
          /\ \A r \in MatReg : Static(r) => ShapeOf(r) = <<reg[r].n, reg[r].m>>
          /\ \A r \in VecReg : Static(r) => ShapeOf(r) = <<reg[r].n>>
=============================================================================
