-------------------------------- MODULE Solve --------------------------------
(* The linear solvers of lalib. A solver register remembers the matrix it    *)
(* was made from; a right-hand side register holds [n, k, p, q, h]: n x k    *)
(* values row by row, p in units of 2^-S, plus q in units of 2^-(S+LB) when  *)
(* LB > 0 (two 32 bit numbers per value), and a checksum of their bits.      *)
(* Results are real numbers: a call is specified by the relation its result  *)
(* satisfies (A x = b up to the rounding of the units), acceptance of a      *)
(* matrix by exact arithmetic on a certificate that comes with the call.     *)
EXTENDS Num, TLC

CONSTANTS TriR, Sol, Rhs
VARIABLES S, SF, LB, tri, sol, rhs, out, ret
vars == <<S, SF, LB, tri, sol, rhs, out, ret>>

At(b, i, c) == b.p[(i - 1) * b.k + c]                   \* element (i, c), counted from 1
L1(w) == SumF(LAMBDA j : Abs(w[j]), 1, Len(w))
NoTri == [n |-> 0, dl |-> <<>>, d |-> <<>>, du |-> <<>>]
NoSol == [kind |-> "", n |-> 0, A |-> <<>>, F |-> <<>>, h |-> 0, tol |-> 0, tf |-> 0, cert |-> [t |-> ""]]
IsTri(z) == z.kind \in {"tdd", "tds"}
IsChol(z) == z.kind \in {"cd", "ct"}
IsMod(z) == z.kind = "cm"
IsIlu(z) == z.kind \in {"id", "is", "io", "iz"}
IsGmres(z) == z.kind \in {"gd", "gs"}

------------------------------------------------------------------------------
(* what it means to solve *)
\* row i of a tri-diagonal matrix applied to column c of x, and the size of the row
TriRow(A, x, i, c) == A.d[i] * At(x, i, c) + (IF i > 1 THEN A.dl[i - 1] * At(x, i - 1, c) ELSE 0) + (IF i < A.n THEN A.du[i] * At(x, i + 1, c) ELSE 0)
TriL1(A, i) == Abs(A.d[i]) + (IF i > 1 THEN Abs(A.dl[i - 1]) ELSE 0) + (IF i < A.n THEN Abs(A.du[i]) ELSE 0)
Row(A, x, i, c) == SumF(LAMBDA j : A[i][j] * At(x, j, c), 1, Len(A[i]))
Shape(b, x) == x.n = b.n /\ x.k = b.k /\ Len(x.p) = b.n * b.k /\ Len(x.q) = (IF LB > 0 THEN b.n * b.k ELSE 0)
\* the parts of b and x in the finer units
LowPart(b) == [b EXCEPT !.p = b.q]
\* hi units and lo fine units together are at most w fine units (one row w of whose numbers add up in 32 bits)
Within(hi, lo, w) == IF LB = 0 \/ w > Pow2(29 - LB) THEN TRUE ELSE Abs(hi) <= 2 * w + 2 /\ Abs(hi * Pow2(LB) + lo) <= w
SolvesTri(A, b, x) ==
    /\ Shape(b, x)
    /\ \A i \in 1..A.n, c \in 1..b.k :
         LET hi == TriRow(A, x, i, c) - At(b, i, c)
         IN  /\ Abs(hi) <= TriL1(A, i) + 1
             /\ Within(hi, IF LB > 0 THEN TriRow(A, LowPart(x), i, c) - At(LowPart(b), i, c) ELSE 0, TriL1(A, i) + 1)
Solves(A, b, x) ==
    /\ Shape(b, x)
    /\ \A i \in 1..Len(A), c \in 1..b.k :
         LET hi == Row(A, x, i, c) - At(b, i, c)
         IN  /\ Abs(hi) <= L1(A[i]) + 1
             /\ Within(hi, IF LB > 0 THEN Row(A, LowPart(x), i, c) - At(LowPart(b), i, c) ELSE 0, L1(A[i]) + 1)
\* strictly dominated by the diagonal: such systems are regular, and elimination without pivoting succeeds
DomTri(A) == \A i \in 1..A.n : 2 * Abs(A.d[i]) > TriL1(A, i)
Dom(A) == \A i \in 1..Len(A) : 2 * Abs(A[i][i]) > L1(A[i])

------------------------------------------------------------------------------
(* Cholesky. Only the lower triangle of A counts. *)
Low(A, i, j) == IF i >= j THEN A[i][j] ELSE A[j][i]
SymRow(A, i) == [j \in 1..Len(A) |-> Low(A, i, j)]
Symm(A) == [i \in 1..Len(A) |-> SymRow(A, i)]
\* (L D L^T)(i, j), i >= j, L with unit diagonal
LDL(L, d, i, j) == SumF(LAMBDA k : (IF k = i THEN 1 ELSE L[i][k]) * d[k] * (IF k = j THEN 1 ELSE L[j][k]), 1, j)
IsLDL(A, L, d, m) == \A i \in 1..m : \A j \in 1..i : A[i][j] = LDL(L, d, i, j)
\* why A is positive definite, or is not
PosDef(A, c) == \/ c.t = "ldl" /\ IsLDL(A, c.L, c.d, Len(A)) /\ \A i \in 1..Len(A) : c.d[i] > 0
                \/ c.t = "dd" /\ Dom(Symm(A)) /\ \A i \in 1..Len(A) : A[i][i] > 0
Quad(A, w) == SumF(LAMBDA i : w[i] * SumF(LAMBDA j : Low(A, i, j) * w[j], 1, Len(A)), 1, Len(A))
IsSquare(a) == a >= 0 /\ ISqrt(a) * ISqrt(a) = a
NotPosDef(A, c) == \/ c.t = "neg" /\ Quad(A, c.w) < 0
                   \/ c.t = "zero" /\ IsLDL(A, c.L, c.d, c.m) /\ c.d[c.m] = 0 /\ \A i \in 1..(c.m - 1) : c.d[i] > 0 /\ IsSquare(c.d[i])
\* a factor, in units of 2^-SF
IsCholesky(A, F) ==
    /\ Len(F) = Len(A)
    /\ \A i \in 1..Len(A) : Len(F[i]) = i /\ F[i][i] > 0
    /\ \A i \in 1..Len(A) : \A j \in 1..i :
         Abs(SumF(LAMBDA k : F[i][k] * F[j][k], 1, j) - A[i][j] * Pow2(2 * SF)) <= SumF(LAMBDA k : Abs(F[i][k]) + Abs(F[j][k]) + 1, 1, j)

(* Modified Cholesky: the factor holds L*D. *)
Quo(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Regular(A, c) == \/ c.t = "ldl" /\ IsLDL(A, c.L, c.d, Len(A)) /\ \A i \in 1..Len(A) : c.d[i] # 0
                 \/ c.t = "dd" /\ Dom(Symm(A))
ZeroPivot(A, c) == c.t = "zero" /\ IsLDL(A, c.L, c.d, c.m) /\ c.d[c.m] = 0 /\ \A i \in 1..(c.m - 1) : c.d[i] # 0
IsModFactor(A, c, F) ==
    /\ Len(F) = Len(A)
    /\ \A i \in 1..Len(A) : Len(F[i]) = i
    /\ IF c.t = "ldl" THEN \A i \in 1..Len(A) : \A j \in 1..i : Abs(F[i][j] - (IF i = j THEN 1 ELSE c.L[i][j]) * c.d[j] * Pow2(SF)) <= 1
       ELSE \* dominated columns: every quotient is off by at most 3 units
            \A i \in 1..Len(A) : \A j \in 1..i : /\ F[j][j] # 0
                 /\ Abs(F[i][j] + SumF(LAMBDA k : Quo(F[i][k] * F[j][k], F[k][k]), 1, j - 1) - A[i][j] * Pow2(SF)) <= 3 * j

(* ILU(0): F holds the strictly lower part of L and U. *)
LUAt(F, i, j) == SumF(LAMBDA k : (IF k = i THEN 1 ELSE F[i][k]) * F[k][j], 1, MinOf(i, j))
Keeps(A, F, m) == \A i \in 1..m, j \in 1..Len(A) : A[i][j] = 0 => F[i][j] = 0
IsIluTo(A, F, m) == Keeps(A, F, m) /\ \A i \in 1..m, j \in 1..Len(A) : A[i][j] # 0 => LUAt(F, i, j) = A[i][j]
HasIlu(A, c) == \/ c.t = "lu" /\ IsIluTo(A, c.F, Len(A)) /\ \A i \in 1..Len(A) : c.F[i][i] # 0
                \/ c.t = "dd" /\ Dom(A)
IluZero(A, c) == c.t = "zero" /\ IsIluTo(A, c.F, c.m) /\ c.F[c.m][c.m] = 0 /\ \A i \in 1..(c.m - 1) : c.F[i][i] # 0
IsIluFactor(A, c, F) ==
    /\ Len(F) = Len(A) /\ Keeps(A, F, Len(A))
    /\ IF c.t = "lu" THEN \A i, j \in 1..Len(A) : Abs(F[i][j] - c.F[i][j] * Pow2(SF)) <= 1
       ELSE \A i, j \in 1..Len(A) : A[i][j] # 0 =>
              LET l(k) == IF k = i THEN Pow2(SF) ELSE F[i][k]
              IN  Abs(SumF(LAMBDA k : l(k) * F[k][j], 1, MinOf(i, j)) - A[i][j] * Pow2(2 * SF)) <= SumF(LAMBDA k : Abs(l(k)) + Abs(F[k][j]) + 1, 1, MinOf(i, j))
\* elimination leaves the zeros of A alone
NoFill(A) == \A i, j \in 1..Len(A) : A[i][j] = 0 => \A k \in 1..(MinOf(i, j) - 1) : A[i][k] = 0 \/ A[k][j] = 0
\* L U x = b for integer factors
SolvesLU(F, b, x) ==
    LET n == Len(F)
        u1(i) == SumF(LAMBDA j : Abs(F[i][j]), i, n)
        Z(w) == [i \in 1..n |-> [c \in 1..b.k |-> SumF(LAMBDA j : F[i][j] * At(w, j, c), i, n)]]
        R(w, v) == LET zz == Z(w) IN [i \in 1..n |-> [c \in 1..b.k |-> zz[i][c] + SumF(LAMBDA j : F[i][j] * zz[j][c], 1, i - 1) - At(v, i, c)]]
        u == [i \in 1..n |-> u1(i) + SumF(LAMBDA j : Abs(F[i][j]) * u1(j), 1, i - 1) + 1]
    IN  /\ Shape(b, x)
        /\ LET hi == R(x, b)
               lo == IF LB > 0 THEN R(LowPart(x), LowPart(b)) ELSE hi
           IN  \A i \in 1..n, c \in 1..b.k : Abs(hi[i][c]) <= u[i] /\ Within(hi[i][c], lo[i][c], u[i])
SolvesIlu(z, b, x) == /\ Shape(b, x)
                      /\ z.cert.t = "lu" => SolvesLU(z.cert.F, b, x)
                      /\ NoFill(z.A) => Solves(z.A, b, x)

(* GMRES: the preconditioned residual is within the tolerance *)
\* solve U v = L^-1 r for integer factors with unit pivots; w carries <<value, error bound>>
RECURSIVE Fwd(_, _, _, _)
Fwd(F, r, i, w) == IF i > Len(F) THEN w
                   ELSE Fwd(F, r, i + 1, Append(w, <<r[i][1] - SumF(LAMBDA j : F[i][j] * w[j][1], 1, i - 1), r[i][2] + SumF(LAMBDA j : Abs(F[i][j]) * w[j][2], 1, i - 1)>>))
RECURSIVE Bwd(_, _, _, _)
Bwd(F, y, i, w) == IF i = 0 THEN w        \* w holds v_{i+1}..v_n
                   ELSE LET n == Len(F)
                            v == <<F[i][i] * (y[i][1] - SumF(LAMBDA j : F[i][j] * w[j - i][1], i + 1, n)), y[i][2] + SumF(LAMBDA j : Abs(F[i][j]) * w[j - i][2], i + 1, n)>>
                        IN  Bwd(F, y, i - 1, <<v>> \o w)
UnitPivots(F) == \A i \in 1..Len(F) : Abs(F[i][i]) = 1
Residual(A, b, x) == [i \in 1..Len(A) |-> <<At(b, i, 1) - Row(A, x, i, 1), L1(A[i]) + 1>>]
RowTol(z, i) == IF z.cert.t = "lu" THEN SumF(LAMBDA j : Abs(LUAt(z.cert.F, i, j)), 1, z.n) ELSE 4 * L1(z.A[i])
\* a tolerance of z.tf fine units: |L U v| <= tf for |v| <= tf
MeetsFine(z, b, x) == \A i \in 1..z.n : Within(Row(z.A, x, i, 1) - At(b, i, 1), Row(z.A, LowPart(x), i, 1) - At(LowPart(b), i, 1), RowTol(z, i) * (z.tf + 1) + L1(z.A[i]) + 1)
MeetsTol(z, b, x) ==
    LET A == z.A
        n == Len(A)
        r == Residual(A, b, x)
    IN  /\ Shape(b, x)
        /\ (\A i \in 1..n : At(b, i, 1) = 0 /\ (LB > 0 => At(LowPart(b), i, 1) = 0)) => \A i \in 1..n : At(x, i, 1) = 0 /\ (LB > 0 => At(LowPart(x), i, 1) = 0)
        /\ LB > 0 /\ z.tol = 0 => MeetsFine(z, b, x)
        /\ IF z.cert.t = "lu" /\ UnitPivots(z.cert.F)
           THEN LET v == Bwd(z.cert.F, Fwd(z.cert.F, r, 1, <<>>), n, <<>>) IN \A i \in 1..n : Abs(v[i][1]) <= z.tol + 1 + v[i][2]
           ELSE \A i \in 1..n : Abs(r[i][1]) <= RowTol(z, i) * (z.tol + 1) + r[i][2]

------------------------------------------------------------------------------
(* Gram-Schmidt: V the input vectors, W the results in units of 2^-S *)
DotS(x, y) == SumF(LAMBDA i : x[i] * y[i], 1, Len(x))
Orthogonalized(V, W) ==
    /\ Len(W) = Len(V) /\ W[1] = [i \in 1..Len(V[1]) |-> V[1][i] * Pow2(S)]
    /\ \A j \in 1..Len(V) : Len(W[j]) = Len(V[j])
    /\ \A j \in 2..Len(V) : \A k \in 1..(j - 1) : Abs(DotS(W[j], W[k])) <= (IF S = 0 THEN 0 ELSE L1(W[j]) + L1(W[k]) + Len(V[j]))
    /\ \A j \in 2..Len(V) : Abs(DotS(W[j], W[j]) - Pow2(S) * DotS(W[j], V[j])) <= (IF S = 0 THEN 0 ELSE 2 * L1(W[j]) + Pow2(S) * L1(V[j]) + Len(V[j]))
    \* with integer coefficients: the very combination
    /\ S = 0 => \A j \in 2..Len(V) : \A i \in 1..Len(V[j]) :
         W[j][i] = V[j][i] - SumF(LAMBDA k : (DotS(W[k], V[j]) \div DotS(W[k], W[k])) * W[k][i], 1, j - 1)
    \* otherwise: the combination up to the rounding of the coefficients N / D
    /\ S > 0 => \A j \in 2..Len(V) :
         LET n == Len(V[j])
             N == [k \in 1..(j - 1) |-> DotS(W[k], V[j])]
             D == [k \in 1..(j - 1) |-> MaxOf(1, DotS(W[k], W[k]) \div Pow2(S))]
             c == [k \in 1..(j - 1) |-> Abs(N[k]) \div D[k] + 1]
             slack(k, i) == 2 * ((Abs(W[k][i]) * (L1(V[j]) + 2 * c[k] * ((L1(W[k]) + n) \div Pow2(S) + 2))) \div D[k] + c[k] + 2)
         IN  \A i \in 1..n : Abs(W[j][i] - Pow2(S) * V[j][i] + SumF(LAMBDA k : (N[k] * W[k][i]) \div D[k], 1, j - 1)) <= 2 + SumF(LAMBDA k : slack(k, i), 1, j - 1)
Integral(V, W) == \A j \in 2..Len(V) : \A k \in 1..(j - 1) : DotS(W[k], V[j]) % DotS(W[k], W[k]) = 0

------------------------------------------------------------------------------
Same == UNCHANGED <<S, SF, LB>>
Ok == out' = "ok" /\ ret' = <<>>
Tri(t, n, dl, d, du) == Same /\ Ok /\ tri' = [tri EXCEPT ![t] = [n |-> n, dl |-> dl, d |-> d, du |-> du]] /\ UNCHANGED <<sol, rhs>>
TPoke(t, w, i, x) == /\ Same /\ Ok /\ UNCHANGED <<sol, rhs>>
                     /\ tri' = [tri EXCEPT ![t] = CASE w = 0 -> [@ EXCEPT !.dl[i + 1] = x] [] w = 1 -> [@ EXCEPT !.d[i + 1] = x] [] OTHER -> [@ EXCEPT !.du[i + 1] = x]]
SetSol(z, s) == sol' = [sol EXCEPT ![z] = s] /\ UNCHANGED <<tri, rhs>>
\* h: what the register shows of the bits of its factor
MkTri(z, t, F, h) == /\ Same /\ Ok /\ tri[t].n >= 1 /\ DomTri(tri[t])
                     /\ SetSol(z, [NoSol EXCEPT !.kind = IF t \in {"t0", "t1"} THEN "tdd" ELSE "tds", !.n = tri[t].n, !.A = tri[t]])
Made(kind, n, tol, tf, A, c, F, h) == [kind |-> kind, n |-> n, A |-> IF kind \in {"cd", "ct", "cm"} THEN Symm(A) ELSE A, F |-> F, h |-> h, tol |-> tol, tf |-> tf, cert |-> c]
Make(z, kind, n, tol, tf, A, c, F, h) ==
    LET k == [kind |-> kind]
        accepted == CASE IsChol(k) -> PosDef(A, c) [] IsMod(k) -> Regular(A, c) [] OTHER -> HasIlu(A, c)
        rejected == CASE IsChol(k) -> NotPosDef(A, c) [] IsMod(k) -> ZeroPivot(A, c) [] OTHER -> IluZero(A, c)
    IN  /\ Same /\ ret' = <<>>
        /\ IF rejected THEN out' = "runtime_error" /\ UNCHANGED <<tri, sol, rhs>>
           ELSE /\ accepted /\ out' = "ok"
                /\ CASE IsChol(k) -> IsCholesky(A, F) [] IsMod(k) -> IsModFactor(A, c, F) [] IsIlu(k) -> IsIluFactor(A, c, F) [] OTHER -> TRUE
                /\ SetSol(z, Made(kind, n, tol, tf, A, c, F, h))
ZCopy(z, y) == Same /\ Ok /\ SetSol(z, sol[y])
ZMove(z, y) == Same /\ Ok /\ z # y /\ sol' = [[sol EXCEPT ![y] = NoSol] EXCEPT ![z] = sol[y]] /\ UNCHANGED <<tri, rhs>>
Load(r, n, k, p, h) == Same /\ Ok /\ rhs' = [rhs EXCEPT ![r] = [n |-> n, k |-> k, p |-> [i \in 1..Len(p) |-> p[i] * Pow2(S)], q |-> [i \in 1..(IF LB > 0 THEN Len(p) ELSE 0) |-> 0], h |-> h]] /\ UNCHANGED <<tri, sol>>
\* x solves the system of s for b
Solution(s, b, x) == CASE IsTri(s) -> SolvesTri(s.A, b, x) [] IsChol(s) \/ IsMod(s) -> Solves(s.A, b, x) [] IsIlu(s) -> SolvesIlu(s, b, x) [] OTHER -> MeetsTol(s, b, x)
Solve(z, b, x, X) == Same /\ Ok /\ sol[z].n = rhs[b].n /\ Solution(sol[z], rhs[b], X) /\ rhs' = [rhs EXCEPT ![x] = X] /\ UNCHANGED <<tri, sol>>
\* several threads at once
ParSolve(zs, bs, xs, New(_)) ==
    /\ Same /\ Ok /\ \A i \in 1..Len(bs) : /\ \A j \in 1..Len(xs) : (i # j => xs[i] # xs[j]) /\ bs[i] # xs[j] /\ (i # j /\ IsTri(sol[zs[i]]) => zs[i] # zs[j])
                                           /\ Solution(sol[zs[i]], rhs[bs[i]], New(xs[i]))
    /\ rhs' = [r \in Rhs |-> IF \E i \in 1..Len(xs) : xs[i] = r THEN New(r) ELSE rhs[r]] /\ UNCHANGED <<tri, sol>>
Cgs(V, W) == Same /\ (S = 0 => Integral(V, W)) /\ Orthogonalized(V, W) /\ out' = "ok" /\ ret' = W /\ UNCHANGED <<tri, sol, rhs>>

SolveInit(s, f, N) == S = s /\ SF = f /\ LB = 0 /\ tri = [t \in TriR |-> NoTri] /\ sol = [z \in Sol |-> NoSol] /\ rhs = [r \in Rhs |-> [n |-> 0, k |-> 0, p |-> <<>>, q |-> <<>>, h |-> 0]] /\ out = "ok" /\ ret = <<>>
=============================================================================
