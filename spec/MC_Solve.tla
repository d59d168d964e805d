------------------------------ MODULE MC_Solve ------------------------------
(* Exhaustive small instance of Solve: every matrix of a family, every       *)
(* right-hand side A x with x in a small box, every kind of solver and call. *)
(* The laws say that the certificates decide what they should and that the   *)
(* specified relations leave one result only.                                *)
EXTENDS Solve, Json

CONSTANTS Kinds, Ns, Offs, Diags, Xs, EMIT
VARIABLE act
mcvars == <<vars, act>>

O3 == {-1, 0, 1}
D_tri == {-2, 3}
D_chol == {-1, 0, 1, 4}
D_mod == {-1, 0, 2}
D_ilu == {-1, 0, 2}
D_ilu3 == {0, 1}
D_gm == {-1, 1}
X2 == {-1, 2}
X3 == {-1, 0, 2}
Vecs(n, V) == [1..n -> V]
-----------------------------------------------------------------------------
Tris(n) == {t \in {[n |-> n, dl |-> a, d |-> b, du |-> c] : a \in Vecs(n - 1, Offs), b \in Vecs(n, Diags), c \in Vecs(n - 1, Offs)} : DomTri(t)}
UnitLow(n) == {[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE IF j > i THEN 0 ELSE f[(((i - 1) * (i - 2)) \div 2) + j]]] : f \in Vecs((n * (n - 1)) \div 2, Offs)}
SymOf(L, d) == Symm([i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF j <= i THEN LDL(L, d, i, j) ELSE 0]])
\* w with L^T w = e_p
RECURSIVE Col(_, _, _, _)
Col(L, p, i, w) == IF i = 0 THEN w ELSE Col(L, p, i - 1, <<(IF i = p THEN 1 ELSE 0) - SumF(LAMBDA k : L[k][i] * w[k - i], i + 1, Len(L))>> \o w)
Least(P) == CHOOSE x \in P : \A y \in P : x <= y
SymCert(kind, L, d) ==
    LET zero == {i \in 1..Len(d) : d[i] = 0}
        low == {i \in 1..Len(d) : d[i] <= 0}
        p == Least(low)
    IN  IF kind = "cm" THEN IF zero = {} THEN [t |-> "ldl", L |-> L, d |-> d] ELSE [t |-> "zero", L |-> L, d |-> d, m |-> Least(zero)]
        ELSE IF low = {} THEN [t |-> "ldl", L |-> L, d |-> d]
        ELSE IF d[p] = 0 THEN [t |-> "zero", L |-> L, d |-> d, m |-> p]
        ELSE [t |-> "neg", w |-> Col(L, p, Len(d), <<>>)]
LUs(n) == {F \in [1..n -> [1..n -> Offs \cup Diags]] : /\ \A i, j \in 1..n : F[i][j] \in (IF i = j THEN Diags ELSE Offs)}
OnPattern(F) == [i \in 1..Len(F) |-> [j \in 1..Len(F) |-> IF i = j \/ F[i][j] # 0 THEN LUAt(F, i, j) ELSE 0]]
LUCert(F) == LET z == {i \in 1..Len(F) : F[i][i] = 0} IN IF z = {} THEN [t |-> "lu", F |-> F] ELSE [t |-> "zero", F |-> F, m |-> Least(z)]
Det(A) == CASE Len(A) = 1 -> A[1][1]
            [] Len(A) = 2 -> A[1][1] * A[2][2] - A[1][2] * A[2][1]
            [] Len(A) = 3 -> A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1]) + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Lead(A, m) == [i \in 1..m |-> [j \in 1..m |-> A[i][j]]]

\* (kind, matrix, certificate) to try
Cases == UNION {CASE k \in {"tdd", "tds"} -> {<<k, t, [t |-> "dd"]>> : t \in UNION {Tris(n) : n \in Ns}}
                  [] k \in {"cd", "ct", "cm"} -> UNION {{<<k, SymOf(L, d), SymCert(k, L, d)>> : L \in UnitLow(n), d \in Vecs(n, Diags)} : n \in Ns}
                  [] k \in {"id", "is", "io", "iz"} -> {c \in {<<k, OnPattern(F), LUCert(F)>> : F \in UNION {LUs(n) : n \in Ns}} :
                         LET m == IF c[3].t = "zero" THEN c[3].m ELSE Len(c[2]) IN IsIluTo(c[2], c[3].F, m)}
                  [] OTHER -> {c \in {<<k, OnPattern(F), LUCert(F)>> : F \in UNION {LUs(n) : n \in Ns}} : c[3].t = "lu" /\ IsIluTo(c[2], c[3].F, Len(c[2])) /\ Det(c[2]) # 0}
                : k \in Kinds}
Dim(k, A) == IF k \in {"tdd", "tds"} THEN A.n ELSE Len(A)
\* the factor the specification requires, in units of 2^-SF; Cholesky factors only of perfect squares
Factor(k, A, c) == CASE k \in {"cd", "ct"} -> [i \in 1..Len(A) |-> [j \in 1..i |-> (IF i = j THEN 1 ELSE c.L[i][j]) * ISqrt(c.d[j]) * Pow2(SF)]]
                     [] k = "cm" -> [i \in 1..Len(A) |-> [j \in 1..i |-> (IF i = j THEN 1 ELSE c.L[i][j]) * c.d[j] * Pow2(SF)]]
                     [] k \in {"id", "is", "io", "iz"} -> [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> c.F[i][j] * Pow2(SF)]]
                     [] OTHER -> <<>>

MCInit == SolveInit(8, 4, 0) /\ act = [op |-> "none"]
MCMake == /\ act.op = "none"
          /\ \E c \in Cases :
               /\ IF c[1] \in {"tdd", "tds"}
                  THEN /\ sol' = [sol EXCEPT !["z0"] = [NoSol EXCEPT !.kind = c[1], !.n = c[2].n, !.A = c[2]]] /\ out' = "ok" /\ ret' = <<>> /\ UNCHANGED <<S, SF, LB, tri, rhs>>
                  ELSE Make("z0", c[1], Len(c[2]), 1, 0, c[2], c[3], IF c[3].t \in {"ldl", "lu"} THEN Factor(c[1], c[2], c[3]) ELSE <<>>, 0)
               /\ act' = [op |-> "make", z |-> "z0", kind |-> c[1], n |-> Dim(c[1], c[2]), A |-> c[2], cert |-> c[3], tol |-> 1]
\* right-hand sides and what comes out
App(z, x, i) == IF IsTri(z) THEN TriRow(z.A, [k |-> 1, p |-> x], i, 1)
                ELSE IF IsIlu(z) THEN SumF(LAMBDA j : LUAt(z.cert.F, i, j) * x[j], 1, z.n)
                ELSE SumF(LAMBDA j : z.A[i][j] * x[j], 1, z.n)
Col2(x, i, c) == IF c = 1 THEN x[i] ELSE IF c = 2 THEN 1 - x[i] ELSE x[1]
Block(z, x, k, v(_, _)) == [n |-> z.n, k |-> k, p |-> [i \in 1..(z.n * k) |-> Pow2(S) * v(((i - 1) \div k) + 1, ((i - 1) % k) + 1)], q |-> <<>>, h |-> 0]
Shapes(z) == (IF IsIlu(z) \/ IsGmres(z) THEN {<<"d", 1>>} ELSE {<<"d", 1>>, <<"m", 2>>, <<"v", 1>>, <<"s", 3>>})
MCSolve == /\ act.op = "make" /\ out = "ok"
           /\ \E x \in Vecs(sol["z0"].n, Xs), sh \in Shapes(sol["z0"]), how \in {"solve", "self", "solvem"} :
                LET z == sol["z0"]
                    f == sh[1]
                    X == Block(z, x, sh[2], LAMBDA i, c : Col2(x, i, c))
                    B == Block(z, x, sh[2], LAMBDA i, c : App(z, [j \in 1..z.n |-> Col2(x, j, c)], i))
                    b == f \o "0"
                    y == IF how = "solve" THEN f \o "1" ELSE b
                IN  /\ f \in {"v", "s"} => z.n = 3                  \* the drivers' sized objects
                    /\ how = "solvem" => IsChol(z) \/ IsMod(z)
                    /\ how = "self" => ~(IsChol(z) \/ IsMod(z)) /\ f \in {"d", "m"}
                    /\ Same /\ Ok /\ Solution(z, B, X) /\ UNCHANGED <<tri, sol>>
                    /\ rhs' = [[rhs EXCEPT ![b] = B] EXCEPT ![y] = X]
                    /\ act' = [op |-> IF how = "solvem" THEN how ELSE "solve", z |-> "z0", b |-> b, x |-> y, B |-> B, X |-> X, xs |-> x]
MCNext == MCMake \/ MCSolve
MCSpec == MCInit /\ [][MCNext]_mcvars
Touched == LET R == IF act'.op = "make" THEN {} ELSE {act'.b, act'.x}
               Z == IF out' = "ok" THEN {"z0"} ELSE {}
           IN  [q \in R \cup Z |-> IF q = "z0" THEN [kind |-> sol'[q].kind, F |-> sol'[q].F] ELSE [n |-> rhs'[q].n, k |-> rhs'[q].k, p |-> rhs'[q].p]]
Emit == EMIT => PrintT(ToJson([s |-> [z |-> act], a |-> act', t |-> Touched, o |-> out', v |-> ret']))

-----------------------------------------------------------------------------
\* certificates say what leading minors say
Sylvester == act.op = "make" =>
    LET A == act.A
        minors == IF act.kind \in {"tdd", "tds"} THEN {1} ELSE {Det(Lead(A, m)) : m \in 1..Len(A)}
    IN  CASE act.kind \in {"cd", "ct"} -> (out = "ok" <=> \A x \in minors : x > 0)
          [] act.kind = "cm" -> (out = "ok" <=> 0 \notin minors)
          [] act.kind \in {"gd", "gs"} -> out = "ok"
          [] OTHER -> TRUE
\* an accepted matrix is regular, and the right-hand side has no second solution nearby
Near == {-1, 0, 1}
Unique == act.op = "solve" /\ act.X.k = 1 => \A e \in Vecs(act.X.n, Near) :
    (\E i \in 1..act.X.n : e[i] # 0) => ~Solution(sol["z0"], act.B, [act.X EXCEPT !.p = [i \in 1..act.X.n |-> @[i] + Pow2(S) * e[i]]])
=============================================================================
