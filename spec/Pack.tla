-------------------------------- MODULE Pack --------------------------------
(* The packed matrices of lalib: tri-diagonal (dynamic and sized),           *)
(* Hessenberg, upper triangular, lower triangular and symmetric (dynamic and *)
(* sized). A register holds the size n and the stored elements p; what a     *)
(* user reads at (i,j) (from 0) is Elem, and where a user may write is InBand.*)
EXTENDS Num, TLC

CONSTANTS DTri, STri, Hes, Upp, DLow, SLow, DHer, SHer          \* register names by type

VARIABLES N, E, reg, out, ret        \* N: size of the sized registers
vars == <<N, E, reg, out, ret>>

Tri == DTri \cup STri
Low == DLow \cup SLow
Her == DHer \cup SHer
Sized == STri \cup SLow \cup SHer
Reg == Tri \cup Hes \cup Upp \cup Low \cup Her
SameType(r, s) == \E S \in {DTri, STri, Hes, Upp, DLow, SLow, DHer, SHer} : {r, s} \subseteq S

------------------------------------------------------------------------------
(* packed indices (from 0) and sizes *)
HesAt(i, j) == (j * (j + 1)) \div 2 + j + i
UppAt(i, j) == (j * (j + 1)) \div 2 + i
LowAt(i, j) == (i * (i + 1)) \div 2 + j
HesLen(n) == IF n = 0 THEN 0 ELSE (n * (n + 3)) \div 2 - 1
UppLen(n) == (n * (n + 1)) \div 2
\* the n with Len(n) = k, or -1
SizeOf(len(_), k) == IF \E n \in 0..(k + 1) : len(n) = k THEN CHOOSE n \in 0..(k + 1) : len(n) = k ELSE -1

InBand(r, i, j) == CASE r \in Tri -> Abs(i - j) <= 1 [] r \in Hes -> i <= j + 1 [] r \in Upp -> i <= j
                     [] r \in Low -> i >= j [] OTHER -> TRUE
Elem(r, X, i, j) ==
    CASE r \in Tri -> IF i = j THEN X.p[2][i + 1] ELSE IF j = i + 1 THEN X.p[3][i + 1] ELSE IF i = j + 1 THEN X.p[1][j + 1] ELSE NZero
      [] r \in Hes -> IF i <= j + 1 THEN X.p[HesAt(i, j) + 1] ELSE NZero
      [] r \in Upp -> IF i <= j THEN X.p[UppAt(i, j) + 1] ELSE NZero
      [] r \in Low -> IF i >= j THEN X.p[LowAt(i, j) + 1] ELSE NZero
      [] r \in Her -> IF i >= j THEN X.p[LowAt(i, j) + 1] ELSE X.p[LowAt(j, i) + 1]
Dense(r, X) == [i \in 1..X.n |-> [j \in 1..X.n |-> Elem(r, X, i - 1, j - 1)]]
\* X with x written at (i,j)
Written(r, X, i, j, x) ==
    CASE r \in Tri -> IF i = j THEN [X EXCEPT !.p[2][i + 1] = x] ELSE IF j = i + 1 THEN [X EXCEPT !.p[3][i + 1] = x] ELSE [X EXCEPT !.p[1][j + 1] = x]
      [] r \in Hes -> [X EXCEPT !.p[HesAt(i, j) + 1] = x]
      [] r \in Upp -> [X EXCEPT !.p[UppAt(i, j) + 1] = x]
      [] r \in Low \cup Her -> [X EXCEPT !.p[LowAt(MaxOf(i, j), MinOf(i, j)) + 1] = x]

------------------------------------------------------------------------------
(* "rejected" is how the driver logs any exception where the property leaves the type open *)
Becomes(r, v) == reg' = [reg EXCEPT ![r] = v] /\ out' = "ok" /\ ret' = <<>>
Yields(s) == UNCHANGED reg /\ out' = "ok" /\ ret' = s
Rejects(S) == UNCHANGED reg /\ out' \in S /\ ret' = <<>>
Same == UNCHANGED <<N, E>>
Empty(r) == CASE r \in DTri -> [n |-> 0, p |-> <<<<>>, <<>>, <<>>>>]
              [] r \in STri -> [n |-> N, p |-> <<[i \in 1..(N - 1) |-> NZero], [i \in 1..N |-> NZero], [i \in 1..(N - 1) |-> NZero]>>]
              [] r \in SLow \cup SHer -> [n |-> N, p |-> [i \in 1..UppLen(N) |-> NZero]]
              [] OTHER -> [n |-> 0, p |-> <<>>]

Init0 == Same /\ UNCHANGED reg /\ out' = "ok" /\ ret' = <<>>
LoadT(r, n, p) == /\ Same /\ r \in Tri /\ (r \in STri => n = N) /\ Len(p[2]) = n /\ Len(p[1]) = MaxOf(n - 1, 0) /\ Len(p[3]) = MaxOf(n - 1, 0)
                  /\ Becomes(r, [n |-> n, p |-> p])
\* construction from packed elements; Hessenberg and upper matrices find their size in the number of elements
LoadP(r, n, p) ==
    /\ Same /\ r \in Hes \cup Upp \cup Low \cup Her
    /\ IF r \in Low \cup Her THEN Len(p) = UppLen(n) /\ (r \in Sized => n = N) /\ Becomes(r, [n |-> n, p |-> p])
       ELSE LET s == IF r \in Hes THEN SizeOf(HesLen, Len(p)) ELSE SizeOf(UppLen, Len(p))
            IN  IF s = -1 THEN Rejects({"invalid_argument"}) ELSE Becomes(r, [n |-> s, p |-> p])
\* how large a matrix of k elements is, by the closed formula (equal to SizeOf: MC_Pack!Roots)
Build(w, k) ==
    /\ Same
    /\ LET d == IF w = "h" THEN 17 + 8 * k ELSE 1 + 8 * k
           q == ISqrt(d)
           n == IF k = 0 THEN 0 ELSE IF w = "h" THEN (q - 3) \div 2 ELSE (q - 1) \div 2
       IN  IF k = 0 \/ q * q = d THEN Yields(<<n>>) ELSE Rejects({"invalid_argument"})
MakeEmpty(r) == Same /\ r \in Hes \cup Upp /\ Becomes(r, Empty(r))
CopyP(r, a) == Same /\ SameType(r, a) /\ Becomes(r, reg[a])
\* a moved-from register is reset by the driver
MoveP(r, a) == /\ Same /\ SameType(r, a) /\ reg' = [[reg EXCEPT ![a] = Empty(a)] EXCEPT ![r] = reg[a]] /\ out' = "ok" /\ ret' = <<>>
Set(r, i, j, x) == /\ Same /\ i \in 0..(reg[r].n - 1) /\ j \in 0..(reg[r].n - 1)
                   /\ IF InBand(r, i, j) THEN Becomes(r, Written(r, reg[r], i, j, x))
                      ELSE Rejects({IF r \in Low THEN "invalid_argument" ELSE "rejected"})
Poke(r, w, i, x) == /\ Same
                    /\ IF r \in Tri THEN w \in 0..2 /\ i \in 0..(Len(reg[r].p[w + 1]) - 1) /\ Becomes(r, [reg[r] EXCEPT !.p[w + 1][i + 1] = x])
                       ELSE i \in 0..(Len(reg[r].p) - 1) /\ Becomes(r, [reg[r] EXCEPT !.p[i + 1] = x])
Ext0(r) == /\ Same /\ r \in Hes \cup Upp
           /\ LET X == reg[r]
                  k == IF r \in Upp THEN X.n + 1 ELSE IF X.n = 0 THEN 1 ELSE X.n + 2
              IN  Becomes(r, [n |-> X.n + 1, p |-> X.p \o [i \in 1..k |-> NZero]])
ExtW(r, p) == /\ Same /\ r \in Hes \cup Upp
              /\ IF Len(p) # (IF r \in Upp THEN reg[r].n + 1 ELSE reg[r].n + 2) THEN Rejects({"invalid_argument"})
                 ELSE Becomes(r, [n |-> reg[r].n + 1, p |-> reg[r].p \o p])
GetCol(r, j) == /\ Same /\ r \in Hes /\ j \in 0..(reg[r].n - 1)
                /\ LET o == HesAt(0, j) IN Yields(SubSeq(reg[r].p, o + 1, MinOf(o + j + 2, Len(reg[r].p))))
IntoLow(r, a) == /\ Same /\ ((r \in DLow /\ a \in DHer) \/ (r \in SLow /\ a \in SHer))
                 /\ reg' = [reg EXCEPT ![r] = reg[a], ![a] = Empty(a)] /\ out' = "ok" /\ ret' = <<>>

(* back substitution: s is the solution times 2^k; k = 0 exactly, k > 0 rounded to the nearest integer *)
UMulAt(U, i, x) == NSumF(LAMBDA j : NMul(U.p[UppAt(i - 1, j - 1) + 1], x[j]), i, U.n)
UAbsAt(U, i) == SumF(LAMBDA j : NAbs(U.p[UppAt(i - 1, j - 1) + 1]), i, U.n)
Regular(U) == \A i \in 1..U.n : U.p[UppAt(i - 1, i - 1) + 1] # NZero
BackSub(r, k, y, s) ==
    /\ Same /\ r \in Upp
    /\ LET U == reg[r] IN
       IF Len(y) # U.n THEN UNCHANGED reg /\ out' = "invalid_argument" /\ ret' = [i \in 1..Len(y) |-> NInt(Pow2(k), y[i])] /\ s = ret'
       ELSE /\ Regular(U) /\ Len(s) = U.n
            /\ \A i \in 1..U.n : NFin(s[i])
            /\ \A i \in 1..U.n : IF k = 0 THEN UMulAt(U, i, s) = y[i]
                                 ELSE NAbs(NSub(UMulAt(U, i, s), NInt(Pow2(k), y[i]))) <= UAbsAt(U, i)
            /\ Yields(s)

Start(n, e) == /\ N' = n /\ E' = e /\ out' = "ok" /\ ret' = <<>>
               /\ reg' = [r \in Reg |-> CASE r \in DTri -> [n |-> 0, p |-> <<<<>>, <<>>, <<>>>>]
                             [] r \in STri -> [n |-> n, p |-> <<[i \in 1..(n - 1) |-> NZero], [i \in 1..n |-> NZero], [i \in 1..(n - 1) |-> NZero]>>]
                             [] r \in SLow \cup SHer -> [n |-> n, p |-> [i \in 1..UppLen(n) |-> NZero]]
                             [] OTHER -> [n |-> 0, p |-> <<>>]]
PackInit(n, e) == N = n /\ E = e /\ reg = [r \in Reg |-> Empty(r)] /\ out = "ok" /\ ret = <<>>

(* packing keeps what is needed for every in-band element to be stored *)
TypeOK == \A r \in Reg : LET X == reg[r] IN
    /\ X.n >= 0 /\ (r \in Sized => X.n = N)
    /\ r \in Tri => Len(X.p) = 3 /\ Len(X.p[2]) = X.n /\ Len(X.p[1]) = MaxOf(X.n - 1, 0) /\ Len(X.p[3]) = MaxOf(X.n - 1, 0)
    /\ r \in Hes => Len(X.p) \in {HesLen(X.n), IF X.n = 0 THEN 0 ELSE HesLen(X.n) + 1}
    /\ r \in Upp \cup Low \cup Her => Len(X.p) = UppLen(X.n)
=============================================================================
