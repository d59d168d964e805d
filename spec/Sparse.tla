------------------------------- MODULE Sparse -------------------------------
(* The sparse matrices of lalib. A COO register is [v, r, c]: values, row    *)
(* and column of every entry, in canonical order. A CSR register is          *)
(* [v, r, c] with r the row pointers. A vector register is a sequence.       *)
(* Coordinates count from 0. Values are integers times 2^E.                  *)
EXTENDS Num, TLC

CONSTANTS Coo, Csr, VecR            \* register names

VARIABLES E, full, reg, out, ret    \* full: matrices up to full x full show every element
vars == <<E, full, reg, out, ret>>
MatR == Coo \cup Csr
Reg == MatR \cup VecR
SameType(r, s) == \E S \in {Coo, Csr, VecR} : {r, s} \subseteq S

Nnz(X) == Len(X.v)
Before(X, k, i, j) == X.r[k] < i \/ (X.r[k] = i /\ X.c[k] < j)         \* entry k lies before (i,j)
Canonical(X) == /\ Len(X.r) = Len(X.v) /\ Len(X.c) = Len(X.v)
                /\ \A k \in 1..(Len(X.v) - 1) : Before(X, k, X.r[k + 1], X.c[k + 1])
\* position of (i,j) in a canonical COO, 0 when it is not stored
RECURSIVE FindIn(_, _, _, _, _)
FindIn(X, i, j, lo, hi) == IF lo > hi THEN 0
                           ELSE LET m == (lo + hi) \div 2
                                IN  IF X.r[m] = i /\ X.c[m] = j THEN m
                                    ELSE IF Before(X, m, i, j) THEN FindIn(X, i, j, m + 1, hi) ELSE FindIn(X, i, j, lo, m - 1)
Find(X, i, j) == FindIn(X, i, j, 1, Nnz(X))
Max0(s) == MaxF(LAMBDA k : s[k] + 1, 1, Len(s))
CooRows(X) == Max0(X.r)
CooCols(X) == Max0(X.c)
CooEl(X, i, j) == LET k == Find(X, i, j) IN IF k = 0 THEN NZero ELSE X.v[k]

CsrRows(X) == IF X.r = <<>> THEN 0 ELSE Len(X.r) - 1
Valid(X) == /\ Len(X.c) = Len(X.v)
            /\ IF X.r = <<>> THEN X.v = <<>>
               ELSE /\ X.r[1] = 0 /\ X.r[Len(X.r)] = Len(X.v)
                    /\ \A k \in 1..(Len(X.r) - 1) : X.r[k] <= X.r[k + 1]
                    /\ \A i \in 1..(Len(X.r) - 1) : \A k, h \in (X.r[i] + 1)..X.r[i + 1] : X.c[k] = X.c[h] => k = h
RowOf(X, i) == IF i >= 0 /\ i < CsrRows(X) THEN (X.r[i + 1] + 1)..X.r[i + 2] ELSE {}
FindC(X, i, j) == LET S == {k \in RowOf(X, i) : X.c[k] = j} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
CsrEl(X, i, j) == LET k == FindC(X, i, j) IN IF k = 0 THEN NZero ELSE X.v[k]

Rows(r, X) == IF r \in Coo THEN CooRows(X) ELSE CsrRows(X)
Cols(r, X) == CooCols(X)
Pos(r, X, i, j) == IF r \in Coo THEN Find(X, i, j) ELSE FindC(X, i, j)
El(r, X, i, j) == IF r \in Coo THEN CooEl(X, i, j) ELSE CsrEl(X, i, j)

------------------------------------------------------------------------------
Becomes(r, v) == reg' = [reg EXCEPT ![r] = v] /\ out' = "ok" /\ ret' = <<>>
Yields(s) == UNCHANGED reg /\ out' = "ok" /\ ret' = s
Rejects(S) == UNCHANGED reg /\ out' \in S /\ ret' = <<>>
Same == UNCHANGED <<E, full>>
NoMat == [v |-> <<>>, r |-> <<>>, c |-> <<>>]
Triplets(v, r, c) == {<<r[k], c[k], v[k]>> : k \in 1..Len(v)}

(* S01 *)
\* X is what the triplets build
Builds(v, r, c, X) == Canonical(X) /\ Nnz(X) = Len(v) /\ Triplets(X.v, X.r, X.c) = Triplets(v, r, c)
Distinct(r, c) == Cardinality({<<r[k], c[k]>> : k \in 1..Len(r)}) = Len(r)
LoadCoo(r, v, rows, cols, X) ==
    /\ Same /\ r \in Coo
    /\ IF Len(v) # Len(rows) \/ Len(v) # Len(cols) THEN Rejects({"runtime_error"})
       ELSE Distinct(rows, cols) /\ Builds(v, rows, cols, X) /\ Becomes(r, X)
UnitOf(r, n) == IF r \in Coo THEN [v |-> [k \in 1..n |-> NOne], r |-> [k \in 1..n |-> k - 1], c |-> [k \in 1..n |-> k - 1]]
                ELSE [v |-> [k \in 1..n |-> NOne], r |-> [k \in 1..(n + 1) |-> k - 1], c |-> [k \in 1..n |-> k - 1]]
Unit(r, n) == Same /\ E = 0 /\ Becomes(r, UnitOf(r, n))
Clear(r) == Same /\ r \in MatR /\ Becomes(r, NoMat)
Vec(r, p) == Same /\ r \in VecR /\ Becomes(r, p)
Copy(r, a) == Same /\ SameType(r, a) /\ Becomes(r, reg[a])
Move(r, a) == Same /\ SameType(r, a) /\ reg' = [[reg EXCEPT ![a] = NoMat] EXCEPT ![r] = reg[a]] /\ out' = "ok" /\ ret' = <<>>
Get(r, i, j) == /\ Same /\ r \in MatR /\ (r \in Csr => i < CsrRows(reg[r]))
                /\ LET x == El(r, reg[r], i, j) IN Yields(<<x, x>>)
Set(r, i, j, x) == /\ Same /\ r \in MatR
                   /\ LET k == Pos(r, reg[r], i, j)
                      IN  IF k = 0 THEN Rejects({"out_of_range"}) ELSE Becomes(r, [reg[r] EXCEPT !.v[k] = x])
Poke(r, k, x) == Same /\ r \in MatR /\ k \in 0..(Nnz(reg[r]) - 1) /\ Becomes(r, [reg[r] EXCEPT !.v[k + 1] = x])
Reserve(r) == Same /\ r \in MatR /\ Yields(<<>>)

(* S02: X = A + s B, over the union of the patterns *)
IsSum(A, s, B, X) ==
    /\ Canonical(X)
    /\ \A k \in 1..Nnz(X) : LET a == Find(A, X.r[k], X.c[k])
                                b == Find(B, X.r[k], X.c[k])
                            IN  /\ {a, b} # {0}
                                /\ X.v[k] = NAdd(IF a = 0 THEN NZero ELSE A.v[a], IF b = 0 THEN NZero ELSE NInt(s, B.v[b]))
    /\ \A k \in 1..Nnz(A) : Find(X, A.r[k], A.c[k]) # 0
    /\ \A k \in 1..Nnz(B) : Find(X, B.r[k], B.c[k]) # 0
AddAs(r, a, X) == Same /\ {r, a} \subseteq Coo /\ IsSum(reg[r], 1, reg[a], X) /\ Becomes(r, X)
Add(r, a, b, X) == Same /\ {r, a, b} \subseteq Coo /\ IsSum(reg[a], 1, reg[b], X) /\ Becomes(r, X)
Sub(r, a, b, X) == Same /\ ~CPLX /\ {r, a, b} \subseteq Coo /\ IsSum(reg[a], -1, reg[b], X) /\ Becomes(r, X)

(* S03 *)
LoadCsr(r, v, rows, cols) ==
    /\ Same /\ r \in Csr
    /\ IF Len(v) # Len(cols) THEN Rejects({"runtime_error"})
       ELSE Valid([v |-> v, r |-> rows, c |-> cols]) /\ Becomes(r, [v |-> v, r |-> rows, c |-> cols])
\* X has the entries of the COO matrix A, in its order
IsCsrOf(A, X) == /\ X.v = A.v /\ X.c = A.c
                 /\ IF A.v = <<>> THEN X.r \in {<<>>, <<0>>}
                    ELSE /\ Len(X.r) = CooRows(A) + 1 /\ X.r[1] = 0 /\ X.r[Len(X.r)] = Nnz(A)
                         /\ \A i \in 1..CooRows(A) : X.r[i] <= X.r[i + 1]
                         /\ \A i \in 1..CooRows(A) : \A k \in (X.r[i] + 1)..X.r[i + 1] : A.r[k] = i - 1
Conv(r, a, X) == Same /\ r \in Csr /\ a \in Coo /\ IsCsrOf(reg[a], X) /\ Becomes(r, X)

(* S04 *)
Scaled(al, X) == [X EXCEPT !.v = [k \in 1..Nnz(X) |-> NMul(al, X.v[k])]]
ScaleS(r, al) == Same /\ r \in MatR /\ Becomes(r, Scaled(al, reg[r]))
ScaleE(r, k) == Same /\ E = 0 /\ r \in MatR /\ k \in 0..(Nnz(reg[r]) - 1) /\ Becomes(r, Scaled(reg[r].v[k + 1], reg[r]))
MulS(r, al, a) == Same /\ r \in MatR /\ SameType(r, a) /\ Becomes(r, Scaled(al, reg[a]))
NegS(r, a) == Same /\ ~CPLX /\ r \in MatR /\ SameType(r, a) /\ Becomes(r, Scaled(NNeg(NOne), reg[a]))
RowTimes(X, i, x) == NSumF(LAMBDA k : NMul(X.v[k], x[X.c[k] + 1]), X.r[i] + 1, X.r[i + 1])
MulV(y, al, a, x, be) ==
    LET A == reg[a] IN
    /\ Same /\ a \in Csr /\ {x, y} \subseteq VecR /\ Len(reg[y]) = CsrRows(A) /\ Len(reg[x]) >= Cols(a, A)
    /\ Becomes(y, [i \in 1..CsrRows(A) |-> NAdd(NMul(al, RowTimes(A, i, reg[x])), NMul(be, reg[y][i]))])
OpMulV(y, a, x) ==
    LET A == reg[a] IN
    /\ Same /\ E = 0 /\ a \in Csr /\ {x, y} \subseteq VecR /\ Len(reg[x]) >= Cols(a, A)
    /\ Becomes(y, [i \in 1..CsrRows(A) |-> RowTimes(A, i, reg[x])])

------------------------------------------------------------------------------
SparseInit(e, f) == E = e /\ full = f /\ reg = [r \in Reg |-> IF r \in VecR THEN <<>> ELSE NoMat] /\ out = "ok" /\ ret = <<>>
Start(e, f) == E' = e /\ full' = f /\ reg' = [r \in Reg |-> IF r \in VecR THEN <<>> ELSE NoMat] /\ out' = "ok" /\ ret' = <<>>
TypeOK == /\ \A r \in Coo : Canonical(reg[r])
          /\ \A r \in Csr : Valid(reg[r])
=============================================================================
