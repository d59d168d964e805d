----------------------------- MODULE MC_Sparse -----------------------------
(* Exhaustive small instance of Sparse: every pattern of entries in a small *)
(* grid, in every register, and every call of Ops. The laws say that the    *)
(* sparse operations are the dense ones.                                    *)
EXTENDS Sparse, SequencesExt, FiniteSetsExt, Json

CONSTANTS GR, GC, Ops, MaxLoad, VLens, Fams, Vary, EMIT      \* registers outside Vary start with all of Grid stored

VARIABLE act
mcvars == <<vars, act>>

Idx(r) == CHOOSE k \in 0..9 : \E q \in {"c", "s", "v"} : r = q \o ToString(k)
Grid == (0..(GR - 1)) \X (0..(GC - 1))
\* values: small, with zeros and with cancellations between registers (family 2: entries of c1 are minus those of c0)
Value(r, f, i, j) == IF f = 2 THEN (IF Idx(r) = 1 THEN -1 ELSE 1) * (i + 2 * j + 1)
                     ELSE ((i * 3 + j * 5 + i * j + Idx(r) * 4 + f * 2) % 6) - 2
Lex(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Ordered(P) == SetToSortSeq(P, Lex)
CooOf(r, f, P) == LET s == Ordered(P) IN [v |-> [k \in 1..Len(s) |-> Value(r, f, s[k][1], s[k][2])], r |-> [k \in 1..Len(s) |-> s[k][1]], c |-> [k \in 1..Len(s) |-> s[k][2]]]
CsrOfCoo(A) == IF A.v = <<>> THEN [v |-> <<>>, r |-> <<0>>, c |-> <<>>]
               ELSE [v |-> A.v, c |-> A.c, r |-> [i \in 1..(CooRows(A) + 1) |-> Cardinality({k \in 1..Nnz(A) : A.r[k] < i - 1})]]
Patterns(r) == IF r \in Vary THEN SUBSET Grid ELSE {Grid}
Options(r) == CASE r \in Coo -> {CooOf(r, f, P) : f \in Fams, P \in Patterns(r)}
                [] r \in Csr -> {CsrOfCoo(CooOf(r, f, P)) : f \in Fams, P \in Patterns(r)}
                [] OTHER -> {[k \in 1..n |-> ((k * 3 + Idx(r) * 5) % 7) - 2] : n \in VLens}
RECURSIVE Assign(_)
Assign(S) == IF S = {} THEN {<<>>}
             ELSE LET r == CHOOSE x \in S : TRUE IN {(r :> c) @@ g : c \in Options(r), g \in Assign(S \ {r})}
MCInit == E = 0 /\ full = 8 /\ out = "ok" /\ ret = <<>> /\ act = [op |-> "none"] /\ reg \in Assign(Reg)

\* the sum as a canonical matrix
SumOf(A, s, B) == LET P == {<<A.r[k], A.c[k]>> : k \in 1..Nnz(A)} \cup {<<B.r[k], B.c[k]>> : k \in 1..Nnz(B)}
                      o == Ordered(P)
                  IN  [v |-> [k \in 1..Len(o) |-> CooEl(A, o[k][1], o[k][2]) + s * CooEl(B, o[k][1], o[k][2])],
                       r |-> [k \in 1..Len(o) |-> o[k][1]], c |-> [k \in 1..Len(o) |-> o[k][2]]]
\* every ordering of at most MaxLoad distinct coordinates
Orders == UNION {{s \in [1..n -> Grid] : \A a, b \in 1..n : s[a] = s[b] => a = b} : n \in 0..MaxLoad}

Does(op, A, rec) == op \in Ops /\ A /\ act' = rec
Alphas == {-2, 0, 3}
Next3(r, a, b) ==
    \/ {r, a, b} \subseteq Coo /\
       (\/ Does("add", Add(r, a, b, SumOf(reg[a], 1, reg[b])), [op |-> "add", r |-> r, a |-> a, b |-> b])
        \/ Does("sub", Sub(r, a, b, SumOf(reg[a], -1, reg[b])), [op |-> "sub", r |-> r, a |-> a, b |-> b]))
    \/ r \in VecR /\ a \in Csr /\ b \in VecR /\
       (\/ \E al, be \in Alphas : Does("mulv", MulV(r, al, a, b, be), [op |-> "mulv", y |-> r, al |-> al, a |-> a, x |-> b, be |-> be])
        \/ Does("opmulv", OpMulV(r, a, b), [op |-> "opmulv", y |-> r, a |-> a, x |-> b]))
Next2(r, a) ==
    \/ SameType(r, a) /\ r \in MatR /\
       (\/ \E op \in {"copy", "assign"} : Does(op, Copy(r, a), [op |-> op, r |-> r, a |-> a])
        \/ r # a /\ Does("move", Move(r, a), [op |-> "move", r |-> r, a |-> a])
        \/ Does("neg", NegS(r, a), [op |-> "neg", r |-> r, a |-> a])
        \/ \E al \in Alphas : Does("muls", MulS(r, al, a), [op |-> "muls", r |-> r, al |-> al, a |-> a]))
    \/ {r, a} \subseteq Coo /\ Does("addas", AddAs(r, a, SumOf(reg[r], 1, reg[a])), [op |-> "addas", r |-> r, a |-> a])
    \/ r \in Csr /\ a \in Coo /\ \E k \in {"copy", "tmp"} : Does("conv", Conv(r, a, CsrOfCoo(reg[a])), [op |-> "conv", r |-> r, a |-> a, kind |-> k])
Next1(r) ==
    /\ r \in MatR
    /\ \/ \E al \in Alphas : Does("scale", ScaleS(r, al), [op |-> "scale", r |-> r, al |-> al])
       \/ \E k \in 0..(GR * GC) : \/ Does("scalee", ScaleE(r, k), [op |-> "scalee", r |-> r, k |-> k])
                                  \/ Does("poke", Poke(r, k, 9), [op |-> "poke", r |-> r, k |-> k, x |-> 9])
       \/ \E i \in 0..GR, j \in 0..GC : \/ Does("get", Get(r, i, j), [op |-> "get", r |-> r, i |-> i, j |-> j])
                                        \/ Does("set", Set(r, i, j, 9), [op |-> "set", r |-> r, i |-> i, j |-> j, x |-> 9])
       \/ Does("clear", Clear(r), [op |-> "clear", r |-> r])
       \/ \E n \in 0..3 : Does("unit", Unit(r, n), [op |-> "unit", r |-> r, n |-> n])
       \/ r \in Coo /\ \E s \in Orders, kind \in {"copy", "move"} :
            LET n == Len(s)
                v == [k \in 1..n |-> 10 * s[k][1] + s[k][2] - 1]
                rows == [k \in 1..n |-> s[k][1]]
                cols == [k \in 1..n |-> s[k][2]]
                P == {s[k] : k \in 1..n}
                o == Ordered(P)
                X == [v |-> [k \in 1..n |-> 10 * o[k][1] + o[k][2] - 1], r |-> [k \in 1..n |-> o[k][1]], c |-> [k \in 1..n |-> o[k][2]]]
            IN  Does("coo", LoadCoo(r, v, rows, cols, X), [op |-> "coo", r |-> r, kind |-> kind, v |-> v, rows |-> rows, cols |-> cols])
       \/ r \in Coo /\ \E kv, kr, kc \in 0..2 : (kv # kr \/ kv # kc) /\
            LET v == [k \in 1..kv |-> k]
                rows == [k \in 1..kr |-> k]
                cols == [k \in 1..kc |-> k]
            IN  Does("coo", LoadCoo(r, v, rows, cols, NoMat), [op |-> "coo", r |-> r, kind |-> "copy", v |-> v, rows |-> rows, cols |-> cols])
MCNext == /\ act.op = "none"
          /\ \E r \in Reg : Next1(r) \/ \E a \in Reg : Next2(r, a) \/ \E b \in Reg : Next3(r, a, b)
MCSpec == MCInit /\ [][MCNext]_mcvars
\* what a register shows of itself, as the driver projects it
Shown(r, X) == IF r \in VecR THEN X
               ELSE [v |-> X.v, r |-> X.r, c |-> X.c, nnz |-> Nnz(X), nr |-> Rows(r, X), nc |-> Cols(r, X),
                     d |-> [i \in 1..(Rows(r, X) + (IF r \in Coo THEN 1 ELSE 0)) |-> [j \in 1..(Cols(r, X) + 1) |-> El(r, X, i - 1, j - 1)]],
                     a |-> [i \in 1..(Rows(r, X) + (IF r \in Coo THEN 1 ELSE 0)) |-> [j \in 1..(Cols(r, X) + 1) |-> IF Pos(r, X, i - 1, j - 1) = 0 THEN 0 ELSE 1]]]
Emit == EMIT => PrintT(ToJson([s |-> [r \in Reg |-> Shown(r, reg[r])], a |-> act', t |-> [r \in Reg |-> Shown(r, reg'[r])], o |-> out', v |-> ret']))

------------------------------------------------------------------------------
Dest(x) == CASE x.op \in {"get", "none"} -> {} [] x.op = "move" -> {x.r, x.a} [] x.op \in {"mulv", "opmulv"} -> {x.y} [] OTHER -> {x.r}
Frame == [][\A r \in Reg : reg'[r] # reg[r] => r \in Dest(act')]_mcvars
Rejected == [][out' # "ok" => reg' = reg]_mcvars
\* a write changes the element it names and no other, and never the pattern
OneElement == [][act'.op = "set" => LET r == act'.r IN
    /\ \A i \in 0..GR, j \in 0..GC : El(r, reg'[r], i, j) = IF out' = "ok" /\ i = act'.i /\ j = act'.j THEN act'.x ELSE El(r, reg[r], i, j)
    /\ reg'[r].r = reg[r].r /\ reg'[r].c = reg[r].c]_mcvars
\* the sparse operations are the dense ones
Everywhere(P(_, _)) == \A i \in 0..GR, j \in 0..GC : P(i, j)
SumsAreDense == [][
    /\ act'.op = "add" => Everywhere(LAMBDA i, j : CooEl(reg'[act'.r], i, j) = CooEl(reg[act'.a], i, j) + CooEl(reg[act'.b], i, j))
    /\ act'.op = "sub" => Everywhere(LAMBDA i, j : CooEl(reg'[act'.r], i, j) = CooEl(reg[act'.a], i, j) - CooEl(reg[act'.b], i, j))
    /\ act'.op = "addas" => Everywhere(LAMBDA i, j : CooEl(reg'[act'.r], i, j) = CooEl(reg[act'.r], i, j) + CooEl(reg[act'.a], i, j))
    /\ act'.op = "conv" => Everywhere(LAMBDA i, j : CsrEl(reg'[act'.r], i, j) = CooEl(reg[act'.a], i, j))
    /\ act'.op \in {"neg", "muls"} => Everywhere(LAMBDA i, j : El(act'.r, reg'[act'.r], i, j) = (IF act'.op = "neg" THEN -1 ELSE act'.al) * El(act'.a, reg[act'.a], i, j))
    /\ act'.op = "opmulv" => \A i \in 1..Len(reg'[act'.y]) : reg'[act'.y][i] = SumF(LAMBDA j : CsrEl(reg[act'.a], i - 1, j - 1) * reg[act'.x][j], 1, Len(reg[act'.x]))]_mcvars
\* the sum as constructed here is the only matrix the relation admits: same size, so no entry is missing or doubled
SumSize == \A a, b \in Coo : Nnz(SumOf(reg[a], 1, reg[b])) = Cardinality(Triplets(reg[a].r, reg[a].r, reg[a].c) \cup Triplets(reg[b].r, reg[b].r, reg[b].c))
=============================================================================
