------------------------------- MODULE MC_Mat -------------------------------
(* Exhaustive small instance of Mat: every initial assignment of shapes and  *)
(* contents from a small family, every call of Ops from each of them. TLC    *)
(* checks the laws and frame conditions; the printed transitions are         *)
(* replayed on the real code.                                                *)
EXTENDS Mat, Json

CONSTANTS Dims, MaxDim, Fams, Ops, Alphas, EMIT, E0, Entries

VARIABLE act
mcvars == <<vars, act>>
View == <<dim, per, E, reg, out, ret>>

AlphasA == {-2, 0, 1}
AlphasB == {0, 1, 3}
AlphasC == {2}
EntriesA == {-1, 2}
EntriesB == -2..2
EMinus2 == -2
Dims222 == {<<2, 2, 2>>}
Dims322 == {<<3, 2, 2>>}
Dims223 == {<<2, 2, 3>>}
Dims234 == {<<2, 3, 4>>}
Idx(r) == CHOOSE k \in 0..9 : \E q \in {"m", "a", "b", "c", "q", "v", "x", "y"} : r = q \o ToString(k)
\* family f, register r: small integers without symmetries; family 9: all matrices over Entries
Content(r, f, i, j) == ((i * 3 + j * 5 + i * j + Idx(r) * 7 + f * 4) % 5) - 2
MatsOf(r, n, m) == IF Fams = 9 /\ r # "q1" THEN {[n |-> n, m |-> m, p |-> p] : p \in [1..n -> [1..m -> Entries]]}
                   ELSE {Mx(n, m, LAMBDA i, j : Content(r, f, i, j)) : f \in 1..(IF Fams = 9 THEN 1 ELSE Fams)}
VecsOf(r, n) == {Vx(n, LAMBDA i : Content(r, f, i, n)) : f \in 1..(IF Fams = 9 THEN 1 ELSE Fams)}
Choices(r) == IF r \in MatReg
              THEN IF Static(r) THEN MatsOf(r, ShapeOf(r)[1], ShapeOf(r)[2])
                   ELSE UNION {MatsOf(r, n, m) : n \in 1..MaxDim, m \in 1..MaxDim}
              ELSE IF Static(r) THEN VecsOf(r, ShapeOf(r)[1]) ELSE UNION {VecsOf(r, n) : n \in 1..MaxDim}

\* pick the registers' values one after the other
RECURSIVE Assign(_)
Assign(S) == IF S = {} THEN {<<>>}
             ELSE LET r == CHOOSE x \in S : TRUE IN {(r :> c) @@ g : c \in Choices(r), g \in Assign(S \ {r})}

MCInit == /\ dim \in Dims /\ per = 8 /\ E = E0 /\ out = "ok" /\ ret = <<>> /\ act = [op |-> "none"]
          /\ reg \in Assign(Reg)

Does(op, A, rec) == op \in Ops /\ A /\ act' = rec
\* the exact inverse, when it has integer representation
Num2(A) == LET d == Det2(A) IN [i \in 1..2 |-> [j \in 1..2 |-> NInt(Pow2(-2 * E), Adj2(A).p[i][j])]]
HasInv(A) == /\ A.n = 2 /\ A.m = 2 /\ Det2(A) # 0
             /\ \A i, j \in 1..2 : Num2(A)[i][j] % Abs(Det2(A)) = 0
InvOf(A) == [n |-> 2, m |-> 2, p |-> [i \in 1..2 |-> [j \in 1..2 |-> IF Det2(A) > 0 THEN Num2(A)[i][j] \div Det2(A) ELSE -(Num2(A)[i][j] \div (-Det2(A)))]]]

Next3(r, a, b) ==
    \/ {r, a, b} \subseteq MatReg /\
       (\/ Does("addm", AddM(r, a, b), [op |-> "addm", r |-> r, a |-> a, b |-> b])
        \/ Does("subm", SubM(r, a, b), [op |-> "subm", r |-> r, a |-> a, b |-> b])
        \/ Does("opaddm", OpAddM(r, a, b), [op |-> "opaddm", r |-> r, a |-> a, b |-> b])
        \/ Does("opsubm", OpSubM(r, a, b), [op |-> "opsubm", r |-> r, a |-> a, b |-> b])
        \/ Does("opmul", OpMulM(r, a, b), [op |-> "opmul", r |-> r, a |-> a, b |-> b])
        \/ \E al, be \in Alphas : Does("gemm", GemmM(r, al, a, b, be), [op |-> "gemm", r |-> r, al |-> al, a |-> a, b |-> b, be |-> be]))
    \/ r \in VecReg /\ a \in MatReg /\ b \in VecReg /\
       (\/ \E al, be \in Alphas : Does("gemv", GemvM(r, al, a, b, be), [op |-> "gemv", r |-> r, al |-> al, a |-> a, b |-> b, be |-> be])
        \/ Does("opmulv", OpMulV(r, a, b), [op |-> "opmulv", r |-> r, a |-> a, b |-> b]))
Next2(r, a) ==
    /\ {r, a} \subseteq MatReg
    /\ \/ \E op \in {"copym", "assignm"} : Does(op, CopyM(r, a), [op |-> op, r |-> r, a |-> a])
       \/ r # a /\ Does("movem", MoveM(r, a), [op |-> "movem", r |-> r, a |-> a])
       \/ Does("swapm", SwapM(r, a), [op |-> "swapm", r |-> r, a |-> a])
       \/ Does("opnegm", OpNegM(r, a), [op |-> "opnegm", r |-> r, a |-> a])
       \/ \E al \in Alphas : Does("mulsm", MulSM(r, al, a), [op |-> "mulsm", r |-> r, al |-> al, a |-> a])
       \/ /\ {r, a} \subseteq QMat /\ HasInv(reg[a])
          /\ \E k \in {"to", "self", "ret"} : Does("inv", Inv(r, k, a, InvOf(reg[a])), [op |-> "inv", r |-> r, kind |-> k, a |-> a])
Next1(r) ==
    /\ r \in MatReg
    /\ \/ \E al \in Alphas : Does("scalem", ScaleM(r, al), [op |-> "scalem", r |-> r, al |-> al])
       \/ \E i, j \in 0..(MaxDim - 1) :
            \/ Does("scalee", ScaleE(r, i, j), [op |-> "scalee", r |-> r, i |-> i, j |-> j])
            \/ Does("getm", GetM(r, i, j), [op |-> "getm", r |-> r, i |-> i, j |-> j])
            \/ \E via \in {"op", "mut", "data", "iter", "rev"} : Does("setm", SetM(r, i, j, 7), [op |-> "setm", r |-> r, via |-> via, i |-> i, j |-> j, al |-> 7])
       \/ \E n, m \in 0..MaxDim : (Static(r) => <<n, m>> = ShapeOf(r)) /\ Does("fillm", FillM(r, n, m, 5), [op |-> "fillm", r |-> r, n |-> n, m |-> m, al |-> 5])
       \/ \E n \in 0..MaxDim : (Static(r) => <<n, n>> = ShapeOf(r)) /\
            (\/ Does("diags", DiagS(r, n, 6), [op |-> "diags", r |-> r, n |-> n, al |-> 6])
             \/ Does("ident", Identity(r, n), [op |-> "ident", r |-> r, n |-> n])
             \/ Does("diagv", DiagV(r, n, [i \in 1..n |-> i + 2]), [op |-> "diagv", r |-> r, n |-> n, p |-> [i \in 1..n |-> i + 2]]))
       \/ \E n, m \in 1..(MaxDim + 1), kind \in {"vec", "init"} : LET p == [i \in 1..n |-> [j \in 1..m |-> i - 2 * j]] IN
            (Static(r) => <<n, m>> = ShapeOf(r) \/ n * m # ShapeOf(r)[1] * ShapeOf(r)[2]) /\
            Does("loadm", LoadM(r, n, m, p), [op |-> "loadm", r |-> r, kind |-> kind, n |-> n, m |-> m, p |-> p])
MCNext == /\ act.op = "none"
          /\ \E r \in Reg : Next1(r) \/ \E a \in Reg : Next2(r, a) \/ \E b \in Reg : Next3(r, a, b)
MCSpec == MCInit /\ [][MCNext]_mcvars

Emit == EMIT => PrintT(ToJson([s |-> reg, a |-> act', t |-> reg', o |-> out', v |-> ret', d |-> dim]))

------------------------------------------------------------------------------
Dest(x) == CASE x.op \in {"getm", "none"} -> {}
             [] x.op \in {"movem", "swapm"} -> {x.r, x.a}
             [] OTHER -> {x.r}
Frame == [][\A r \in Reg : reg'[r] # reg[r] => r \in Dest(act')]_mcvars
Rejected == [][out' # "ok" => reg' = reg]_mcvars
\* writing an element changes one offset of the row-major storage, i * columns + j
Flat(A) == [k \in 0..(A.n * A.m - 1) |-> A.p[(k \div A.m) + 1][(k % A.m) + 1]]
RowMajor == [][(act'.op = "setm" /\ out' = "ok") =>
                 LET o == Flat(reg[act'.r])
                     w == Flat(reg'[act'.r])
                     k == act'.i * reg[act'.r].m + act'.j
                 IN  w[k] = act'.al /\ \A h \in DOMAIN o : h # k => w[h] = o[h]]_mcvars
\* laws over the registers' contents
Col(x) == [n |-> x.n, m |-> 1, p |-> [i \in 1..Len(x.p) |-> <<x.p[i]>>]]
Laws == act.op = "none" =>
    /\ \A r, s \in MatReg : LET A == reg[r]
                                B == reg[s] IN
        /\ SameShape(A, B) => /\ MAdd(A, B) = MAdd(B, A) /\ MSub(MAdd(A, B), B) = A
                              /\ MScale(2, A) = MAdd(A, A)
        /\ A.m = B.n => /\ Transposed(MMul(A, B)) = MMul(Transposed(B), Transposed(A))
                        /\ (A.n = 2 /\ A.m = 2 /\ B.m = 2) => Det2(MMul(A, B)) = Det2(A) * Det2(B)
                        /\ \A t \in MatReg : LET C == reg[t] IN
                             /\ B.m = C.n => MMul(MMul(A, B), C) = MMul(A, MMul(B, C))
                             /\ SameShape(B, C) => MMul(A, MAdd(B, C)) = MAdd(MMul(A, B), MMul(A, C))
                             /\ (C.n = A.n /\ C.m = B.m) => \A al, be \in Alphas : Gemm(al, A, B, be, C) = MAdd(MScale(al, MMul(A, B)), MScale(be, C))
        /\ MMul(Ident(A.n), A) = A /\ MMul(A, Ident(A.m)) = A
        /\ HasInv(A) => IsInverse(A, InvOf(A)) /\ (E = 0 => HasInv(InvOf(A)) /\ InvOf(InvOf(A)) = A)
    /\ \A r \in MatReg, x \in VecReg : reg[r].m = reg[x].n => Col(MMulV(reg[r], reg[x])) = MMul(reg[r], Col(reg[x]))
=============================================================================
