------------------------------ MODULE MC_Pack ------------------------------
(* Exhaustive small instance of Pack: contents of every size up to MaxN      *)
(* (distinct element values, so a misplaced element is visible), every call  *)
(* of Ops, to depth Depth. Packing is checked as a bijection for sizes up to *)
(* BIG.                                                                      *)
EXTENDS Pack, Json

CONSTANTS MaxN, BIG, Ops, Depth, EMIT

VARIABLE act, depth
mcvars == <<vars, act, depth>>

Idx(r) == CHOOSE k \in 0..9 : \E q \in {"t", "s", "h", "u", "l", "k", "g", "f"} : r = q \o ToString(k)
Val(r, i) == (Idx(r) + 1) * 20 + i                      \* distinct within and between registers
Seqs(r, k, o) == [i \in 1..k |-> Val(r, o + i)]
Choices(r) ==
    CASE r \in STri -> {[n |-> N, p |-> <<Seqs(r, N - 1, 0), Seqs(r, N, N - 1), Seqs(r, N - 1, 2 * N - 1)>>]}
      [] r \in DTri -> {[n |-> n, p |-> LET o == MaxOf(n - 1, 0) IN <<Seqs(r, o, 0), Seqs(r, n, o), Seqs(r, o, o + n)>>] : n \in 0..MaxN}
      [] r \in SLow \cup SHer -> {[n |-> N, p |-> Seqs(r, UppLen(N), 0)]}
      [] r \in Hes -> {[n |-> n, p |-> Seqs(r, HesLen(n), 0)] : n \in 0..MaxN} \cup {[n |-> n, p |-> Seqs(r, HesLen(n) + 1, 0)] : n \in 1..MaxN}
      [] OTHER -> {[n |-> n, p |-> Seqs(r, UppLen(n), 0)] : n \in 0..MaxN}
RECURSIVE Assign(_)
Assign(S) == IF S = {} THEN {<<>>}
             ELSE LET r == CHOOSE x \in S : TRUE IN {(r :> c) @@ g : c \in Choices(r), g \in Assign(S \ {r})}
MCInit == N \in (IF Sized = {} THEN {2} ELSE {1, 2, 3}) /\ E = 0 /\ out = "ok" /\ ret = <<>> /\ act = [op |-> "none"] /\ depth = 0 /\ reg \in Assign(Reg)

Does(op, A, rec) == op \in Ops /\ A /\ act' = rec
Fresh(k) == [i \in 1..k |-> 90 + i]
Next2(r, a) ==
    /\ SameType(r, a)
    /\ \/ Does("copyp", CopyP(r, a), [op |-> "copyp", r |-> r, a |-> a])
       \/ Does("assignp", CopyP(r, a), [op |-> "assignp", r |-> r, a |-> a])
       \/ r # a /\ Does("movep", MoveP(r, a), [op |-> "movep", r |-> r, a |-> a])
DoSet(r, via, i, j, x) == /\ "set" \in Ops
                           /\ Same /\ (IF InBand(r, i, j) THEN Becomes(r, Written(r, reg[r], i, j, x)) ELSE Rejects({IF r \in Low THEN "invalid_argument" ELSE "rejected"}))
                           /\ act' = [op |-> "set", r |-> r, via |-> via, i |-> i, j |-> j, x |-> x]
Next1(r) ==
    \/ \E i, j \in 0..(MaxN - 1), via \in {"op", "mut"} : i < reg[r].n /\ j < reg[r].n /\ DoSet(r, via, i, j, 99)
    \/ \E w \in 0..2, i \in 0..9 : (r \in Tri \/ w = 0) /\ Does("poke", Poke(r, w, i, 98), [op |-> "poke", r |-> r, w |-> w, i |-> i, x |-> 98])
    \/ Does("ext0", Ext0(r), [op |-> "ext0", r |-> r])
    \/ \E k \in 0..(MaxN + 3) : Does("extw", ExtW(r, Fresh(k)), [op |-> "extw", r |-> r, p |-> Fresh(k)])
    \/ \E k \in 0..(MaxN * (MaxN + 3)) : r \in Hes \cup Upp /\ Does("loadp", LoadP(r, 0, [i \in 1..k |-> i]), [op |-> "loadp", r |-> r, n |-> 0, p |-> [i \in 1..k |-> i]])
    \/ Does("empty", MakeEmpty(r), [op |-> "empty", r |-> r])
    \/ \E j \in 0..(MaxN + 2) : Does("getcol", GetCol(r, j), [op |-> "getcol", r |-> r, j |-> j])
    \/ \E a \in Reg : Does("intolow", IntoLow(r, a), [op |-> "intolow", r |-> r, a |-> a])
MCNext == depth < Depth /\ depth' = depth + 1 /\ \E r \in Reg : Next1(r) \/ \E a \in Reg : Next2(r, a)
MCSpec == MCInit /\ [][MCNext]_mcvars

Shown(R) == [r \in Reg |-> [n |-> R[r].n, p |-> R[r].p, v |-> Dense(r, R[r]),
                            a |-> [i \in 1..R[r].n |-> [j \in 1..R[r].n |-> IF InBand(r, i - 1, j - 1) THEN 1 ELSE 0]]]]
Emit == EMIT => PrintT(ToJson([s |-> Shown(reg), a |-> act', t |-> Shown(reg'), o |-> out', v |-> ret', d |-> N]))

------------------------------------------------------------------------------
Dest(x) == CASE x.op \in {"movep", "intolow"} -> {x.r, x.a} [] x.op \in {"getcol", "none"} -> {} [] OTHER -> {x.r}
Frame == [][\A r \in Reg : reg'[r] # reg[r] => r \in Dest(act')]_mcvars
Rejected == [][out' # "ok" => reg' = reg]_mcvars
\* a write changes what is read at its position (and at the mirrored one of a symmetric matrix), nothing else
OneElement == [][(act'.op = "set" /\ out' = "ok") =>
    LET r == act'.r IN \A i, j \in 0..(reg[r].n - 1) :
        Elem(r, reg'[r], i, j) = IF (i = act'.i /\ j = act'.j) \/ (r \in Her /\ i = act'.j /\ j = act'.i) THEN act'.x ELSE Elem(r, reg[r], i, j)]_mcvars
\* growing disturbs nothing that was there, and the new elements are zero or the ones given
Grows == [][(act'.op \in {"ext0", "extw"} /\ out' = "ok") =>
    LET r == act'.r
        o == reg[r].n
        X == reg'[r] IN
        /\ X.n = o + 1
        /\ \A i, j \in 0..(o - 1) : Elem(r, X, i, j) = Elem(r, reg[r], i, j)
        /\ SubSeq(X.p, 1, Len(reg[r].p)) = reg[r].p
        /\ (act'.op = "ext0" /\ r \in Upp) => \A i \in 0..o : Elem(r, X, i, o) = NZero
        /\ (act'.op = "extw" /\ r \in Upp) => \A i \in 0..o : Elem(r, X, i, o) = act'.p[i + 1]]_mcvars
Symmetric == \A r \in Her : \A i, j \in 0..(reg[r].n - 1) : Elem(r, reg[r], i, j) = Elem(r, reg[r], j, i)
ColumnIsColumn == [][act'.op = "getcol" =>
    LET r == act'.r IN \A i \in 1..Len(ret') : i - 1 < reg[r].n => ret'[i] = Elem(r, reg[r], i - 1, act'.j)]_mcvars

(* packing is a bijection between the in-band positions and the stored elements, whatever the size, and sizes are *)
(* recovered from element counts exactly                                                                           *)
Onto(at(_, _), in(_, _), n, k) == LET P == {x \in (0..(n - 1)) \X (0..(n - 1)) : in(x[1], x[2])} IN
    /\ {at(x[1], x[2]) : x \in P} = 0..(k - 1)
    /\ Cardinality(P) = k
Packing ==
    \A n \in 0..BIG :
        /\ Onto(HesAt, LAMBDA i, j : i <= j + 1, n, HesLen(n))
        /\ Onto(UppAt, LAMBDA i, j : i <= j, n, UppLen(n))
        /\ Onto(LowAt, LAMBDA i, j : i >= j, n, UppLen(n))
        /\ SizeOf(HesLen, HesLen(n)) = n /\ SizeOf(UppLen, UppLen(n)) = n
\* the closed formulas a square root gives: 8k+17 (8k+1) is a perfect square exactly for the admissible k
Roots == \A k \in 1..(BIG * 8) :
        /\ LET r == ISqrt(17 + 8 * k) IN IF r * r = 17 + 8 * k THEN SizeOf(HesLen, k) = (r - 3) \div 2 ELSE SizeOf(HesLen, k) = -1
        /\ LET r == ISqrt(1 + 8 * k) IN IF r * r = 1 + 8 * k THEN SizeOf(UppLen, k) = (r - 1) \div 2 ELSE SizeOf(UppLen, k) = -1
ASSUME Packing
ASSUME Roots
=============================================================================
