------------------------------- MODULE MC_Cgs -------------------------------
(* Exhaustive small instance of the orthogonalization in Solve: every tuple  *)
(* of M independent vectors of length N over Xs. Where the coefficients are  *)
(* integers the result is computed here, by the definition, and replayed;    *)
(* the laws say that the relation of Solve accepts it and nothing nearby,    *)
(* and that the partial spans do not change.                                 *)
EXTENDS Solve, Json

CONSTANTS N, M, Xs, EMIT
VARIABLES V, W, act
mcvars == <<vars, V, W, act>>

X2 == {-1, 0, 2}
X3 == {-1, 0, 1}
X5 == {-2, -1, 0, 1, 2}
Vecs == [1..N -> Xs]
Comb(v, W0) == [i \in 1..N |-> v[i] - SumF(LAMBDA k : (DotS(W0[k], v) \div DotS(W0[k], W0[k])) * W0[k][i], 1, Len(W0))]
Divides(v, W0) == \A k \in 1..Len(W0) : DotS(W0[k], v) % DotS(W0[k], W0[k]) = 0
NonZero(w) == \E i \in 1..N : w[i] # 0

MCInit == SolveInit(0, 0, 0) /\ V = <<>> /\ W = <<>> /\ act = [op |-> "none"]
\* one more vector
Push == /\ act.op = "none" /\ Len(V) < M
        /\ \E v \in Vecs : /\ Divides(v, W) /\ NonZero(Comb(v, W))
                           /\ V' = Append(V, v) /\ W' = Append(W, Comb(v, W))
        /\ UNCHANGED <<vars, act>>
Call == /\ act.op = "none" /\ Len(V) >= 1 /\ Cgs(V, W)
        /\ act' = [op |-> "cgs", n |-> N, v |-> V] /\ UNCHANGED <<V, W>>
MCNext == Push \/ Call
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == EMIT /\ act'.op = "cgs" => PrintT(ToJson([s |-> <<>>, a |-> act', t |-> <<>>, o |-> out', v |-> ret']))

-----------------------------------------------------------------------------
\* the call is possible for every tuple it is specified for
Possible == Len(V) >= 1 => Integral(V, W) /\ Orthogonalized(V, W)
\* there is one result only
Near == {-1, 0, 1}
Only == Len(V) >= 2 => \A e \in [1..N -> Near] : NonZero(e) => ~Orthogonalized(V, [W EXCEPT ![Len(W)] = [i \in 1..N |-> @[i] + e[i]]])
\* Gram determinants: the span of the first k results is that of the first k vectors
Gram2(U) == DotS(U[1], U[1]) * DotS(U[2], U[2]) - DotS(U[1], U[2]) * DotS(U[1], U[2])
SameArea == Len(V) >= 2 => Gram2(V) = Gram2(W) /\ Gram2(W) = DotS(W[1], W[1]) * DotS(W[2], W[2])
=============================================================================
