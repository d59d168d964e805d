------------------------------- MODULE MC_Vec -------------------------------
(* Exhaustive small instance of Vec. Every assignment of small vectors to    *)
(* the registers is an initial state, and every call of the operations in   *)
(* Ops is a step, so TLC visits every (state, call) pair within the bounds:  *)
(* all aliasing patterns, all length combinations. Each transition is also   *)
(* printed (EMIT) and replayed on the real code by tools/check.py.           *)
EXTENDS Vec, Json

CONSTANTS Vals, MaxLen, Size, Ops, Alphas, EMIT

ValsA == {-1, 0, 2}
ValsB == {-1, 2}
ValsC == {1}
AlphasA == {-2, 0, 1}
AlphasB == {2}

VARIABLE act
mcvars == <<vars, act>>
View == <<N, per, reg, out, ret>>

VecsOf(n) == {V(n, p) : p \in [1..n -> Vals]}
DynVals == UNION {VecsOf(n) : n \in 0..MaxLen}

MCInit == /\ N = Size /\ per = 8 /\ out = "ok" /\ ret = <<>> /\ act = [op |-> "none"]
          /\ reg \in [Reg -> DynVals \cup VecsOf(Size)]
          /\ \A r \in SReg : reg[r].n = Size
          /\ \A r \in DReg : reg[r].n <= MaxLen

Does(op, A, rec) == op \in Ops /\ A /\ act' = rec

Next3(r, a, b) ==
    \/ Does("add", Add(r, a, b), [op |-> "add", r |-> r, a |-> a, b |-> b])
    \/ Does("sub", Sub(r, a, b), [op |-> "sub", r |-> r, a |-> a, b |-> b])
    \/ Does("opadd", OpAdd(r, a, b), [op |-> "opadd", r |-> r, a |-> a, b |-> b])
    \/ Does("opsub", OpSub(r, a, b), [op |-> "opsub", r |-> r, a |-> a, b |-> b])
    \/ Does("cross3", DoCross3(r, a, b), [op |-> "cross3", r |-> r, a |-> a, b |-> b])
    \/ Does("cross3to", Cross3To(r, a, b), [op |-> "cross3to", r |-> r, a |-> a, b |-> b])
    \/ Does("crossacc", CrossAcc(r, a, b), [op |-> "crossacc", r |-> r, a |-> a, b |-> b])
Next2(r, a) ==
    \/ Does("neg", Neg(r, a), [op |-> "neg", r |-> r, a |-> a])
    \/ Does("opneg", OpNeg(r, a), [op |-> "opneg", r |-> r, a |-> a])
    \/ \E op \in {"copy", "assign"} : Does(op, Copy(r, a), [op |-> op, r |-> r, a |-> a])
    \/ \E op \in {"move", "moveassign"} : (op = "move" \/ r # a) /\ Does(op, Move(r, a), [op |-> op, r |-> r, a |-> a])
    \/ Does("swap", Swap(r, a), [op |-> "swap", r |-> r, a |-> a])
    \/ \E al \in Alphas :
         \/ Does("axpy", Axpy(r, al, a), [op |-> "axpy", r |-> r, al |-> al, a |-> a])
         \/ \E op \in {"scaled", "mull", "mulr"} : Does(op, Scaled(r, al, a), [op |-> op, r |-> r, al |-> al, a |-> a])
         \/ al # 0 /\ Does("div", Div(r, a, al), [op |-> "div", r |-> r, a |-> a, al |-> al])
    \/ (\/ SameKind(r, a) /\ Does("dot", Dot(r, a), [op |-> "dot", a |-> r, b |-> a])
        \/ Does("mdot", Dot(r, a), [op |-> "mdot", a |-> r, b |-> a])
        \/ Does("cross2", DoCross2(r, a), [op |-> "cross2", a |-> r, b |-> a]))
Next1(r) ==
    \/ \E al \in Alphas : Does("scale", Scale(r, al), [op |-> "scale", r |-> r, al |-> al])
    \/ \E i \in 0..(MaxLen - 1) :
         \/ Does("get", Get(r, i), [op |-> "get", r |-> r, i |-> i])
         \/ \E x \in Vals, via \in {"idx", "data", "iter", "rev"} :
                Does("set", Set(r, i, x), [op |-> "set", r |-> r, via |-> via, i |-> i, a |-> x])
    \/ \E x \in Vals, n \in 0..MaxLen : (Siz(r) => n = Size) /\ Does("fill", Fill(r, n, x), [op |-> "fill", r |-> r, n |-> n, a |-> x])
    \/ \E w \in DynVals, kind \in {"vec", "move", "arr", "init", "write"} :
         /\ kind \in {"arr", "write"} /\ Siz(r) => w.n = Size
         /\ Does("load", Load(r, w.n, w.p), [op |-> "load", r |-> r, kind |-> kind, n |-> w.n, p |-> w.p])
    \/ \E k \in {3}, v \in 0..32 : Does("norm2", Norm2(r, k, v), [op |-> "norm2", a |-> r, k |-> k])
MCNext == /\ act.op = "none"               \* one call from every state covers every (state, call) pair
          /\ \E r \in Reg : Next1(r) \/ \E a \in Reg : Next2(r, a) \/ \E b \in Reg : Next3(r, a, b)

MCSpec == MCInit /\ [][MCNext]_mcvars

(* What the emitted transition says *)
Emit == EMIT => PrintT(ToJson([s |-> reg, a |-> act', t |-> reg', o |-> out', v |-> ret']))

------------------------------------------------------------------------------
(* Properties of the machine *)
Dest(x) == CASE x.op \in {"dot", "mdot", "norm2", "cross2", "get", "divr", "none"} -> {}
             [] x.op \in {"move", "moveassign", "swap"} -> {x.r, x.a}
             [] OTHER -> {x.r}
\* V01/V04: a call changes no register but its destination
Frame == [][\A r \in Reg : reg'[r] # reg[r] => r \in Dest(act')]_mcvars
\* V03: a rejected call changes nothing; a call is rejected iff lengths differ
Rejected == [][out' # "ok" => reg' = reg]_mcvars
Mismatch == [][act'.op \in {"add", "sub"} => (out' = "SizeMismatched" <=> Cardinality({reg[x].n : x \in {act'.r, act'.a, act'.b}}) > 1)]_mcvars
\* results keep the length of the operands
Lengths == [][(out' = "ok" /\ act'.op \in {"add", "sub", "neg", "axpy", "scale"}) => reg'[act'.r].n = reg[act'.r].n]_mcvars
\* algebraic laws the operators of Vec must satisfy, over every pair of vectors in the registers
Laws == act.op = "none" => \A x, y \in Reg :
    LET v == reg[x]
        w == reg[y]
    IN  v.n = w.n =>
        /\ VAdd(v, w) = VAdd(w, v) /\ VSub(VAdd(v, w), w) = v /\ VNeg(VSub(v, w)) = VSub(w, v)
        /\ VAxpy(2, v, w) = VAdd(VAdd(v, v), w) /\ VScale(-1, v) = VNeg(v)
        /\ VDot(v, w) = VDot(w, v) /\ VDot(VAdd(v, w), v) = VDot(v, v) + VDot(w, v) /\ VDot(v, v) >= 0
        /\ VDot(v, w) = NSumF(LAMBDA i : At(v, i) * At(w, i), 1, v.n)
        /\ v.n = 3 => /\ VDot(Cross3(v, w), v) = 0 /\ VDot(Cross3(v, w), w) = 0
                      /\ Cross3(v, w) = VNeg(Cross3(w, v))
                      /\ VDot(Cross3(v, w), Cross3(v, w)) = VDot(v, v) * VDot(w, w) - VDot(v, w) * VDot(v, w)
        /\ v.n = 2 => Cross2(v, w) = -Cross2(w, v)
        /\ \E z \in 0..64 : NormOK(v, 3, z)
=============================================================================
