------------------------------ MODULE MatTrace ------------------------------
(* Accepts a trace recorded by harness/driver_mat iff it is a behaviour of Mat. *)
EXTENDS Mat, Json, IOUtils

TraceCplx == IOEnv.CPLX = "1"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.op = e /\ l' = l + 1
New(r) == IF r \in DOMAIN ev.ch THEN ev.ch[r] ELSE reg[r]
Logged == /\ out' = ev.out /\ ret' = ev.ret
          /\ reg' = [r \in Reg |-> New(r)]

TraceInit == MatInit(<<1, 1, 1>>, 1, 0) /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ Start(<<ev.N, ev.L, ev.M>>, ev.per, ev.E)
    \/ IsEvent("loadm") /\ LoadM(ev.r, ev.n, ev.m, ev.p) /\ Logged
    \/ IsEvent("loadv") /\ LoadV(ev.r, ev.n, ev.p) /\ Logged
    \/ IsEvent("fillm") /\ FillM(ev.r, ev.n, ev.m, ev.al) /\ Logged
    \/ IsEvent("diagv") /\ DiagV(ev.r, ev.n, ev.p) /\ Logged
    \/ IsEvent("diags") /\ DiagS(ev.r, ev.n, ev.al) /\ Logged
    \/ IsEvent("ident") /\ Identity(ev.r, ev.n) /\ Logged
    \/ IsEvent("copym") /\ CopyM(ev.r, ev.a) /\ Logged
    \/ IsEvent("assignm") /\ CopyM(ev.r, ev.a) /\ Logged
    \/ IsEvent("movem") /\ MoveM(ev.r, ev.a) /\ Logged
    \/ IsEvent("swapm") /\ SwapM(ev.r, ev.a) /\ Logged
    \/ IsEvent("setm") /\ SetM(ev.r, ev.i, ev.j, ev.al) /\ Logged
    \/ IsEvent("getm") /\ GetM(ev.r, ev.i, ev.j) /\ Logged
    \/ IsEvent("addm") /\ AddM(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("subm") /\ SubM(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("opaddm") /\ OpAddM(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("opsubm") /\ OpSubM(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("scalem") /\ ScaleM(ev.r, ev.al) /\ Logged
    \/ IsEvent("scalee") /\ ScaleE(ev.r, ev.i, ev.j) /\ Logged
    \/ IsEvent("mulsm") /\ MulSM(ev.r, ev.al, ev.a) /\ Logged
    \/ IsEvent("opnegm") /\ OpNegM(ev.r, ev.a) /\ Logged
    \/ IsEvent("gemm") /\ GemmM(ev.r, ev.al, ev.a, ev.b, ev.be) /\ Logged
    \/ IsEvent("opmul") /\ OpMulM(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("gemv") /\ GemvM(ev.r, ev.al, ev.a, ev.b, ev.be) /\ Logged
    \/ IsEvent("opmulv") /\ OpMulV(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("inv") /\ Inv(ev.r, ev.kind, ev.a, New(ev.r)) /\ Logged
    \/ IsEvent("invr") /\ InvR(ev.a, ev.k, ev.ret) /\ Logged
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
