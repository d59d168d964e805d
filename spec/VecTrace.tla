------------------------------ MODULE VecTrace ------------------------------
(* Accepts a trace recorded by harness/driver_vec iff it is a behaviour of   *)
(* Vec: every event must be the named action with the logged arguments, the  *)
(* logged outcome and return value, and the logged registers.                *)
EXTENDS Vec, Json, IOUtils

TraceCplx == IOEnv.CPLX = "1"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.op = e /\ l' = l + 1
Logged == /\ out' = ev.out /\ ret' = ev.ret
          /\ reg' = [r \in Reg |-> IF r \in DOMAIN ev.ch THEN ev.ch[r] ELSE reg[r]]

TraceInit == VecInit(1, 1) /\ l = 1
TraceNext ==
    \/ IsEvent("reset")  /\ Start(ev.N, ev.per)
    \/ IsEvent("load")   /\ Load(ev.r, ev.n, ev.p) /\ Logged
    \/ IsEvent("fill")   /\ Fill(ev.r, ev.n, ev.a) /\ Logged
    \/ IsEvent("copy")   /\ Copy(ev.r, ev.a) /\ Logged
    \/ IsEvent("assign") /\ Copy(ev.r, ev.a) /\ Logged
    \/ IsEvent("move")   /\ Move(ev.r, ev.a) /\ Logged
    \/ IsEvent("moveassign") /\ Move(ev.r, ev.a) /\ Logged
    \/ IsEvent("swap")   /\ Swap(ev.r, ev.a) /\ Logged
    \/ IsEvent("set")    /\ Set(ev.r, ev.i, ev.a) /\ Logged
    \/ IsEvent("get")    /\ Get(ev.r, ev.i) /\ Logged
    \/ IsEvent("add")    /\ Add(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("sub")    /\ Sub(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("neg")    /\ Neg(ev.r, ev.a) /\ Logged
    \/ IsEvent("axpy")   /\ Axpy(ev.r, ev.al, ev.a) /\ Logged
    \/ IsEvent("scale")  /\ Scale(ev.r, ev.al) /\ Logged
    \/ IsEvent("opadd")  /\ OpAdd(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("opsub")  /\ OpSub(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("opneg")  /\ OpNeg(ev.r, ev.a) /\ Logged
    \/ IsEvent("scaled") /\ Scaled(ev.r, ev.al, ev.a) /\ Logged
    \/ IsEvent("mull")   /\ Scaled(ev.r, ev.al, ev.a) /\ Logged
    \/ IsEvent("mulr")   /\ Scaled(ev.r, ev.al, ev.a) /\ Logged
    \/ IsEvent("div")    /\ Div(ev.r, ev.a, ev.al) /\ Logged
    \/ IsEvent("divr")   /\ DivR(ev.a, ev.al, ev.k, ev.ret) /\ Logged
    \/ IsEvent("dot")    /\ Dot(ev.a, ev.b) /\ Logged
    \/ IsEvent("mdot")   /\ Dot(ev.a, ev.b) /\ Logged
    \/ IsEvent("norm2")  /\ Len(ev.ret) = 1 /\ Norm2(ev.a, ev.k, ev.ret[1]) /\ Logged
    \/ IsEvent("cross2") /\ DoCross2(ev.a, ev.b) /\ Logged
    \/ IsEvent("cross3") /\ DoCross3(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("cross3to") /\ Cross3To(ev.r, ev.a, ev.b) /\ Logged
    \/ IsEvent("crossacc") /\ CrossAcc(ev.r, ev.a, ev.b) /\ Logged
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

\* one state per consumed line plus the initial one
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
