----------------------------- MODULE PackTrace -----------------------------
(* Accepts a trace recorded by harness/driver_pack iff it is a behaviour of *)
(* Pack in which, after every event, every changed register reads as Dense  *)
(* and can be written exactly where InBand.                                 *)
EXTENDS Pack, Json, IOUtils

TraceCplx == IOEnv.CPLX = "1"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.op = e /\ l' = l + 1
New(r) == IF r \in DOMAIN ev.ch THEN [n |-> ev.ch[r].n, p |-> ev.ch[r].p] ELSE reg[r]
Reads(r, X, w) == /\ Len(w.v) = X.n /\ w.v = Dense(r, X)
                  /\ Len(w.a) = X.n
                  /\ \A i, j \in 1..X.n : w.a[i][j] = (IF InBand(r, i - 1, j - 1) THEN 1 ELSE 0)
Logged == /\ out' = ev.out /\ ret' = ev.ret
          /\ reg' = [r \in Reg |-> New(r)]
          /\ \A r \in DOMAIN ev.ch : r \in Reg => Reads(r, reg'[r], ev.ch[r])

TraceInit == PackInit(1, 0) /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ Start(ev.N, ev.E)
    \/ IsEvent("init") /\ Init0 /\ Logged
    \/ IsEvent("loadt") /\ LoadT(ev.r, ev.n, ev.p) /\ Logged
    \/ IsEvent("loadp") /\ LoadP(ev.r, ev.n, ev.p) /\ Logged
    \/ IsEvent("build") /\ Build(ev.w, ev.k) /\ Logged
    \/ IsEvent("empty") /\ MakeEmpty(ev.r) /\ Logged
    \/ IsEvent("copyp") /\ CopyP(ev.r, ev.a) /\ Logged
    \/ IsEvent("assignp") /\ CopyP(ev.r, ev.a) /\ Logged
    \/ IsEvent("movep") /\ MoveP(ev.r, ev.a) /\ Logged
    \/ IsEvent("set") /\ Set(ev.r, ev.i, ev.j, ev.x) /\ Logged
    \/ IsEvent("poke") /\ Poke(ev.r, ev.w, ev.i, ev.x) /\ Logged
    \/ IsEvent("ext0") /\ Ext0(ev.r) /\ Logged
    \/ IsEvent("extw") /\ ExtW(ev.r, ev.p) /\ Logged
    \/ IsEvent("getcol") /\ GetCol(ev.r, ev.j) /\ Logged
    \/ IsEvent("intolow") /\ IntoLow(ev.r, ev.a) /\ Logged
    \/ IsEvent("backsub") /\ BackSub(ev.r, ev.k, ev.y, ev.ret) /\ Logged
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
