----------------------------- MODULE SolveTrace -----------------------------
(* Accepts a trace recorded by harness/driver_solve iff it is a behaviour of *)
(* Solve: new values come from the log, the actions judge them.              *)
EXTENDS Solve, Json, IOUtils

TraceCplx == FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.op = e /\ l' = l + 1
Ch(r) == r \in DOMAIN ev.ch
NewRhs(r) == IF Ch(r) THEN ev.ch[r] ELSE rhs[r]
ShowsSol(s) == [kind |-> s.kind, F |-> s.F, h |-> s.h]
Logged == /\ out' = ev.out /\ ret' = ev.ret
          /\ \A r \in Rhs : IF Ch(r) THEN rhs'[r] = ev.ch[r] ELSE rhs'[r] = rhs[r]
          /\ \A t \in TriR : IF Ch(t) THEN tri'[t] = ev.ch[t] ELSE tri'[t] = tri[t]
          /\ \A z \in Sol : IF Ch(z) THEN ShowsSol(sol'[z]) = ev.ch[z] ELSE ShowsSol(sol'[z]) = ShowsSol(sol[z])
F(z) == IF Ch(z) THEN ev.ch[z].F ELSE sol[z].F
H(z) == IF Ch(z) THEN ev.ch[z].h ELSE sol[z].h

TraceInit == SolveInit(0, 0, 1) /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ S' = ev.S /\ SF' = ev.SF /\ LB' = ev.LB /\ UNCHANGED <<tri, sol, rhs, out, ret>>
    \/ IsEvent("init") /\ Same /\ out' = ev.out /\ out' = "ok" /\ ret' = <<>>        \* fresh registers: whatever they show
         /\ rhs' = [r \in Rhs |-> ev.ch[r]] /\ tri' = [t \in TriR |-> ev.ch[t]] /\ sol' = [z \in Sol |-> NoSol]
    \/ IsEvent("tri") /\ Tri(ev.r, ev.n, ev.dl, ev.d, ev.du) /\ Logged
    \/ IsEvent("tpoke") /\ TPoke(ev.r, ev.w, ev.i, ev.x) /\ Logged
    \/ IsEvent("mktri") /\ MkTri(ev.z, ev.t, F(ev.z), H(ev.z)) /\ Logged
    \/ IsEvent("make") /\ Make(ev.z, ev.kind, ev.n, ev.tol, ev.tf, ev.A, ev.cert, F(ev.z), H(ev.z)) /\ Logged
    \/ IsEvent("zcopy") /\ ZCopy(ev.z, ev.y) /\ Logged
    \/ IsEvent("zmove") /\ ZMove(ev.z, ev.y) /\ Logged
    \/ IsEvent("rhs") /\ Load(ev.r, ev.n, ev.k, ev.p, IF Ch(ev.r) THEN ev.ch[ev.r].h ELSE rhs[ev.r].h) /\ Logged
    \/ IsEvent("solve") /\ Solve(ev.z, ev.b, ev.x, NewRhs(ev.x)) /\ Logged
    \/ IsEvent("solvem") /\ Solve(ev.z, ev.b, ev.x, NewRhs(ev.x)) /\ Logged
    \/ IsEvent("parsolve") /\ ParSolve(ev.zs, ev.bs, ev.xs, NewRhs) /\ Logged
    \/ IsEvent("cgs") /\ Cgs(ev.v, ev.ret) /\ Logged
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
