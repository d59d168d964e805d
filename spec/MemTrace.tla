------------------------------ MODULE MemTrace ------------------------------
(* Accepts what the real code acquired and released in a script iff it is a  *)
(* behaviour of Memory.                                                      *)
EXTENDS Memory, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.op = e /\ l' = l + 1
TraceInit == MemInit /\ l = 1
TraceNext ==
    \/ IsEvent("begin") /\ live = {} /\ \E u \in {0} : used' = Len(ev.new) /\ Releases(ev.new, ev.del) /\ \A k \in 1..Len(ev.new) : ev.new[k] = k
    \/ IsEvent("call") /\ CallMem(ev.new, ev.del)
    \/ IsEvent("end") /\ EndMem(ev.new, ev.del)
TraceSpec == TraceInit /\ [][TraceNext]_<<memvars, l>>

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
