---------------------------- MODULE ParForTrace ----------------------------
(* Accepts the accesses recorded by harness/driver_probe iff they are a      *)
(* behaviour of ParFor.                                                      *)
EXTENDS ParFor, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ ev.op = e /\ l' = l + 1
Mem(m) == [a \in Arrays |-> m[a + 1]]
TraceInit == mem = [a \in Arrays |-> <<>>] /\ call = None /\ start = mem /\ wrote = Nobody /\ readers = mem /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ call' = None /\ UNCHANGED <<mem, start, wrote, readers>>
    \/ IsEvent("mem") /\ Load(Mem(ev.mem))
    \/ IsEvent("begin") /\ Begin([what |-> ev.what, x |-> ev.x, y |-> ev.y, z |-> ev.z, al |-> ev.al])
    \/ IsEvent("read") /\ Read(ev.w, ev.arr, ev.i + 1, ev.par) /\ mem[ev.arr][ev.i + 1] = ev.v
    \/ IsEvent("write") /\ Write(ev.w, ev.arr, ev.i + 1, ev.v, ev.par)
    \/ IsEvent("end") /\ ev.out = "ok" /\ End /\ mem' = Mem(ev.mem)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
