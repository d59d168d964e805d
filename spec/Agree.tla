-------------------------------- MODULE Agree --------------------------------
(* Two logs of one script, made under different configurations (backend,     *)
(* number of OpenMP threads, alone or beside other user threads), advance in *)
(* lock-step: every call has the same outcome, returns the same and leaves   *)
(* the objects with the same values, up to the tolerance that comes with the *)
(* event (0 where everything is exactly representable). The logs are those   *)
(* of the drivers with every value split into its structure s and its        *)
(* numbers v (tools/vlib.py).                                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
A == ndJsonDeserialize(IOEnv.TRACE)
B == ndJsonDeserialize(IOEnv.TRACE_B)
VARIABLES l, a, b
vars == <<l, a, b>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == x.s = y.s /\ Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : Abs(x.v[i] - y.v[i]) <= tol
Init == l = 1 /\ a = [r \in {} |-> 0] /\ b = [r \in {} |-> 0]
Step == /\ l <= Len(A) /\ l <= Len(B) /\ l' = l + 1
        /\ LET x == A[l]
               y == B[l]
           IN  /\ x.call = y.call /\ x.out = y.out
               /\ Near(x.ret, y.ret, x.tol)
               /\ a' = x.ch @@ a /\ b' = y.ch @@ b
               /\ \A r \in DOMAIN x.ch \cup DOMAIN y.ch : r \in DOMAIN a' /\ r \in DOMAIN b' /\ Near(a'[r], b'[r], x.tolch)
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(A) /\ Len(A) = Len(B)
            THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(A)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet("stats").diameter))
=============================================================================
