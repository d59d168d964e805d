-------------------------------- MODULE ParFor --------------------------------
(* An element-wise operation z <- x op y (z <- -x, z <- al*x + z,            *)
(* z <- al*z) carried out by several workers. x, y and z name arrays and may *)
(* name the same one. Every read and write of an element is a step of its    *)
(* own; nothing is said about who does which index and in which order.       *)
(* The call may end only in the state the call, seen as one step, leads to;  *)
(* workers never touch an element another one writes.                        *)
EXTENDS Integers, Sequences

CONSTANT Arrays
VARIABLES mem, call, start, wrote, readers
vars == <<mem, call, start, wrote, readers>>

None == [what |-> "none"]
Len1 == Len(mem[CHOOSE a \in Arrays : TRUE])
F(c, m, i) == CASE c.what = "add" -> m[c.x][i] + m[c.y][i]
                [] c.what = "sub" -> m[c.x][i] - m[c.y][i]
                [] c.what = "neg" -> -m[c.x][i]
                [] c.what = "axpy" -> c.al * m[c.x][i] + m[c.z][i]
                [] OTHER -> c.al * m[c.z][i]
\* the call as one step
After(c, m) == [m EXCEPT ![c.z] = [i \in 1..Len(@) |-> F(c, m, i)]]
Operands(c) == CASE c.what \in {"add", "sub"} -> {c.x, c.y} [] c.what = "neg" -> {c.x} [] c.what = "axpy" -> {c.x, c.z} [] OTHER -> {c.z}

Nobody == [a \in Arrays |-> [i \in 1..Len1 |-> 0]]
Load(m) == call = None /\ mem' = m /\ UNCHANGED <<call, start, wrote, readers>>
Begin(c) == call = None /\ call' = c /\ start' = mem /\ wrote' = Nobody /\ readers' = [a \in Arrays |-> [i \in 1..Len1 |-> {}]] /\ UNCHANGED mem
\* worker w reads element i of array a; par: other workers are about
Read(w, a, i, par) ==
    /\ call # None /\ i \in 1..Len1 /\ a \in Operands(call) \cup {call.z}
    /\ par => wrote[a][i] \in {0, w}
    /\ readers' = IF par THEN [readers EXCEPT ![a][i] = @ \cup {w}] ELSE readers
    /\ UNCHANGED <<mem, call, start, wrote>>
Write(w, a, i, v, par) ==
    /\ call # None /\ i \in 1..Len1 /\ a = call.z
    /\ par => wrote[a][i] \in {0, w} /\ readers[a][i] \subseteq {w}
    /\ wrote' = IF par THEN [wrote EXCEPT ![a][i] = w] ELSE wrote
    /\ mem' = [mem EXCEPT ![a][i] = v]
    /\ UNCHANGED <<call, start, readers>>
End == call # None /\ mem = After(call, start) /\ call' = None /\ UNCHANGED <<mem, start, wrote, readers>>
===============================================================================
