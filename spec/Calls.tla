-------------------------------- MODULE Calls --------------------------------
(* Calls of the library made by several user threads at once. A call reads   *)
(* its sources element by element, works in storage of its own in two        *)
(* passes (as the solvers do) and writes its destination. The calls write    *)
(* different objects, and what one writes no other one reads.                *)
(* With Shared = TRUE the intermediate storage belongs to the solver object  *)
(* all of them use: the model that must fail.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Reg, Shared
VARIABLES reg, start, task, pc, tmp
vars == <<reg, start, task, pc, tmp>>
Own(t) == IF Shared THEN 0 ELSE t
\* the two passes: running sums forward, then backward
Fwd(b) == <<b[1], b[1] + b[2]>>
Bwd(y) == <<y[1] + y[2], y[2]>>
Result(m, c) == Bwd(Fwd(m[c.src]))
Init == /\ reg = [r \in Reg |-> <<r, 10 * r>>] /\ start = reg
        /\ task \in [Threads -> [src : Reg, dst : Reg]]
        /\ \A t, u \in Threads : task[t].dst # task[u].src /\ (t # u => task[t].dst # task[u].dst)
        /\ pc = [t \in Threads |-> 1] /\ tmp = [t \in Threads \cup {0} |-> <<0, 0>>]
Step(t) == LET c == task[t]
               o == Own(t)
           IN  /\ pc[t] <= 6 /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<start, task>>
               /\ CASE pc[t] = 1 -> tmp' = [tmp EXCEPT ![o][1] = reg[c.src][1]] /\ UNCHANGED reg
                    [] pc[t] = 2 -> tmp' = [tmp EXCEPT ![o][2] = reg[c.src][2] + tmp[o][1]] /\ UNCHANGED reg
                    [] pc[t] = 3 -> tmp' = [tmp EXCEPT ![o][2] = tmp[o][2]] /\ UNCHANGED reg
                    [] pc[t] = 4 -> tmp' = [tmp EXCEPT ![o][1] = tmp[o][1] + tmp[o][2]] /\ UNCHANGED reg
                    [] pc[t] = 5 -> reg' = [reg EXCEPT ![c.dst][1] = tmp[o][1]] /\ UNCHANGED tmp
                    [] OTHER -> reg' = [reg EXCEPT ![c.dst][2] = tmp[o][2]] /\ UNCHANGED tmp
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
Done(t) == pc[t] = 7
\* a finished call has the result it has when made alone; hence any order of making them gives the same state
AsAlone == \A t \in Threads : Done(t) => reg[task[t].dst] = Result(start, task[t])
SourcesKept == \A r \in Reg : (\A t \in Threads : task[t].dst # r) => reg[r] = start[r]
=============================================================================
