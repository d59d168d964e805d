------------------------------ MODULE MC_ParFor ------------------------------
(* "omp parallel for" as a set of workers: the indices are handed out in any *)
(* way whatever (Owner), every worker goes through its own in any order,     *)
(* fetching the operands one by one and storing the result. All              *)
(* interleavings, all ways for x, y and z to coincide.                       *)
EXTENDS ParFor, FiniteSets, TLC
CONSTANTS N, W, Whats, Shift
VARIABLES owner, todo, pc, got
mcvars == <<vars, owner, todo, pc, got>>
Workers == 1..W
Idle == [i |-> 0]
Vals == [a \in Arrays |-> [i \in 1..N |-> (CASE a = 0 -> 1 [] a = 1 -> 10 [] OTHER -> 100) * i]]
\* what element i is computed from; a loop with a carried dependence (Shift = 1) reads its neighbour
Src(i) == IF i > Shift THEN i - Shift ELSE i
First(c) == CASE c.what = "scale" -> c.z [] OTHER -> c.x
Second(c) == CASE c.what \in {"add", "sub"} -> c.y [] OTHER -> c.z
Result(c, u, v) == CASE c.what = "add" -> u + v [] c.what = "sub" -> u - v [] c.what = "neg" -> -u [] c.what = "axpy" -> c.al * u + v [] OTHER -> c.al * u

MCInit == /\ mem = Vals /\ call = None /\ start = Vals /\ wrote = Nobody /\ readers = [a \in Arrays |-> [i \in 1..N |-> {}]]
          /\ owner \in [1..N -> Workers] /\ todo = {} /\ pc = [w \in Workers |-> Idle] /\ got = [w \in Workers |-> <<>>]
MCBegin == /\ mem = Vals
           /\ \E what \in Whats, x, y, z \in Arrays : /\ what \in {"neg", "axpy", "scale"} => y = 0
                                                      /\ what = "scale" => x = 0
                                                      /\ Begin([what |-> what, x |-> x, y |-> y, z |-> z, al |-> 3])
           /\ todo' = 1..N /\ UNCHANGED <<owner, pc, got>>
Take(w) == /\ call # None /\ pc[w] = Idle
           /\ \E i \in todo : owner[i] = w /\ pc' = [pc EXCEPT ![w] = [i |-> i]] /\ todo' = todo \ {i}
           /\ got' = [got EXCEPT ![w] = <<>>] /\ UNCHANGED <<vars, owner>>
Fetch(w) == LET i == pc[w].i
                one == call.what \in {"neg", "scale"}
                k == Len(got[w])
            IN  /\ call # None /\ i > 0 /\ k < (IF one THEN 1 ELSE 2)
                /\ LET a == IF k = 0 THEN First(call) ELSE Second(call)
                       j == IF k = 0 THEN Src(i) ELSE i
                   IN  /\ Read(w, a, j, TRUE)
                       /\ got' = [got EXCEPT ![w] = Append(@, mem[a][j])]
                /\ UNCHANGED <<owner, todo, pc>>
Store(w) == LET i == pc[w].i
                one == call.what \in {"neg", "scale"}
            IN  /\ call # None /\ i > 0 /\ Len(got[w]) = (IF one THEN 1 ELSE 2)
                /\ Write(w, call.z, i, Result(call, got[w][1], IF one THEN 0 ELSE got[w][2]), TRUE)
                /\ pc' = [pc EXCEPT ![w] = Idle] /\ UNCHANGED <<owner, todo, got>>
Join == todo = {} /\ (\A w \in Workers : pc[w] = Idle) /\ End /\ UNCHANGED <<owner, todo, pc, got>>
MCNext == MCBegin \/ Join \/ \E w \in Workers : Take(w) \/ Fetch(w) \/ Store(w)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)

\* the workers' steps are steps of ParFor
Refines == [][\/ UNCHANGED vars \/ End \/ (\E c \in {call'} : Begin(c))
              \/ \E w \in Workers, a \in Arrays, i \in 1..N : Read(w, a, i, TRUE) \/ Write(w, a, i, mem'[a][i], TRUE)]_vars
\* when all is done the result is there, whatever the interleaving; nothing else was changed on the way
Right == call # None /\ todo = {} /\ (\A w \in Workers : pc[w] = Idle) => mem = After(call, start)
Others == call # None => \A a \in Arrays \ {call.z} : mem[a] = start[a]
\* no worker is ever stuck in front of an element another one holds
NeverBlocked == \A w \in Workers : call # None /\ pc[w] # Idle => ENABLED (Fetch(w) \/ Store(w))
Finishes == [](call # None => <>(call = None))
=============================================================================
