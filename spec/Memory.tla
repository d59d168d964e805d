------------------------------- MODULE Memory -------------------------------
(* The storage behind the objects: blocks are acquired and released by       *)
(* calls. A call may acquire temporaries, replace what an object holds, hand *)
(* blocks over (move) or swap them; when it returns every block alive        *)
(* belongs to exactly one object, and when the objects are gone none is      *)
(* left. Blocks are named in the order in which they are acquired.           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Regs                      \* the objects
VARIABLES live, used                \* blocks alive; how many were ever acquired
memvars == <<live, used>>

Range(s) == {s[k] : k \in 1..Len(s)}
NoDup(s) == Cardinality(Range(s)) = Len(s)
\* one call that acquires the blocks `new` and releases the blocks `del`
Acquires(new) == /\ \A k \in 1..Len(new) : new[k] = used + k
                 /\ used' = used + Len(new)
Releases(new, del) == /\ NoDup(del)                             \* nothing is released twice
                      /\ Range(del) \subseteq live \cup Range(new)
                      /\ live' = (live \cup Range(new)) \ Range(del)
CallMem(new, del) == Acquires(new) /\ Releases(new, del)
\* the objects are destroyed
EndMem(new, del) == CallMem(new, del) /\ live' = {}
MemInit == live = {} /\ used = 0
MemStart == live' = {} /\ used' = 0
=============================================================================
