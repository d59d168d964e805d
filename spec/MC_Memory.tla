----------------------------- MODULE MC_Memory ------------------------------
(* The discipline behind Memory: objects own blocks, calls are made of the   *)
(* steps acquire / release / hand over, and may fail half-way. With Fault    *)
(* "leak" a failing call forgets its temporary, with "share" a copy keeps    *)
(* the block of its source: models that must fail.                           *)
EXTENDS Memory
CONSTANTS MaxBlocks, Fault
VARIABLES own, alive                \* own[r]: the block of r, 0 for none
vars == <<live, used, own, alive>>
None == 0
Owned(o) == {o[r] : r \in Regs} \ {None}
Fresh == used + 1
Drop(b) == IF b = None THEN <<>> ELSE <<b>>
Init == MemInit /\ own = [r \in Regs |-> None] /\ alive = TRUE
Stays == UNCHANGED alive
\* new elements for r, built aside (load, copy of a different size, binary operation)
Fill(r) == /\ alive /\ used < MaxBlocks /\ Stays
           /\ CallMem(<<Fresh>>, Drop(own[r])) /\ own' = [own EXCEPT ![r] = Fresh]
\* the same with a temporary of the call besides
FillVia(r) == /\ alive /\ used + 1 < MaxBlocks /\ Stays
              /\ CallMem(<<Fresh, Fresh + 1>>, <<Fresh>> \o Drop(own[r])) /\ own' = [own EXCEPT ![r] = Fresh + 1]
\* into the storage r has
InPlace(r) == alive /\ own[r] # None /\ Stays /\ CallMem(<<>>, <<>>) /\ UNCHANGED own
Copy(r, a) == /\ alive /\ r # a /\ own[a] # None /\ Stays
              /\ IF Fault = "share" THEN CallMem(<<>>, Drop(own[r])) /\ own' = [own EXCEPT ![r] = own[a]]
                 ELSE /\ used < MaxBlocks /\ CallMem(<<Fresh>>, Drop(own[r])) /\ own' = [own EXCEPT ![r] = Fresh]
Move(r, a) == alive /\ r # a /\ Stays /\ CallMem(<<>>, Drop(own[r])) /\ own' = [[own EXCEPT ![r] = own[a]] EXCEPT ![a] = None]
Swap(r, a) == alive /\ r # a /\ Stays /\ CallMem(<<>>, <<>>) /\ own' = [[own EXCEPT ![r] = own[a]] EXCEPT ![a] = own[r]]
\* rejected after a temporary was made
Fail == /\ alive /\ used < MaxBlocks /\ Stays /\ UNCHANGED own
        /\ CallMem(<<Fresh>>, IF Fault = "leak" THEN <<>> ELSE <<Fresh>>)
\* every object releases what it owns, one after the other; `share` releases a block twice
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET r == CHOOSE x \in S : TRUE IN Drop(own[r]) \o SeqOf(S \ {r})
Destroy == /\ alive /\ alive' = FALSE /\ own' = [r \in Regs |-> None]
           /\ used' = used /\ live' = live \ Range(SeqOf(Regs))
Next == \/ \E r \in Regs : Fill(r) \/ FillVia(r) \/ InPlace(r)
        \/ \E r, a \in Regs : Copy(r, a) \/ Move(r, a) \/ Swap(r, a)
        \/ Fail \/ Destroy
Spec == Init /\ [][Next]_vars
OwnersAlive == Owned(own) \subseteq live                      \* no object holds released storage
OneOwner == \A r, a \in Regs : r # a /\ own[r] # None => own[r] # own[a]
NothingLost == alive => live = Owned(own)                     \* after every call
Gone == ~alive => live = {}
=============================================================================
