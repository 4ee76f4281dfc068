----------------------------- MODULE AllocatorMC -----------------------------
(* small word size; the bookkeeping overhead is exactly align + Word: is    *)
(* there always room, whatever address operator new returns?                *)
EXTENDS Allocator
CONSTANTS MaxBase, MaxBytes, Aligns
MCNext ==
  \/ \E i \in Ids :
       \/ \E n \in 0..MaxBytes, a \in Aligns, b \in 0..MaxBase : Allocate(i, n, a, b, n + a + Word)
       \/ AllocateFails(i) \/ Deallocate(i) \/ \E t \in 1..2 : Write(i, t)
  \/ DeallocateNull
MCSpec == Init /\ [][MCNext]_vars
Possible == \A n \in 0..MaxBytes, a \in Aligns, b \in 0..MaxBase : Placement(b, n + a + Word, n, a) # {}
=============================================================================
