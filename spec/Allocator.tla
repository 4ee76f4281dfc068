------------------------------ MODULE Allocator ------------------------------
(***************************************************************************)
(* aligned_allocator<T, ALIGNMENT> on top of an operator new which yields  *)
(* arbitrary chunks.                                                       *)
(*                                                                         *)
(* Memory is a set of byte intervals: `chunks' are those obtained from     *)
(* operator new, `blocks' those handed out to the user.  The specification *)
(* leaves open where in its chunk a block is placed; it has to be aligned, *)
(* within the chunk and leave room for Word bytes of bookkeeping in front, *)
(* which no block may ever overlap.                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Ids,          \* block handles
          Word          \* size of a pointer
VARIABLES blocks,       \* blocks[i] = [live, at, bytes, align, chunk, tag]
          status
vars == <<blocks, status>>
Free == [live |-> FALSE, at |-> 0, bytes |-> 0, align |-> 1, base |-> 0, size |-> 0, tag |-> 0]
Init == blocks = [i \in Ids |-> Free] /\ status = "ok"
Live(i) == blocks[i].live

(* operator new chose [base, base + size), which is free *)
ChunkFree(base, size) == \A i \in Ids : Live(i) => base + size <= blocks[i].base \/ blocks[i].base + blocks[i].size <= base
Placement(base, size, bytes, align) ==
  {at \in base + Word..base + size - bytes : at % align = 0}
Allocate(i, bytes, align, base, size) ==
  /\ ~Live(i) /\ ChunkFree(base, size)
  /\ \E at \in Placement(base, size, bytes, align) :
       blocks' = [blocks EXCEPT ![i] = [live |-> TRUE, at |-> at, bytes |-> bytes, align |-> align, base |-> base, size |-> size, tag |-> 0]]
  /\ status' = "ok"
(* operator new failed, or the size cannot be represented *)
AllocateFails(i) == ~Live(i) /\ status' = "bad_alloc" /\ UNCHANGED blocks
Write(i, t)   == Live(i) /\ blocks' = [blocks EXCEPT ![i].tag = t] /\ status' = "ok"
Deallocate(i) == Live(i) /\ blocks' = [blocks EXCEPT ![i] = Free] /\ status' = "ok"
DeallocateNull == UNCHANGED blocks /\ status' = "ok"

(* ---- properties ---- *)
Overlap(a, n, b, m) == a < b + m /\ b < a + n
Aligned   == \A i \in Ids : Live(i) => blocks[i].at % blocks[i].align = 0
Exclusive == \A i, j \in Ids : i # j /\ Live(i) /\ Live(j) =>
   /\ ~Overlap(blocks[i].at, blocks[i].bytes, blocks[j].at, blocks[j].bytes)
   /\ ~Overlap(blocks[i].at, blocks[i].bytes, blocks[j].at - Word, Word)
Inside    == \A i \in Ids : Live(i) => blocks[i].at >= blocks[i].base + Word /\ blocks[i].at + blocks[i].bytes <= blocks[i].base + blocks[i].size
Keeps     == [][\A i \in Ids : blocks'[i] = blocks[i] \/ \A j \in Ids \ {i} : blocks'[j] = blocks[j]]_vars
=============================================================================
