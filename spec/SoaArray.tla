------------------------------ MODULE SoaArray ------------------------------
(***************************************************************************)
(* soa_array<T, N>: a bounded sequence with fixed capacity.                *)
(*                                                                         *)
(* A handful of array objects (Ids) with fixed capacities; an element is a *)
(* cell, i.e. a tuple of K member slots (array members contribute one slot *)
(* per index).  One action per public call.  `status' is what the call     *)
(* reports to its caller.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Ids,      \* array objects
          Cap(_),   \* capacity of each object (compile time constant in C++)
          K         \* member slots per cell

VARIABLES arr,      \* arr[i] = [alive, s]: liveness and element sequence
          status    \* outcome of the last call: "ok" or "out_of_range"

vars == <<arr, status>>

Unspec == -1        \* member value the specification leaves open
UnspecCell == [k \in 1..K |-> Unspec]

Dead == [alive |-> FALSE, s |-> <<>>]
Init == arr = [i \in Ids |-> Dead] /\ status = "ok"

Alive(i) == arr[i].alive
Size(i)  == Len(arr[i].s)

Ok(i, s) == /\ arr' = [arr EXCEPT ![i] = [alive |-> TRUE, s |-> s]]
            /\ status' = "ok"
Fail     == UNCHANGED arr /\ status' = "out_of_range"
Try(i, s) == IF Len(s) <= Cap(i) THEN Ok(i, s) ELSE Fail

(* ---- life cycle ---- *)
Construct(i, n, c)  == ~Alive(i) /\ Try(i, [p \in 1..n |-> c])
CopyConstruct(i, j) == ~Alive(i) /\ Alive(j) /\ Try(i, arr[j].s)
Assign(i, j)        == Alive(i) /\ Alive(j) /\ Try(i, arr[j].s)
Destroy(i)          == Alive(i) /\ arr' = [arr EXCEPT ![i] = Dead] /\ status' = "ok"

(* ---- modifiers ---- *)
Push(i, c) == Alive(i) /\ Try(i, Append(arr[i].s, c))
Pop(i)     == Alive(i) /\ IF Size(i) = 0 THEN Fail
                          ELSE Ok(i, SubSeq(arr[i].s, 1, Size(i) - 1))
Clear(i)   == Alive(i) /\ Ok(i, <<>>)
SetCell(i, p, c)      == Alive(i) /\ p \in 1..Size(i) /\ Ok(i, [arr[i].s EXCEPT ![p] = c])
SetMember(i, p, k, v) == Alive(i) /\ p \in 1..Size(i) /\ Ok(i, [arr[i].s EXCEPT ![p][k] = v])

(* copy num elements starting at the from-th element of j to position off  *)
(* (0-based) of i; grows i if required, a gap has unspecified content      *)
LoadResult(i, src, from, num, off) ==
  LET old == arr[i].s
      n   == IF Len(old) > num + off THEN Len(old) ELSE num + off
  IN [p \in 1..n |-> IF p > off /\ p <= off + num THEN src[from + p - off - 1]
                     ELSE IF p <= Len(old) THEN old[p] ELSE UnspecCell]
LoadAt(i, j, from, num, off) ==
  /\ Alive(i) /\ Alive(j) /\ i # j /\ from >= 1 /\ from + num - 1 <= Size(j)
  /\ IF num + off > Cap(i) THEN Fail
     ELSE Ok(i, LoadResult(i, arr[j].s, from, num, off))
LoadAppend(i, j, from, num) == LoadAt(i, j, from, num, Size(i))

Swap(i, j) == /\ Alive(i) /\ Alive(j) /\ Cap(i) = Cap(j)
              /\ arr' = [arr EXCEPT ![i] = arr[j], ![j] = arr[i]]
              /\ status' = "ok"

(* there are no pointers inside: an array's bytes may be moved elsewhere (e.g. *)
(* to a device and back) or sent to another array (if members allow for this)  *)
Relocate(i) == Alive(i) /\ UNCHANGED arr /\ status' = "ok"
Send(i, j)  == Alive(i) /\ Alive(j) /\ Cap(i) = Cap(j) /\ Ok(i, arr[j].s)

(* ---- properties ---- *)
WithinCapacity == \A i \in Ids : Size(i) <= Cap(i)
DeadIsEmpty    == \A i \in Ids : ~Alive(i) => arr[i] = Dead
FailureIsNoop  == [][status' = "out_of_range" => arr' = arr]_vars
(* no call changes two objects, unless it is a swap of exactly those two  *)
Frame == [][\A i, j \in Ids : i # j /\ arr'[i] # arr[i] /\ arr'[j] # arr[j]
                => arr'[i] = arr[j] /\ arr'[j] = arr[i]]_vars
=============================================================================
