----------------------------- MODULE CudaArray -----------------------------
(***************************************************************************)
(* cuda_array: sequences of elements in device memory.  Elements which     *)
(* have not been written since they became part of the array are `Unset'.  *)
(* Device memory is modelled explicitly: each array owns one block; what   *)
(* a block holds beyond the array's size is of no relevance.               *)
(*                                                                         *)
(* Thousands of elements matter (launches have 512 threads per block), so  *)
(* sequences are represented by runs <<length, first, step>> of values     *)
(* modulo M; `Expand' yields the sequence represented.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Unset, M
VARIABLES arr,      \* the objects: [alive, s (runs), cap (capacity is at least this)]
          blocks,   \* number of device blocks in use
          result    \* what save() returned
vars == <<arr, blocks, result>>

(* ---------------- runs ---------------- *)
RECURSIVE RLen(_), Expand(_), RPrefix(_, _)
RLen(s) == IF s = <<>> THEN 0 ELSE Head(s)[1] + RLen(Tail(s))
At(r, k) == IF r[2] = Unset THEN Unset ELSE (r[2] + (k - 1) * r[3]) % M
Expand(s) == IF s = <<>> THEN <<>> ELSE [k \in 1..Head(s)[1] |-> At(Head(s), k)] \o Expand(Tail(s))
RFill(n, v) == IF n = 0 THEN <<>> ELSE <<<<n, v, 0>>>>
RPattern(n, v, d) == IF n = 0 THEN <<>> ELSE <<<<n, v, d>>>>
RPrefix(s, n) == IF n = 0 \/ s = <<>> THEN <<>>
                 ELSE IF Head(s)[1] <= n THEN <<Head(s)>> \o RPrefix(Tail(s), n - Head(s)[1])
                 ELSE <<<<n, Head(s)[2], Head(s)[3]>>>>

(* ---------------- the arrays ---------------- *)
Dead == [alive |-> FALSE, s |-> <<>>, cap |-> 0]
Mk(s, c) == [alive |-> TRUE, s |-> s, cap |-> IF c > RLen(s) THEN c ELSE RLen(s)]
Alive(i) == arr[i].alive

Init == arr = [i \in Ids |-> Dead] /\ blocks = 0 /\ result = <<>>
Put(i, x) == arr' = [arr EXCEPT ![i] = x]
New(i, s) == ~Alive(i) /\ Put(i, Mk(s, 0)) /\ blocks' = blocks + 1 /\ result' = <<>>
Keep == UNCHANGED blocks /\ result' = <<>>

Construct(i, n)       == New(i, RFill(n, Unset))
ConstructFill(i, n, v) == New(i, RFill(n, v))
ConstructFrom(i, s)   == New(i, s)
Copy(i, j)            == Alive(j) /\ New(i, arr[j].s)
Destroy(i)            == Alive(i) /\ Put(i, Dead) /\ blocks' = blocks - 1 /\ result' = <<>>
Assign(i, j)          == Alive(i) /\ Alive(j) /\ Put(i, Mk(arr[j].s, arr[i].cap)) /\ Keep
(* elements which stay keep their values; new ones get v (or are Unset) *)
Resize(i, n, v) == /\ Alive(i) /\ Keep
                   /\ LET old == RLen(arr[i].s)
                      IN Put(i, Mk(RPrefix(arr[i].s, n) \o RFill(IF n > old THEN n - old ELSE 0, v), arr[i].cap))
Reserve(i, n)   == Alive(i) /\ Put(i, Mk(arr[i].s, IF n > arr[i].cap THEN n ELSE arr[i].cap)) /\ Keep
Load(i, s)      == Alive(i) /\ RLen(s) = RLen(arr[i].s) /\ Put(i, Mk(s, arr[i].cap)) /\ Keep
Save(i)         == Alive(i) /\ UNCHANGED <<arr, blocks>> /\ result' = arr[i].s

(* ---------------- checked ---------------- *)
OwnsOneBlock == blocks = Cardinality({i \in Ids : Alive(i)})
CapacityFits == \A i \in Ids : arr[i].cap >= Len(Expand(arr[i].s))
(* no call changes more than one array; capacity guarantees only end with the object *)
Frame == [][Cardinality({i \in Ids : arr'[i] # arr[i]}) <= 1]_vars
CapacityStays == [][\A i \in Ids : arr[i].alive /\ arr'[i].alive => arr'[i].cap >= arr[i].cap]_vars
=============================================================================
