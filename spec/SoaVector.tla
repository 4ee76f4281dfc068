------------------------------ MODULE SoaVector ------------------------------
(***************************************************************************)
(* soa_vector<T>: a sequence of cells which grows on demand, up to the     *)
(* largest supported size of the cell type.                                *)
(*                                                                         *)
(* Reallocation, capacity and padding are not part of the state: which     *)
(* capacity is chosen is up to the implementation, only lower bounds are   *)
(* specified (mincap).  Elements beyond the size may have been stored      *)
(* before (hw is the high-water mark); growing over those yields           *)
(* unspecified values, growing beyond them default constructed ones.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Ids, K
VARIABLES vec,      \* vec[i] = [alive, s, hw, mincap]
          status,   \* outcome of the last call
          max       \* largest supported size
vars == <<vec, status, max>>

UnspecCell  == [k \in 1..K |-> -1]
DefaultCell == [k \in 1..K |-> 0]
Dead == [alive |-> FALSE, s |-> <<>>, hw |-> 0, mincap |-> 0]
Larger(a, b) == IF a > b THEN a ELSE b

Init == vec = [i \in Ids |-> Dead] /\ status = "ok"
Alive(i) == vec[i].alive
Size(i)  == Len(vec[i].s)
Elems(i)   == vec[i].s
Rep(n, c) == [p \in 1..n |-> c]

(* i gets content s, the storage may have seen hw elements, capacity >= mc *)
Put(i, s, hw, mc) == /\ vec' = [vec EXCEPT ![i] = [alive |-> TRUE, s |-> s, hw |-> Larger(hw, Len(s)), mincap |-> Larger(mc, Len(s))]]
                     /\ status' = "ok" /\ UNCHANGED max
Ok(i, s) == Put(i, s, vec[i].hw, vec[i].mincap)
Fail(why) == UNCHANGED <<vec, max>> /\ status' = why
OutOfRange == Fail("out_of_range")

(* ---- life cycle ---- *)
Construct(i, n)       == ~Alive(i) /\ IF n > max THEN OutOfRange ELSE Put(i, Rep(n, DefaultCell), 0, n)
ConstructV(i, n, c)   == ~Alive(i) /\ IF n > max THEN OutOfRange ELSE Put(i, Rep(n, c), 0, n)
CopyConstruct(i, j)   == ~Alive(i) /\ Alive(j) /\ Put(i, Elems(j), vec[j].hw, 0)
Assign(i, j)          == Alive(i) /\ Alive(j) /\ (IF i = j THEN Ok(i, Elems(i)) ELSE Put(i, Elems(j), Larger(vec[i].hw, vec[j].hw), 0))
Destroy(i)            == Alive(i) /\ vec' = [vec EXCEPT ![i] = Dead] /\ status' = "ok" /\ UNCHANGED max
Swap(i, j)            == /\ Alive(i) /\ Alive(j) /\ i # j
                         /\ LET h == Larger(vec[i].hw, vec[j].hw)
                            IN vec' = [vec EXCEPT ![i] = [@ EXCEPT !.s = Elems(j), !.hw = h, !.mincap = Size(j)],
                                                  ![j] = [@ EXCEPT !.s = Elems(i), !.hw = h, !.mincap = Size(i)]]
                         /\ status' = "ok" /\ UNCHANGED max

(* ---- modifiers ---- *)
Push(i, c)  == Alive(i) /\ IF Size(i) + 1 > max THEN OutOfRange ELSE Ok(i, Append(Elems(i), c))
(* one call per cell of cs, up to and including the first one which fails *)
PushMany(i, cs) ==
  /\ Alive(i)
  /\ LET room == max - Size(i)
         n    == IF Len(cs) < room THEN Len(cs) ELSE room
     IN /\ vec' = [vec EXCEPT ![i] = [@ EXCEPT !.s = @ \o SubSeq(cs, 1, n), !.hw = Larger(@, Size(i) + n), !.mincap = Larger(@, Size(i) + n)]]
        /\ status' = (IF n < Len(cs) THEN "out_of_range" ELSE "ok")
        /\ UNCHANGED max
Pop(i)      == Alive(i) /\ Size(i) > 0 /\ Ok(i, SubSeq(Elems(i), 1, Size(i) - 1))
Clear(i)    == Alive(i) /\ Ok(i, <<>>)
SetCell(i, p, c)      == Alive(i) /\ p \in 1..Size(i) /\ Ok(i, [Elems(i) EXCEPT ![p] = c])
SetMember(i, p, k, v) == Alive(i) /\ p \in 1..Size(i) /\ Ok(i, [Elems(i) EXCEPT ![p][k] = v])
Resized(i, n) == [p \in 1..n |-> IF p <= Size(i) THEN Elems(i)[p] ELSE IF p <= vec[i].hw THEN UnspecCell ELSE DefaultCell]
Resize(i, n)  == Alive(i) /\ IF n > max THEN OutOfRange ELSE Ok(i, Resized(i, n))
Reserve(i, n) == Alive(i) /\ IF n > max THEN OutOfRange ELSE Put(i, Elems(i), vec[i].hw, Larger(n, vec[i].mincap))

(* ---- properties ---- *)
TypeOK == \A i \in Ids : /\ vec[i].hw >= Size(i) /\ vec[i].mincap >= Size(i) /\ Size(i) <= max
                         /\ (~Alive(i) => vec[i] = Dead)
FailureKeepsElements == [][status' = "out_of_range" =>
     \A i \in Ids : Len(vec'[i].s) >= Size(i) /\ SubSeq(vec'[i].s, 1, Size(i)) = Elems(i)]_vars
(* growth keeps the elements, shrinking keeps the front *)
Prefix == [][\A i \in Ids : Alive(i) /\ vec'[i].alive /\ Len(vec'[i].s) # Size(i) /\ (\A j \in Ids \ {i} : vec'[j] = vec[j] /\ vec'[i].s # Elems(j))
               => \A p \in 1..(IF Len(vec'[i].s) < Size(i) THEN Len(vec'[i].s) ELSE Size(i)) : vec'[i].s[p] = Elems(i)[p]]_vars
Frame == [][\A i, j \in Ids : i # j /\ vec'[i].s # vec[i].s /\ vec'[j].s # vec[j].s => vec'[i].s = vec[j].s /\ vec'[j].s = vec[i].s]_vars
=============================================================================
