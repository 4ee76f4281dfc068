----------------------------- MODULE SoaArrayMC -----------------------------
(* exhaustive exploration: all call sequences over three small arrays      *)
EXTENDS SoaArray, TLC
CONSTANTS Vals
MCCap(i) == IF i = 3 THEN 3 ELSE 2
Cells == [1..K -> Vals]
Next ==
  \E i \in Ids :
    \/ \E n \in 0..4, c \in Cells : Construct(i, n, c)
    \/ \E j \in Ids : CopyConstruct(i, j) \/ Assign(i, j) \/ Send(i, j) \/ Swap(i, j)
    \/ Destroy(i) \/ Relocate(i) \/ Pop(i) \/ Clear(i)
    \/ \E c \in Cells : Push(i, c) \/ \E p \in 1..3 : SetCell(i, p, c)
    \/ \E p \in 1..3, k \in 1..K, v \in Vals : SetMember(i, p, k, v)
    \/ \E j \in Ids, from \in 1..3, num \in 0..3 :
         LoadAppend(i, j, from, num) \/ \E off \in 0..3 : LoadAt(i, j, from, num, off)
Spec == Init /\ [][Next]_vars
=============================================================================
