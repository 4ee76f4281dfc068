----------------------------- MODULE SoaVectorMC -----------------------------
EXTENDS SoaVector
CONSTANTS Vals, Max
Cells == {[k \in 1..K |-> v] : v \in Vals}
MCInit == Init /\ max = Max
MCNext ==
  \E i \in Ids :
     \/ Destroy(i) \/ Pop(i) \/ Clear(i)
     \/ \E n \in 0..Max + 1 : Construct(i, n) \/ Resize(i, n) \/ Reserve(i, n) \/ \E c \in Cells : ConstructV(i, n, c)
     \/ \E j \in Ids : CopyConstruct(i, j) \/ Assign(i, j) \/ Swap(i, j)
     \/ \E c \in Cells : Push(i, c) \/ PushMany(i, <<c, c>>) \/ \E p \in 1..Size(i) : SetCell(i, p, c)
     \/ \E p \in 1..Size(i), k \in 1..K, v \in Vals : SetMember(i, p, k, v)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
