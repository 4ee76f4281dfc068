------------------------------- MODULE GridMC -------------------------------
(* exhaustive exploration with tiny grids *)
EXTENDS Grid
CONSTANTS Vals, Dims, Kind, Asym, Ops
Pts == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>}
Rel == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<-1, 0, 0>>, <<0, -1, 0>>}
Cells == [1..K -> Vals]
RawPts == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>}
Streaks == {<<>>} \cup {<<<<p, n>>>> : p \in RawPts, n \in 1..2}
           \cup {<<<<p, 1>>, <<q, 1>>>> : p, q \in RawPts}
MInit == Init /\ traits = Traits(Kind)
On(o) == o \in Ops
Next ==
  \E g \in Ids :
    \/ \E d \in Dims : Construct(g, d)
    \/ \E d \in Dims : On("value") /\ Resize(g, d)
    \/ On("value") /\ (Destroy(g) \/ OutOfMemory(g))
    \/ \E h \in Ids : On("value") /\ (CopyConstruct(g, h) \/ Assign(g, h) \/ Swap(g, h))
    \/ \E p \in Pts, c \in Cells : Set(g, p, c)
    \/ \E p \in Pts, c \in Cells, n \in 0..2 : On("row") /\ Broadcast(g, p, c, n)
    \/ \E p \in Pts, c, c2 \in Cells : On("row") /\ SetRow(g, p, <<c, c2>>)
    \/ \E p \in Pts, c \in Cells, r \in Rel, s \in Rel : On("acc") /\ SetCellAt(g, p, r, s, c)
    \/ \E p \in Pts, r \in Rel, s \in Rel, k \in 1..K, v \in Vals : On("acc") /\ SetMember(g, p, r, s, k, v)
    \/ \E p \in Pts, r \in Rel, s \in Rel : On("acc") /\ GetAt(g, p, r, s)
    \/ \E p \in Pts, n \in 0..2 : On("row") /\ GetRow(g, p, n)
    \/ \E p \in Pts, n \in 0..2, k \in 1..K, v \in Vals : On("acc") /\ WalkRow(g, p, n, k, v)
    \/ \E st \in Streaks : On("raw") /\ Save(g, st, 3)
    \/ \E st \in Streaks, c \in Cells : On("raw") /\ Load(g, st, 3, [i \in 1..Len(Coords(st)) |-> c])
    \/ \E st, st2 \in Streaks, h \in Ids : On("raw") /\ Transfer(g, st, h, st2)
    \/ On("call") /\ Callback(g)
    \/ \E h \in Ids, p, q \in Pts : On("call") /\ DualCallback(g, h, p, q, Asym)
Spec == MInit /\ [][Next]_vars
MCView == <<traits, grid>>
SmallDims == {<<0, 0, 0>>, <<2, 1, 1>>, <<2, 2, 1>>, <<1, 1, 2>>}
RawDims == {<<0, 0, 0>>, <<2, 1, 1>>, <<2, 2, 1>>}
ValueDims == {<<0, 0, 0>>, <<1, 1, 1>>, <<2, 1, 1>>, <<1, 1, 2>>}
RawDims1 == {<<2, 1, 1>>, <<1, 2, 1>>}
CallDims == {<<0, 0, 0>>, <<1, 1, 1>>, <<2, 1, 2>>, <<3, 5, 1>>}
SmallDims3 == {<<0, 0, 0>>, <<1, 1, 1>>, <<2, 1, 2>>, <<2, 2, 1>>, <<3, 5, 1>>}
=============================================================================
