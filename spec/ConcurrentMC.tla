---------------------------- MODULE ConcurrentMC ----------------------------
(* two threads, tiny grids: every interleaving *)
EXTENDS Concurrent
CONSTANTS Vals, Dims, Kind, Steps, Phases, Ops
VARIABLES grid1, grid2,   \* what the grids were if just thread 1 (2) had run since the barrier
          n, phases
S1 == INSTANCE Grid WITH grid <- grid1
S2 == INSTANCE Grid WITH grid <- grid2
On(o) == o \in Ops
Pts == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>}
Cells == [1..K -> Vals]
MCInit == /\ traits = Traits(Kind) /\ status = "ok" /\ result = <<>> /\ n = 0 /\ phases = 0
          /\ grid \in [Ids -> {Dead} \cup {Live(d, NoOv) : d \in Dims}] /\ mode \in [Ids -> Modes]
          /\ grid1 = grid /\ grid2 = grid

(* the same call in the world of thread t alone *)
Solo(t, a1, a2) == IF t = 1 THEN a1 /\ UNCHANGED grid2 ELSE a2 /\ UNCHANGED grid1
Call(t) ==
  \E g \in Ids :
    \/ \E d \in Dims : TConstruct(t, g, d) /\ Solo(t, S1!Construct(g, d), S2!Construct(g, d))
    \/ On("value") /\ TDestroy(t, g) /\ Solo(t, S1!Destroy(g), S2!Destroy(g))
    \/ \E d \in Dims : On("value") /\ TResize(t, g, d) /\ Solo(t, S1!Resize(g, d), S2!Resize(g, d))
    \/ \E h \in Ids : On("value") /\ TCopyConstruct(t, g, h) /\ Solo(t, S1!CopyConstruct(g, h), S2!CopyConstruct(g, h))
    \/ \E h \in Ids : On("value") /\ TAssign(t, g, h) /\ Solo(t, S1!Assign(g, h), S2!Assign(g, h))
    \/ \E h \in Ids : On("value") /\ TSwap(t, g, h) /\ Solo(t, S1!Swap(g, h), S2!Swap(g, h))
    \/ \E p \in Pts, c \in Cells : TSet(t, g, p, c) /\ Solo(t, S1!Set(g, p, c), S2!Set(g, p, c))
    \/ \E p \in Pts : TGetAt(t, g, p, Origin, Origin) /\ Solo(t, S1!GetAt(g, p, Origin, Origin), S2!GetAt(g, p, Origin, Origin))
    \/ \E p \in Pts, c \in Cells, l \in 0..2 : On("row") /\ TBroadcast(t, g, p, c, l) /\ Solo(t, S1!Broadcast(g, p, c, l), S2!Broadcast(g, p, c, l))
    \/ \E p, q \in Pts, h \in Ids : On("raw") /\ TTransfer(t, g, <<<<p, 1>>>>, h, <<<<q, 1>>>>)
          /\ Solo(t, S1!Transfer(g, <<<<p, 1>>>>, h, <<<<q, 1>>>>), S2!Transfer(g, <<<<p, 1>>>>, h, <<<<q, 1>>>>))
    \/ \E p, q \in Pts, h \in Ids : On("call") /\ TDual(t, g, h, p, q, FALSE)
          /\ Solo(t, S1!DualCallback(g, h, p, q, FALSE), S2!DualCallback(g, h, p, q, FALSE))
MCStep == n < Steps /\ n' = n + 1 /\ (\E t \in Threads : Call(t)) /\ UNCHANGED <<mode, phases>>
MCBarrier == phases < Phases /\ phases' = phases + 1 /\ Barrier /\ grid1' = grid /\ grid2' = grid /\ UNCHANGED n
Spec == MCInit /\ [][MCStep \/ MCBarrier]_<<vars, mode, grid1, grid2, n, phases>>
View == <<traits, grid, mode, grid1, grid2, n, phases>>

Same(t, w) == \A g \in Ids : Visible(t, g) =>
  /\ w[g].alive = grid[g].alive /\ w[g].dim = grid[g].dim
  /\ \A p \in DOMAIN grid[g].ov \cup DOMAIN w[g].ov : MayRead(t, g, p) =>
       Cell(g, p) = IF p \in DOMAIN w[g].ov THEN w[g].ov[p] ELSE DefaultCell
SoloView == Same(1, grid1) /\ Same(2, grid2)
MCDims == {<<2, 2, 1>>}
=============================================================================
