---------------------------- MODULE ConcurrentGen ----------------------------
(* behaviours of Concurrent, see GridGen; each step also tells its thread *)
EXTENDS Concurrent, GridGen
Log5(t, call) == /\ hist' = Append(hist, <<call, status', [g \in 1..3 |-> IF g \in Ids THEN Change(grid[g], grid'[g]) ELSE <<0>>], result', t>>)
                 /\ UNCHANGED <<kind, mode>>
(* a point which the thread owns *)
Own(t, g) == IF ~Visible(t, g) \/ ~Alive(g) \/ Empty(Dim(g)) THEN {}
             ELSE LET S == TLCEval({p \in {Pt(g) : i \in 1..6} : MayWrite(t, g, p)}) IN IF S = {} THEN {} ELSE {RandomElement(S)}
See(t, g) == IF ~Visible(t, g) \/ ~Alive(g) \/ Empty(Dim(g)) THEN {}
             ELSE LET S == TLCEval({p \in {Pt(g) : i \in 1..6} : MayRead(t, g, p)}) IN IF S = {} THEN {} ELSE {RandomElement(S)}
Run(g, p, ok(_)) == LET S == TLCEval({n \in 0..MinI(9, Left(g, p)) : \A q \in Row(p, n) : ok(q)})
                    IN IF Chance(2) THEN {CHOOSE n \in S : \A m \in S : m <= n} ELSE {RandomElement(S)}
Mine(t, g, p) == LET ok(q) == MayWrite(t, g, q) IN Run(g, p, ok)
Seen(t, g, p) == LET ok(q) == MayRead(t, g, q) IN Run(g, p, ok)
RECURSIVE SomeStreaks(_, _, _, _)
SomeStreaks(t, g, n, w) == IF n = 0 THEN <<>> ELSE
  LET P == TLCEval(IF w THEN Own(t, g) ELSE See(t, g)) IN
  IF P = {} THEN <<>> ELSE LET p == CHOOSE q \in P : TRUE IN
    Append(SomeStreaks(t, g, n - 1, w), <<p, CHOOSE l \in TLCEval(IF w THEN Mine(t, g, p) ELSE Seen(t, g, p)) : TRUE>>)
StreaksOf(t, g, w) == {TLCEval(SomeStreaks(t, g, n, w)) : n \in {RandomElement({0, 1, 1, 2, 3})}}
Rels(t, g, p, w) == LET S == {x \in RelIdx(g, p) : LET q == Add(Add(p, Rel1[x[1]]), Rel2[x[2]]) IN IF w THEN MayWrite(t, g, q) ELSE MayRead(t, g, q)}
                    IN IF S = {} THEN {} ELSE {RandomElement(S)}
AnyPt(t, g) == IF ~Visible(t, g) \/ ~Alive(g) \/ Empty(Dim(g)) THEN {} ELSE Pts(g)
DimsC(x) == {TLCEval(IF Chance(10) THEN Origin ELSE GoodDim(x))}
H(x) == Pick(Ids)
SomeMode(g) == IF Alive(g) /\ ~Empty(Dim(g)) /\ ~Chance(4) THEN RandomElement({<<"shared">>, <<"rows">>, <<"cells">>, <<"blocks">>}) ELSE <<"local", RandomElement(Threads)>>

TStep(t) ==
  \/ \E g \in G(1), d \in DimsC(1) : TConstruct(t, g, d) /\ Log5(t, <<"ctor", g, d, 0>>)
  \/ \E g \in G(1) : Chance(8) /\ TDestroy(t, g) /\ Log5(t, <<"dtor", g>>)
  \/ \E g \in G(1), d \in DimsC(1) : Chance(4) /\ TResize(t, g, d) /\ Log5(t, <<"resize", g, d, 0>>)
  \/ \E g \in G(1), h \in H(2) : TCopyConstruct(t, g, h) /\ Log5(t, <<"copy", g, h, 0>>)
  \/ \E g \in G(1), h \in H(2) : Chance(2) /\ TAssign(t, g, h) /\ Log5(t, <<"assign", g, h, 0>>)
  \/ \E g \in G(1), h \in H(2) : Chance(2) /\ TSwap(t, g, h) /\ Log5(t, <<"swap", g, h>>)
  \/ \E g \in G(1) : \E p \in Own(t, g), c \in Cells(1) : TSet(t, g, p, c) /\ Log5(t, <<"set", g, p, c>>)
  \/ \E g \in G(1) : \E p \in Own(t, g) : \E n \in Mine(t, g, p) : \E cs \in CellSeqs(n) : TSetRow(t, g, p, cs) /\ Log5(t, <<"setrow", g, p, cs>>)
  \/ \E g \in G(1) : \E p \in Own(t, g) : \E n \in Mine(t, g, p), c \in Cells(1) : TBroadcast(t, g, p, c, n) /\ Log5(t, <<"bcast", g, p, c, n>>)
  \/ \E g \in G(1) : \E p \in See(t, g) : \E n \in Seen(t, g, p) : TGetRow(t, g, p, n) /\ Log5(t, <<"getrow", g, p, n>>)
  \/ \E g \in G(1) : \E p \in AnyPt(t, g) : \E x \in Rels(t, g, p, TRUE), k \in Pick(1..K), v \in Pick(Vals) :
       TSetMember(t, g, p, Rel1[x[1]], Rel2[x[2]], k, v) /\ Log5(t, <<"setm", g, p, x[1] - 1, x[2] - 1, k - 1, v>>)
  \/ \E g \in G(1) : \E p \in AnyPt(t, g) : \E x \in Rels(t, g, p, TRUE), c \in Cells(1) :
       TSetCellAt(t, g, p, Rel1[x[1]], Rel2[x[2]], c) /\ Log5(t, <<"setat", g, p, x[1] - 1, x[2] - 1, c>>)
  \/ \E g \in G(1) : \E p \in AnyPt(t, g) : \E x \in Rels(t, g, p, FALSE) :
       TGetAt(t, g, p, Rel1[x[1]], Rel2[x[2]]) /\ Log5(t, <<"getat", g, p, x[1] - 1, x[2] - 1>>)
  \/ \E g \in G(1) : \E p \in Own(t, g) : \E n \in Mine(t, g, p), k \in Pick(1..K), v \in Pick(Vals) :
       TWalkRow(t, g, p, n, k, v) /\ Log5(t, <<"walk", g, p, n, k - 1, v>>)
  \/ \E g \in G(1) : Visible(t, g) /\ Alive(g) /\ \E st \in StreaksOf(t, g, FALSE), extra \in {RandomElement({0, 0, 1, 3})} :
       TSave(t, g, st, Total(st) + extra) /\ Log5(t, <<"save", g, st, Total(st) + extra>>)
  \/ \E g \in G(1) : Visible(t, g) /\ Alive(g) /\ \E st \in StreaksOf(t, g, TRUE), extra \in {RandomElement({0, 0, 1, 3})} :
       \E buf \in CellSeqs(Total(st)) : TLoad(t, g, st, Total(st) + extra, buf) /\ Log5(t, <<"load", g, st, Total(st) + extra, buf>>)
  \/ \E g \in G(1) : TCallback(t, g) /\ Log5(t, <<"call", g>>)
  \/ \E g \in G(1), h \in H(2) : \E p \in See(t, g), q \in Own(t, h) :
       TDual(t, g, h, p, q, kind = "asym") /\ Log5(t, <<"dual", g, h, p, q>>)
CStep == /\ Len(hist) <= Depth
         /\ \/ \E t \in Pick(Threads) : TStep(t)
            \/ /\ Chance(12)
               /\ \E m \in {TLCEval([g \in Ids |-> SomeMode(g)])} :
                     mode' = m /\ UNCHANGED <<grid, kind>> /\ Return("ok", <<>>)
                     /\ hist' = Append(hist, <<<<"barrier">>, "ok", <<<<0>>, <<0>>, <<0>>>>, <<>>, 0>>)
CGInit == CInit /\ kind \in Kinds /\ traits = Traits(kind) /\ hist = <<<<kind>>>>
CNop == Len(hist) <= Depth /\ UNCHANGED <<vars, kind, hist, mode>>
CDone == Len(hist) = Depth + 1 /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<vars, kind, mode>>
CGSpec == CGInit /\ [][CStep \/ CNop \/ CDone]_<<vars, kind, hist, mode>>
=============================================================================
