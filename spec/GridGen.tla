------------------------------- MODULE GridGen -------------------------------
(* behaviours of Grid: <<kind>>, then <<call, outcome, change, result>>    *)
(* per step. `change' lists per grid what is different after the call:     *)
(*   <<0>> nothing, <<1, cells>> some cells, <<2, alive, dim, extent,      *)
(*   cells>> everything (cells not listed are default constructed).        *)
EXTENDS Grid, Emit, SequencesExt
CONSTANTS Kinds, Ops, Vals
VARIABLES kind, hist
On(o) == o \in Ops

(* ---- sizes: mostly at the borders between supported sizes ---- *)
Around(S, m) == {1, 2} \cup UNION {{s - 1, s, s + 1} \cap 1..m : s \in S}
DimSets(n) ==
  CASE n = "axes"  -> <<Around({8, 16, 24}, 24), Around({4, 12}, 12), Around({2, 6, 10}, 10)>>
    [] n = "uni1"  -> <<Around({4, 10, 64, 100}, 100), {1}, {1}>>
    [] n = "uni2"  -> <<Around({8, 16, 40}, 40), Around({8, 16}, 40), {1}>>
    [] n = "uni3"  -> <<Around({4, 8, 12}, 12), Around({4, 8}, 12), Around({4, 8}, 12)>>
    [] n = "wide"  -> <<{1, 3, 127, 128, 129, 511, 512, 513, 519, 520, 521, 1023, 1025, 1099, 1100}, 1..6, 1..3>>
    [] n = "big1"  -> <<{3, 319999999, 320000000}, {1}, {1}>>
    [] n = "big3"  -> <<{3, 2047, 2048}, {2047, 2048}, {519, 520}>>
    [] n = "asym"  -> <<Around({8, 16}, 16), Around({4, 8}, 8), Around({2, 4}, 4)>>
    [] n = "default"   -> <<{1, 2, 5, 31, 32, 33}, {1, 2, 31, 32}, {1, 2, 3}>>
    [] n = "default1d" -> <<{1, 2, 31, 32, 33, 64, 65, 127, 128, 129, 200}, {1}, {1}>>
Odd(n) == CASE n = "axes" -> {25, 13, 11, 0} [] n = "uni1" -> {101, 2, 0} [] n = "uni2" -> {41, 2, 0}
            [] n = "uni3" -> {13, 0} [] n = "asym" -> {17, 9, 5, 0} [] n = "wide" -> {1101, 7, 4, 0} [] n = "default" -> {0} [] n = "big1" -> {320000001, 2} [] n = "big3" -> {2049}
            [] n = "default1d" -> {0, 2}
GoodDim(x) == TLCEval([a \in 1..3 |-> IF Chance(4) THEN RandomElement({1} \cup {s \in DimSets(kind)[a] : s <= 3})
                              ELSE RandomElement(DimSets(kind)[a])])
OddDim(x) == [GoodDim(x) EXCEPT ![RandomElement(1..3)] = RandomElement(Odd(kind))]
BigDim(x) == IF Chance(6) THEN <<3, 1, 1>> ELSE <<RandomElement(DimSets(kind)[1] \ {3}), RandomElement(DimSets(kind)[2]), RandomElement(DimSets(kind)[3])>>
AnyDim(x) == IF kind \in {"big1", "big3"} /\ ~Chance(6) THEN TLCEval(BigDim(x)) ELSE IF Chance(16) THEN Origin ELSE IF Chance(10) THEN OddDim(x) ELSE GoodDim(x)
Dims(x) == {AnyDim(x)}

(* ---- cells and coordinates ---- *)
Cells(x) == {TLCEval([k \in 1..K |-> RandomElement(Vals)])}
CellSeqs(n) == {TLCEval([i \in 1..n |-> TLCEval([k \in 1..K |-> RandomElement(Vals)])])}
Coord1(n) == IF n = 0 THEN 0 ELSE IF Chance(4) THEN 0 ELSE IF Chance(3) THEN n - 1 ELSE RandomElement(0..n - 1)
Near(p, d) == LET f == TLCEval([a \in 1..3 |-> IF Chance(3) THEN MaxI(0, MinI(d[a] - 1, p[a] + RandomElement({-1, 1}))) ELSE p[a]])
              IN <<f[1], f[2], f[3]>>
(* any coordinate, or one which was written before (or next to one) *)
Pt(g) == TLCEval(IF DOMAIN grid[g].ov # {} /\ Chance(2) THEN Near(RandomElement(DOMAIN grid[g].ov), Dim(g))
           ELSE <<Coord1(Dim(g)[1]), Coord1(Dim(g)[2]), Coord1(Dim(g)[3])>>)
Pts(g) == {Pt(g)}
Left(g, p) == MaxI(0, Dim(g)[1] - p[1])          \* cells up to the end of the row
Big == kind \in {"big1", "big3"}
Lens(g, p) == {IF ~Big /\ Chance(IF kind = "wide" THEN 2 ELSE 6) THEN Left(g, p) ELSE RandomElement(0..MinI(6, Left(g, p)))}
Rel1 == <<<<0, 0, 0>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>,
          <<1, -1, 1>>, <<-2, 1, -1>>, <<3, 2, 1>>, <<-1, -1, 0>>, <<5, 0, 0>>>>
Rel2 == <<<<0, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<1, -1, 1>>, <<0, 2, -1>>>>
(* neighbours which exist *)
RelIdx(g, p) == {x \in (1..Len(Rel1)) \X (1..Len(Rel2)) : InDim(g, Add(Add(p, Rel1[x[1]]), Rel2[x[2]]))}
SomeRel(g, p) == IF ~On("neighbours") THEN {<<1, 1>>} ELSE IF RelIdx(g, p) = {} THEN {} ELSE {RandomElement(RelIdx(g, p))}

(* ---- streaks ---- *)
StreakLen(g, p) == IF ~Big /\ Chance(IF kind = "wide" THEN 2 ELSE 6) THEN Left(g, p) ELSE RandomElement(0..MinI(6, Left(g, p)))
StreakAt(g, p) == <<p, StreakLen(g, p)>>
OneStreak(g) == TLCEval(StreakAt(g, Pt(g)))
Streaks(g, n) == TLCEval([i \in 1..n |-> OneStreak(g)])
StreakSeq(g) == {Streaks(g, n) : n \in {RandomElement(0..4)}}
RECURSIVE Total(_)
Total(st) == IF st = <<>> THEN 0 ELSE Head(st)[2] + Total(Tail(st))
(* streaks of g with the same total length as st: one cell each, scattered *)
SameLen(g, st) == LET n == Total(st) IN {TLCEval([i \in 1..n |-> <<Pt(g), 1>>])}

(* ---- log ---- *)
CellList(ov, S) == SetToSeq({<<p[1], p[2], p[3], ov[p]>> : p \in S})
Change(a, b) ==
  IF a = b THEN <<0>>
  ELSE IF a.alive /\ b.alive /\ a.dim = b.dim /\ DOMAIN a.ov \subseteq DOMAIN b.ov
  THEN <<1, CellList(b.ov, {p \in DOMAIN b.ov : IF p \in DOMAIN a.ov THEN a.ov[p] # b.ov[p] ELSE TRUE})>>
  ELSE <<2, B(b.alive), b.dim, Extent(b.dim), CellList(b.ov, DOMAIN b.ov)>>
Log(call) == /\ hist' = Append(hist, <<call, status', [g \in 1..3 |-> IF g \in Ids THEN Change(grid[g], grid'[g]) ELSE <<0>>], result'>>)
             /\ UNCHANGED kind
G(x) == Pick(Ids)
Fault(x) == IF On("fault") THEN {RandomElement({0, 0, 1})} ELSE {0}

Step ==
  /\ Len(hist) <= Depth
  /\ \/ \E g \in G(1), d \in Dims(1), f \in Fault(1) : Construct(g, d) /\ Log(<<"ctor", g, d, f>>)
     \/ \E g \in G(1), d \in Dims(2) : Construct(g, d) /\ status' = "ok" /\ Log(<<"ctor", g, d, 0>>)
     \/ \E g \in G(1) : Chance(6) /\ Destroy(g) /\ Log(<<"dtor", g>>)
     \/ \E g \in G(1), d \in Dims(1), f \in Fault(1) : On("resize") /\ Chance(3) /\ Resize(g, d) /\ Log(<<"resize", g, d, f>>)
     \/ \E g \in G(1), h \in G(2), f \in Fault(1) : On("value") /\ CopyConstruct(g, h) /\ Log(<<"copy", g, h, f>>)
     \/ \E g \in G(1), h \in G(2), f \in Fault(1) : On("value") /\ Assign(g, h) /\ Log(<<"assign", g, h, f>>)
     \/ \E g \in G(1), h \in G(2) : (On("value") \/ On("swap")) /\ Swap(g, h) /\ Log(<<"swap", g, h>>)
     \/ \E g \in G(1), f \in Fault(1) : On("value") /\ Alive(g) /\ Resize(g, Dim(g)) /\ Log(<<"resize", g, Dim(g), f>>)
     \/ \E g \in G(1) : \E p \in Pts(g), c \in Cells(1) : Set(g, p, c) /\ Log(<<"set", g, p, c>>)
     \/ \E g \in G(1) : \E p \in Pts(g), c \in Cells(1) : Set(g, p, c) /\ Log(<<"set", g, p, c>>)
     \/ \E g \in G(1) : \E p \in Pts(g) : \E n \in Lens(g, p) : \E cs \in CellSeqs(n) : On("row") /\
          SetRow(g, p, cs) /\ Log(<<"setrow", g, p, cs>>)
     \/ \E g \in G(1) : \E p \in Pts(g) : \E n \in Lens(g, p), c \in Cells(1) : On("row") /\
          Broadcast(g, p, c, n) /\ Log(<<"bcast", g, p, c, n>>)
     \/ \E g \in G(1) : \E p \in Pts(g) : \E n \in Lens(g, p) : On("row") /\ GetRow(g, p, n) /\ Log(<<"getrow", g, p, n>>)
     \/ \E g \in G(1) : \E p \in Pts(g) : \E x \in SomeRel(g, p), k \in Pick(1..K), v \in Pick(Vals) : On("acc") /\
          SetMember(g, p, Rel1[x[1]], Rel2[x[2]], k, v) /\ Log(<<"setm", g, p, x[1] - 1, x[2] - 1, k - 1, v>>)
     \/ \E g \in G(1) : \E p \in Pts(g) : \E x \in SomeRel(g, p), c \in Cells(1) : On("acc") /\
          SetCellAt(g, p, Rel1[x[1]], Rel2[x[2]], c) /\ Log(<<"setat", g, p, x[1] - 1, x[2] - 1, c>>)
     \/ \E g \in G(1) : \E p \in Pts(g) : \E x \in SomeRel(g, p) : On("acc") /\
          GetAt(g, p, Rel1[x[1]], Rel2[x[2]]) /\ Log(<<"getat", g, p, x[1] - 1, x[2] - 1>>)
     \/ \E g \in G(1) : \E p \in Pts(g) : \E n \in Lens(g, p), k \in Pick(1..K), v \in Pick(Vals) : On("acc") /\
          WalkRow(g, p, n, k, v) /\ Log(<<"walk", g, p, n, k - 1, v>>)
     \/ \E g \in G(1) : \E st \in StreakSeq(g), extra \in {IF On("tight") THEN 0 ELSE RandomElement({0, 0, 1, 3})} : On("raw") /\ Alive(g) /\ ~Empty(Dim(g)) /\
          Save(g, st, Total(st) + extra) /\ Log(<<"save", g, st, Total(st) + extra>>)
     \/ \E g \in G(1) : \E st \in StreakSeq(g), extra \in {IF On("tight") THEN 0 ELSE RandomElement({0, 0, 1, 3})} : On("raw") /\ Alive(g) /\ ~Empty(Dim(g)) /\
          \E buf \in CellSeqs(Total(st)) : Load(g, st, Total(st) + extra, buf) /\ Log(<<"load", g, st, Total(st) + extra, buf>>)
     \/ \E g \in G(1), h \in G(2) : On("raw") /\ Alive(g) /\ Alive(h) /\ ~Empty(Dim(g)) /\ ~Empty(Dim(h)) /\
          \E stg \in StreakSeq(g) : Total(stg) <= 120 /\ \E sth \in SameLen(h, stg) : Transfer(g, stg, h, sth) /\ Log(<<"transfer", g, stg, h, sth>>)
     \/ \E g \in G(1) : (On("call") \/ On("single")) /\ Callback(g) /\ Log(<<"call", g>>)
     \/ \E g \in G(1), h \in G(2) : On("call") /\ Alive(g) /\ Alive(h) /\
          \E p \in Pts(g), q \in Pts(h) : DualCallback(g, h, p, q, kind = "asym") /\ Log(<<"dual", g, h, p, q>>)
GInit == Init /\ kind \in Kinds /\ traits = Traits(kind) /\ hist = <<<<kind>>>>
Nop  == Len(hist) <= Depth /\ UNCHANGED <<vars, kind, hist>>
Done == Len(hist) = Depth + 1 /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<vars, kind>>
GNext == Step \/ Nop \/ Done
GSpec == GInit /\ [][GNext]_<<vars, kind, hist>>
Emitted == Len(hist) = Depth + 2 => EmitBehaviour(hist)
=============================================================================
