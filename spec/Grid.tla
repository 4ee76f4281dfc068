-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* soa_grid: maps from coordinates to cells.                               *)
(*                                                                         *)
(* Several grid objects of one cell type.  A cell is a tuple of K member   *)
(* slots (array members contribute one slot per index).  A grid's content  *)
(* is kept sparsely: coordinates which are not in the domain of `ov' hold  *)
(* the default cell.  One action per public call; `status' is what the     *)
(* call reports to its caller, `result' what it returns (save) or what the *)
(* functors see (callbacks).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ids,       \* grid objects
          K          \* member slots per cell

VARIABLES traits,    \* size traits of the cell type (fixed for a behaviour)
          grid,      \* the objects
          status,    \* "ok", "out_of_range", "invalid_argument", "bad_alloc"
          result     \* returned data

vars == <<traits, grid, status, result>>

(* ---------------- size selection ---------------- *)
Lists == [
  d1 |-> {32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800, 65568, 131104, 262176,
          524320, 1048608, 2097184, 4194336, 8388640, 16777248, 33554464, 67108896, 134217760, 268435488,
          536870944, 1073741856},
  d2 |-> {32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800},
  d3 |-> {32, 64, 128, 136, 192, 200, 256, 264, 512, 520, 1032} ]

(* a size traits record: mode and the sets of supported sizes per axis     *)
T(mode, xs, ys, zs) == [mode |-> mode, x |-> xs, y |-> ys, z |-> zs]
Traits(name) ==
  CASE name = "default"   -> T("default", {}, {}, {})               \* no traits given
    [] name = "default1d" -> T("uniform1", Lists.d1, {}, {})
    [] name = "default2d" -> T("axes", Lists.d2, Lists.d2, {1})
    [] name = "default2du" -> T("uniform2", Lists.d2, {}, {})
    [] name = "default3d" -> T("axes", Lists.d3, Lists.d3, Lists.d3)
    [] name = "default3du" -> T("uniform3", Lists.d3, {}, {})
    [] name = "axes"      -> T("axes", {8, 16, 24}, {4, 12}, {2, 6, 10})
    [] name = "uni1"      -> T("uniform1", {4, 10, 64, 100}, {}, {})
    [] name = "uni2"      -> T("uniform2", {8, 16, 40}, {}, {})
    [] name = "uni3"      -> T("uniform3", {4, 8, 12}, {}, {})
    [] name = "wide"      -> T("axes", {520, 1100}, {1, 6}, {1, 3})
    \* (big3: more than 2^31 cells; big1: more than 2^32 bytes)
    [] name = "big1"      -> T("uniform1", {4, 320000000}, {}, {})
    [] name = "big3"      -> T("axes", {4, 2048}, {4, 2048}, {2, 520})
    [] name = "asym"      -> T("axes", {8, 16}, {4, 8}, {2, 4})

None == -1
Fit(sizes, d) == IF \E s \in sizes : s >= d
                 THEN CHOOSE s \in sizes : s >= d /\ \A r \in sizes : r >= d => s <= r
                 ELSE None
MaxOf(a, b) == IF a > b THEN a ELSE b
U1(l, d) == IF d[2] = 1 /\ d[3] = 1 THEN <<Fit(l, d[1]), 1, 1>> ELSE <<None, None, None>>
U2(l, d) == LET s == Fit(l, MaxOf(d[1], d[2])) IN IF d[3] = 1 THEN <<s, s, 1>> ELSE <<None, None, None>>
U3(l, d) == LET s == Fit(l, MaxOf(d[1], MaxOf(d[2], d[3]))) IN <<s, s, s>>
Select(t, d) ==
  CASE t.mode = "axes"     -> <<Fit(t.x, d[1]), Fit(t.y, d[2]), Fit(t.z, d[3])>>
    [] t.mode = "uniform1" -> U1(t.x, d)
    [] t.mode = "uniform2" -> U2(t.x, d)
    [] t.mode = "uniform3" -> U3(t.x, d)
    [] t.mode = "default"  -> IF d[2] > 1 /\ d[3] > 1 THEN U3(Lists.d3, d)
                              ELSE IF d[2] > 1        THEN U2(Lists.d2, d)
                              ELSE                         U1(Lists.d1, d)
Origin == <<0, 0, 0>>
Empty(d) == d = Origin
Supported(d) == Empty(d) \/ None \notin {Select(traits, d)[a] : a \in 1..3}
Extent(d) == IF Empty(d) THEN Origin ELSE Select(traits, d)

(* ---------------- state ---------------- *)
NoOv == [p \in {} |-> <<>>]
Live(d, ov) == [alive |-> TRUE, dim |-> d, ov |-> ov]
Dead == [alive |-> FALSE, dim |-> Origin, ov |-> NoOv]
DefaultCell == [k \in 1..K |-> 0]

Alive(g) == grid[g].alive
Dim(g)   == grid[g].dim
InDim(g, p) == \A a \in 1..3 : p[a] >= 0 /\ p[a] < Dim(g)[a]
Cell(g, p) == IF p \in DOMAIN grid[g].ov THEN grid[g].ov[p] ELSE DefaultCell
RowEnd(p, n) == <<p[1] + n - 1, p[2], p[3]>>
InRow(g, p, n) == ~Empty(Dim(g)) /\ (n = 0 \/ (InDim(g, p) /\ InDim(g, RowEnd(p, n))))
Add(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>

Init == /\ grid = [g \in Ids |-> Dead] /\ status = "ok" /\ result = <<>>

Return(s, r) == status' = s /\ result' = r /\ UNCHANGED traits
Reject(s)    == UNCHANGED grid /\ Return(s, <<>>)
Put(g, x)    == grid' = [grid EXCEPT ![g] = x]
Write(g, m)  == Put(g, [grid[g] EXCEPT !.ov = m @@ @])

(* ---------------- life cycle ---------------- *)
Construct(g, d) == /\ ~Alive(g)
                   /\ IF Supported(d) THEN Put(g, Live(d, NoOv)) /\ Return("ok", <<>>)
                      ELSE Reject("out_of_range")
Destroy(g) == Alive(g) /\ Put(g, Dead) /\ Return("ok", <<>>)
CopyConstruct(g, h) == ~Alive(g) /\ Alive(h) /\ Put(g, grid[h]) /\ Return("ok", <<>>)
Assign(g, h)        ==  Alive(g) /\ Alive(h) /\ Put(g, grid[h]) /\ Return("ok", <<>>)
Swap(g, h) == /\ Alive(g) /\ Alive(h)
              /\ grid' = [grid EXCEPT ![g] = grid[h], ![h] = grid[g]]
              /\ Return("ok", <<>>)
Resize(g, d) == /\ Alive(g)
                /\ IF d = Dim(g) THEN UNCHANGED grid /\ Return("ok", <<>>)
                   ELSE IF Supported(d) THEN Put(g, Live(d, NoOv)) /\ Return("ok", <<>>)
                   ELSE Reject("out_of_range")
(* lack of memory: the grid keeps its state or is emptied, the caller may  *)
(* retry; objects under construction do not come into existence            *)
OutOfMemory(g) == /\ \/ UNCHANGED grid
                     \/ Alive(g) /\ Put(g, Live(Origin, NoOv))
                  /\ Return("bad_alloc", <<>>)

(* ---------------- cells ---------------- *)
Set(g, p, c) == Alive(g) /\ InDim(g, p) /\ Write(g, p :> c) /\ Return("ok", <<>>)
RowMap(p, cs) == [q \in {<<p[1] + i - 1, p[2], p[3]>> : i \in 1..Len(cs)} |-> cs[q[1] - p[1] + 1]]
SetRow(g, p, cs) == Alive(g) /\ InRow(g, p, Len(cs)) /\ Write(g, RowMap(p, cs)) /\ Return("ok", <<>>)
Broadcast(g, p, c, n) == Alive(g) /\ InRow(g, p, n) /\ Write(g, RowMap(p, [i \in 1..n |-> c])) /\ Return("ok", <<>>)
(* an accessor positioned at p, moved by r and s, writes slot k *)
SetMember(g, p, r, s, k, v) ==
  LET q == Add(Add(p, r), s)
  IN /\ Alive(g) /\ InDim(g, p) /\ InDim(g, q)
     /\ Write(g, q :> [Cell(g, q) EXCEPT ![k] = v]) /\ Return("ok", <<>>)
(* same, whole cell *)
SetCellAt(g, p, r, s, c) ==
  LET q == Add(Add(p, r), s)
  IN Alive(g) /\ InDim(g, p) /\ InDim(g, q) /\ Write(g, q :> c) /\ Return("ok", <<>>)

(* an accessor walks along a row from p and writes slot k of n cells *)
WalkRow(g, p, n, k, v) ==
  /\ Alive(g) /\ InRow(g, p, n)
  /\ Write(g, [q \in {<<p[1] + i - 1, p[2], p[3]>> : i \in 1..n} |-> [Cell(g, q) EXCEPT ![k] = v]])
  /\ Return("ok", <<>>)
(* reading does not change anything *)
GetRow(g, p, n) ==
  /\ Alive(g) /\ InRow(g, p, n) /\ UNCHANGED grid
  /\ Return("ok", [i \in 1..n |-> Cell(g, <<p[1] + i - 1, p[2], p[3]>>)])
GetAt(g, p, r, s) ==
  LET q == Add(Add(p, r), s)
  IN Alive(g) /\ InDim(g, p) /\ InDim(g, q) /\ UNCHANGED grid /\ Return("ok", <<Cell(g, q)>>)

(* ---------------- raw transfer ---------------- *)
(* streaks: sequence of <<origin, length>>; buffer: sequence of cells      *)
RECURSIVE Coords(_)
Coords(st) == IF st = <<>> THEN <<>>
              ELSE [i \in 1..Head(st)[2] |-> <<Head(st)[1][1] + i - 1, Head(st)[1][2], Head(st)[1][3]>>] \o Coords(Tail(st))
StreaksOk(g, st) == ~Empty(Dim(g)) /\ \A i \in 1..Len(st) : InRow(g, st[i][1], st[i][2])
(* count is the buffer's stride and may exceed the number of cells moved   *)
Save(g, st, count) ==
  LET cs == Coords(st) IN
  /\ Alive(g) /\ StreaksOk(g, st) /\ Len(cs) <= count
  /\ UNCHANGED grid /\ Return("ok", [i \in 1..Len(cs) |-> Cell(g, cs[i])])
(* cells are written in order, i.e. the last one wins *)
WriteAll(ov, cs, buf) ==
  LET last(q) == CHOOSE i \in 1..Len(cs) : cs[i] = q /\ \A j \in i + 1..Len(cs) : cs[j] # q
  IN [q \in {cs[i] : i \in 1..Len(cs)} |-> buf[last(q)]] @@ ov
Load(g, st, count, buf) ==
  LET cs == Coords(st) IN
  /\ Alive(g) /\ StreaksOk(g, st) /\ Len(cs) <= count /\ Len(buf) = Len(cs)
  /\ Put(g, [grid[g] EXCEPT !.ov = WriteAll(@, cs, buf)]) /\ Return("ok", <<>>)
(* save from one grid, load into another *)
Transfer(g, stg, h, sth) ==
  LET cg == Coords(stg) ch == Coords(sth) IN
  /\ Alive(g) /\ Alive(h) /\ StreaksOk(g, stg) /\ StreaksOk(h, sth) /\ Len(cg) = Len(ch)
  /\ Put(h, [grid[h] EXCEPT !.ov = WriteAll(@, ch, [i \in 1..Len(cg) |-> Cell(g, cg[i])])])
  /\ Return("ok", <<>>)

(* ---------------- callbacks ---------------- *)
(* the functor sees its grid's extents *)
Callback(g) == Alive(g) /\ ~Empty(Dim(g)) /\ UNCHANGED grid /\ Return("ok", Extent(Dim(g)))
(* the functor copies the cell at p of g to q of h, and reports extents    *)
DualCallback(g, h, p, q, asymmetric) ==
  /\ Alive(g) /\ Alive(h) /\ ~Empty(Dim(g)) /\ ~Empty(Dim(h))
  /\ IF ~asymmetric /\ Dim(g) # Dim(h) THEN Reject("invalid_argument")
     ELSE /\ InDim(g, p) /\ InDim(h, q)
          /\ Write(h, q :> Cell(g, p))
          /\ Return("ok", <<Extent(Dim(g)), Extent(Dim(h))>>)

(* ---------------- properties ---------------- *)
TypeOK == \A g \in Ids : /\ \A p \in DOMAIN grid[g].ov : InDim(g, p)
                         /\ ~Alive(g) => grid[g] = Dead
ExtentsFit == \A g \in Ids : Alive(g) =>
                 LET e == Extent(Dim(g)) IN \A a \in 1..3 : e[a] # None /\ e[a] >= Dim(g)[a]
(* rejected calls leave everything as it was *)
FailureIsNoop == [][status' \in {"out_of_range", "invalid_argument"} => grid' = grid]_vars
(* no call changes two grids, unless it exchanges them *)
Frame == [][\A g, h \in Ids : g # h /\ grid'[g] # grid[g] /\ grid'[h] # grid[h]
                => grid'[g] = grid[h] /\ grid'[h] = grid[g]]_vars
(* reads do not change anything *)
ReadsArePure == [][result' # <<>> /\ result' # result => Cardinality({g \in Ids : grid'[g] # grid[g]}) <= 1]_vars
=============================================================================
