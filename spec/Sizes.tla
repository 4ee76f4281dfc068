------------------------------- MODULE Sizes --------------------------------
(* Size selection on its own: for all interesting sizes of all kinds of    *)
(* size traits (incl. those with very large extents).  One state per kind  *)
(* and size along X; the behaviour lists all combinations with Y and Z.    *)
EXTENDS Grid, Emit, SequencesExt
CONSTANTS Kinds, Dense          \* Dense: all sizes up to this limit are added
VARIABLES kind, x
Huge == 2147483647              \* stands for anything beyond all supported sizes
Around(S) == {0, 1, 2, Huge} \cup UNION {{s - 1, s, s + 1} : s \in S} \cup (1..Dense)
Few(S) == {0, 1, 2, 3, Huge} \cup S \cup {s + 1 : s \in S}
Xs(n) == LET t == Traits(n) IN IF t.mode = "default" THEN Around(Lists.d1) ELSE Around(t.x)
Ys(n) == LET t == Traits(n) IN
  CASE t.mode = "default"  -> Few(Lists.d2) \cup Few(Lists.d3)
    [] t.mode = "uniform1" -> {0, 1, 2, Huge}
    [] t.mode = "axes"     -> Around(t.y)
    [] OTHER               -> Few(t.x)
Zs(n) == LET t == Traits(n) IN
  CASE t.mode = "default"  -> Few(Lists.d3)
    [] t.mode \in {"uniform1", "uniform2"} -> {0, 1, 2, Huge}
    [] t.mode = "axes"     -> Around(t.z)
    [] OTHER               -> Few(t.x)
(* here a size of 0 in all dimensions is nothing special *)
Result(n, d) == LET e == Select(Traits(n), d) IN
                IF None \in {e[a] : a \in 1..3} THEN <<"out_of_range", <<0, 0, 0>>>> ELSE <<"ok", e>>
SInit == /\ kind \in Kinds /\ x \in Xs(kind) /\ traits = Traits(kind)
         /\ grid = <<>> /\ status = "ok" /\ result = <<>>
SSpec == SInit /\ [][UNCHANGED <<vars, kind, x>>]_<<vars, kind, x>>

(* independent characterization of the selected extents *)
AxisOK(list, d, e) == e \in list /\ e >= d /\ \A s \in list : s >= d => e <= s
Correct(n, d) ==
  LET t == Traits(n) r == Result(n, d) e == r[2] IN
  IF r[1] = "ok"
  THEN CASE t.mode = "axes" -> AxisOK(t.x, d[1], e[1]) /\ AxisOK(t.y, d[2], e[2]) /\ AxisOK(t.z, d[3], e[3])
         [] t.mode = "uniform1" -> AxisOK(t.x, d[1], e[1]) /\ e[2] = 1 /\ e[3] = 1
         [] t.mode = "uniform2" -> e[1] = e[2] /\ e[3] = 1 /\ e[1] \in t.x /\ e[1] >= d[1] /\ e[1] >= d[2]
                                   /\ \A s \in t.x : s < e[1] => s < d[1] \/ s < d[2]
         [] t.mode = "uniform3" -> e[1] = e[2] /\ e[2] = e[3] /\ e[1] \in t.x /\ \A a \in 1..3 : e[1] >= d[a]
         [] OTHER -> \A a \in 1..3 : e[a] >= d[a]
  ELSE \/ t.mode = "axes" /\ ((\A s \in t.x : s < d[1]) \/ (\A s \in t.y : s < d[2]) \/ (\A s \in t.z : s < d[3]))
       \/ t.mode \in {"uniform1", "uniform2"} /\ d[3] # 1
       \/ t.mode = "uniform1" /\ d[2] # 1
       \/ t.mode \in {"uniform1", "uniform2", "uniform3"} /\ \E a \in 1..3 : \A s \in t.x : s < d[a]
       \/ t.mode = "default"
AllCorrect == \A y \in Ys(kind), z \in Zs(kind) : Correct(kind, <<x, y, z>>)
Steps == SetToSeq({<<<<"select", x, y, z>>, Result(kind, <<x, y, z>>)[1], Result(kind, <<x, y, z>>)[2]>> : y \in Ys(kind), z \in Zs(kind)})
Emitted == EmitBehaviour(<<<<kind>>>> \o Steps \o <<<<"end">>>>)
=============================================================================
