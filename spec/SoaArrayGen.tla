----------------------------- MODULE SoaArrayGen -----------------------------
(* behaviours of SoaArray, recorded as <<call, outcome, state>> per step   *)
EXTENDS SoaArray, Emit
CONSTANTS Vals, MaxCtor, Exhaustive
VARIABLE hist
GenCap(i) == CASE i = 1 -> 5 [] i = 2 -> 5 [] i = 3 -> 8 [] i = 4 -> 3
ExhCap(i) == CASE i = 4 -> 3 [] OTHER -> 5
Cells(x) == IF Exhaustive THEN {[k \in 1..K |-> v + k] : v \in Vals}
            ELSE {[k \in 1..K |-> RandomElement(Vals)]}
Obs(a) == [i \in 1..4 |-> IF i \in Ids THEN <<B(a[i].alive), a[i].s>> ELSE <<0, <<>>>>]
Log(call) == hist' = Append(hist, <<call, status', Obs(arr')>>)
Pos(i) == Pick(1..MaxI(1, Size(i)))
Step ==
  /\ Len(hist) < Depth
  /\ \/ \E i \in Pick(Ids), n \in Pick(0..MaxCtor), c \in Cells(hist) :
          Construct(i, n, c) /\ Log(<<"ctor", i, n, c>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : CopyConstruct(i, j) /\ Log(<<"copy", i, j>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : Assign(i, j) /\ Log(<<"assign", i, j>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : Swap(i, j) /\ Log(<<"swap", i, j>>)
     \/ \E i \in Pick(Ids) : \E j \in Ids \ {i} : ~Exhaustive /\ Swap(i, j) /\ Log(<<"swap", i, j>>)
     \/ \E i \in Pick(Ids) : Relocate(i) /\ Log(<<"move", i>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : Send(i, j) /\ Log(<<"send", i, j>>)
     \/ \E i \in Pick(Ids) : Destroy(i) /\ Log(<<"dtor", i>>)
     \/ \E i \in Pick(Ids) : Pop(i) /\ Log(<<"pop", i>>)
     \/ \E i \in Pick(Ids) : (IF Exhaustive THEN TRUE ELSE Chance(3)) /\ Clear(i) /\ Log(<<"clear", i>>)
     \/ \E i \in Pick(Ids), c \in Cells(hist) : Push(i, c) /\ Log(<<"push", i, c>>)
     \/ \E i \in Pick(Ids), c \in Cells(hist) : ~Exhaustive /\ Push(i, c) /\ Log(<<"push", i, c>>)
     \/ \E i \in Pick(Ids) : \E p \in Pos(i), c \in Cells(hist) : SetCell(i, p, c) /\ Log(<<"set", i, p - 1, c>>)
     \/ \E i \in Pick(Ids) : \E p \in Pos(i), k \in Pick(1..K), v \in Pick(Vals) :
          SetMember(i, p, k, v) /\ ~Exhaustive /\ Log(<<"setm", i, p - 1, k - 1, v>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : \E from \in Pos(j) : \E num \in Pick(0..MaxI(0, Size(j) - from + 1)) :
          \/ LoadAppend(i, j, from, num) /\ Log(<<"loadapp", i, j, from - 1, num>>)
          \/ \E off \in Pick(0..8) : LoadAt(i, j, from, num, off) /\ Log(<<"load", i, j, from - 1, num, off>>)
GInit == Init /\ hist = <<>>
(* random mode *)
Nop  == Len(hist) < Depth /\ UNCHANGED <<vars, hist>>
Done == Len(hist) = Depth /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED vars
GNext == Step \/ Nop \/ Done
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emitted == Len(hist) = Depth + 1 => EmitBehaviour(hist)
(* exhaustive mode *)
ESpec == GInit /\ [][Step]_<<vars, hist>>
EView == vars
EmitTransition == EmitBehaviour(hist')
=============================================================================
