---------------------------- MODULE CudaArrayGen ----------------------------
(* behaviours of CudaArray, <<call, outcome, state>> per step              *)
EXTENDS CudaArray, Emit
UnsetVal == -1
CONSTANTS Vals, Exhaustive
VARIABLE hist
(* sizes around the number of threads in a block matter most *)
Sizes == IF Exhaustive THEN {0, 1, 3, 513} ELSE {0, 1, 2, 3, 5, 17, 511, 512, 513, 600, 1023, 1024, 1025, 1300}
(* host data: an arithmetic pattern *)
Pat(n, a, d) == RPattern(n, (a + d) % M, d)
Obs == [i \in 1..3 |-> IF i \in Ids THEN <<B(arr'[i].alive), arr'[i].s, arr'[i].cap>> ELSE <<0, <<>>, 0>>]
Log(call) == hist' = Append(hist, <<call, "ok", Obs>>)
Step ==
  /\ Len(hist) < Depth
  /\ \/ \E i \in Pick(Ids), n \in Pick(Sizes) : Construct(i, n) /\ Log(<<"ctor", i, n>>)
     \/ \E i \in Pick(Ids), n \in Pick(Sizes), v \in Pick(Vals) : ConstructFill(i, n, v) /\ Log(<<"ctorv", i, n, v>>)
     \/ \E i \in Pick(Ids), n \in Pick(Sizes), a \in Pick(Vals), d \in Pick({1, 7}) :
          ConstructFrom(i, Pat(n, a, d)) /\ Log(<<"ctorh", i, n, a, d>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : Copy(i, j) /\ Log(<<"copy", i, j>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : Assign(i, j) /\ Log(<<"assign", i, j>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : Assign(i, j) /\ Log(<<"assign", i, j>>)
     \/ \E i \in Pick(Ids) : (IF Exhaustive THEN TRUE ELSE Chance(4)) /\ Destroy(i) /\ Log(<<"dtor", i>>)
     \/ \E i \in Pick(Ids), n \in Pick(Sizes) : Resize(i, n, Unset) /\ Log(<<"resize", i, n>>)
     \/ \E i \in Pick(Ids), n \in Pick(Sizes), v \in Pick(Vals) : Resize(i, n, v) /\ Log(<<"resizev", i, n, v>>)
     \/ \E i \in Pick(Ids), n \in Pick(Sizes) : Reserve(i, n) /\ Log(<<"reserve", i, n>>)
     \/ \E i \in Pick(Ids), a \in Pick(Vals), d \in Pick({1, 7}) :
          Alive(i) /\ Load(i, Pat(RLen(arr[i].s), a, d)) /\ Log(<<"load", i, a, d>>)
     \/ \E i \in Pick(Ids) : Save(i) /\ Log(<<"save", i>>)
GInit == Init /\ hist = <<>>
Nop  == Len(hist) < Depth /\ UNCHANGED <<vars, hist>>
Done == Len(hist) = Depth /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED vars
GSpec == GInit /\ [][Step \/ Nop \/ Done]_<<vars, hist>>
Emitted == Len(hist) = Depth + 1 => EmitBehaviour(hist)
ESpec == GInit /\ [][Step]_<<vars, hist>>
EView == vars
EmitTransition == EmitBehaviour(hist')
=============================================================================
