---------------------------- MODULE SoaVectorGen -----------------------------
(* behaviours of SoaVector: <<kind>>, then <<call, outcome, change>>   *)
(* with, per vector: <<0>> unchanged, <<1, size, cells, mincap>> where      *)
(* cells lists <<index, cell>> for all which changed (new ones not listed   *)
(* are default constructed), <<2>> destroyed.                               *)
EXTENDS SoaVector, Emit, SequencesExt
CONSTANTS Kinds, Vals, Exhaustive
VARIABLES kind, hist
MaxOf(k) == CASE k = "tiny" -> 8 [] k = "uni1" -> 100 [] k = "axes" -> 24 [] k = "default1d" -> 1073741856
Sizes(k) == CASE k = "tiny" -> 0..9
              [] k = "uni1" -> {0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 50, 53, 63, 64, 65, 84, 90, 99, 100, 101}
              [] k = "axes" -> {0, 1, 2, 7, 8, 9, 13, 15, 16, 17, 20, 23, 24, 25}
              [] k = "default1d" -> {0, 1, 2, 26, 27, 31, 32, 33, 54, 64, 65, 127, 128, 129}
Near(n) == {MaxI(0, n + d) : d \in {-2, -1, 0, 1, 2}}
N(i) == IF Exhaustive THEN 0..6 ELSE {IF Chance(3) THEN RandomElement(Near(Size(i))) ELSE RandomElement(Sizes(kind))}
Cells(x) == IF Exhaustive THEN {[k \in 1..K |-> v + k] : v \in Vals}
            ELSE {TLCEval([k \in 1..K |-> RandomElement(Vals)])}
Many(x) == IF Exhaustive THEN {} ELSE {TLCEval([p \in 1..n |-> TLCEval([k \in 1..K |-> RandomElement(Vals)])]) : n \in {RandomElement(0..16)}}
ChangedAt(a, b) == {p \in 1..Len(b) : IF p <= Len(a) THEN a[p] # b[p] ELSE b[p] # DefaultCell}
Change(a, b) == IF a = b THEN <<0>> ELSE IF ~b.alive THEN <<2>>
                ELSE <<1, Len(b.s), SetToSeq({<<p - 1, b.s[p]>> : p \in ChangedAt(a.s, b.s)}), b.mincap>>
Log(call) == /\ hist' = Append(hist, <<call, status', [i \in 1..3 |-> IF i \in Ids THEN Change(vec[i], vec'[i]) ELSE <<0>>]>>)
             /\ UNCHANGED kind
I(x) == Pick(Ids)
Fault(x) == IF Exhaustive THEN {0} ELSE {RandomElement({0, 0, 0, 1, 2})}
Pos(i) == IF Size(i) = 0 THEN {1} ELSE IF Exhaustive THEN 1..Size(i) ELSE {RandomElement({1, Size(i), RandomElement(1..Size(i))})}
Often(n) == IF Exhaustive THEN TRUE ELSE Chance(n)
Rand == ~Exhaustive
Step ==
  /\ Len(hist) <= Depth
  /\ \/ \E i \in I(1), f \in Fault(1) : \E n \in N(i) : Construct(i, n) /\ Log(<<"ctor", i, n, f>>)
     \/ \E i \in I(1), c \in Cells(1), f \in Fault(1) : \E n \in N(i) : ConstructV(i, n, c) /\ Log(<<"ctorv", i, n, c, f>>)
     \/ \E i \in I(1), j \in I(2), f \in Fault(1) : CopyConstruct(i, j) /\ Log(<<"copy", i, j, f>>)
     \/ \E i \in I(1), j \in I(2), f \in Fault(1) : Assign(i, j) /\ Log(<<"assign", i, j, f>>)
     \/ \E i \in I(1), j \in I(2) : Often(3) /\ Swap(i, j) /\ Log(<<"swap", i, j>>)
     \/ \E i \in I(1) : Often(6) /\ Destroy(i) /\ Log(<<"dtor", i>>)
     \/ \E i \in I(1) : Pop(i) /\ Log(<<"pop", i>>)
     \/ \E i \in I(1) : Often(5) /\ Clear(i) /\ Log(<<"clear", i>>)
     \/ \E i \in I(1), c \in Cells(1), f \in Fault(1) : Push(i, c) /\ Log(<<"push", i, c, f>>)
     \/ \E i \in I(1), c \in Cells(1), f \in Fault(1) : Rand /\ Push(i, c) /\ Log(<<"emplace", i, c, f>>)
     \/ \E i \in I(1), cs \in Many(1) : Rand /\ PushMany(i, cs) /\ Log(<<"pushmany", i, cs>>)
     \/ \E i \in I(1), f \in Fault(1) : \E n \in N(i) : Resize(i, n) /\ Log(<<"resize", i, n, f>>)
     \/ \E i \in I(1), f \in Fault(1) : \E n \in N(i) : Reserve(i, n) /\ Log(<<"reserve", i, n, f>>)
     \/ \E i \in I(1), c \in Cells(1) : \E p \in Pos(i) : SetCell(i, p, c) /\ Log(<<"set", i, p - 1, c>>)
     \/ \E i \in I(1), k \in Pick(1..K), v \in Pick(Vals) : \E p \in Pos(i) : Rand /\ SetMember(i, p, k, v) /\ Log(<<"setm", i, p - 1, k - 1, v>>)
GInit == Init /\ kind \in Kinds /\ max = MaxOf(kind) /\ hist = <<<<kind>>>>
Nop  == Len(hist) <= Depth /\ UNCHANGED <<vars, kind, hist>>
Done == Len(hist) = Depth + 1 /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<vars, kind>>
GNext == Step \/ Nop \/ Done
GSpec == GInit /\ [][GNext]_<<vars, kind, hist>>
Emitted == Len(hist) = Depth + 2 => EmitBehaviour(hist)
ESpec == GInit /\ [][Step]_<<vars, kind, hist>>
EView == <<vars, kind>>
EmitTransition == EmitBehaviour(hist')
=============================================================================
