---------------------------- MODULE ShortVecExh ------------------------------
(* Systematic short behaviours of ShortVec: each operation once, with all     *)
(* choices of registers, on operands whose lanes all differ; all masks (for   *)
(* up to MaxExp lanes, else all masks with one, two, all but one or all but   *)
(* two lanes set, and all prefixes); each comparison with each outcome in     *)
(* each lane; each address; families of offset vectors.                       *)
EXTENDS ShortVec, Emit
CONSTANTS Focus, MaxExp
VARIABLES hist
Real == family = "real"
Scale(n) == IF Real THEN n * 64 ELSE n
One == IF Real THEN Unit ELSE 1
Log(call, out) == hist' = Append(hist, <<call, out, <<reg', msk', mem'>>>>)
Ok(call) == Log(call, "ok")
Stage == Len(hist) - 2
Put(X, Y) == reg' = [reg EXCEPT ![1] = X, ![2] = Y] /\ UNCHANGED <<msk, mem>> /\ Rest /\ Ok(<<"setup", X, Y>>)
Ramp == [i \in Lanes |-> Scale(4 * i)]
Zig  == [i \in Lanes |-> IF i % 2 = 0 THEN Scale(4 * (40 - i)) ELSE - Scale(8 * i + 4)]
Divs == [i \in Lanes |-> IF Real THEN (IF i % 3 = 0 THEN 256 ELSE IF i % 3 = 1 THEN 512 ELSE -128) ELSE (i % 7) + 1]
Sqrs == [i \in Lanes |-> IF Real THEN i * i * 256 ELSE i * i]
Mult == [i \in Lanes |-> IF Real THEN Scale(4 * i) ELSE i * (i + 1)]
Inexact == [i \in Lanes |-> IF Real THEN 3 * i + 1 ELSE 1000 * i + 7]
ArithStart == Put(Ramp, Zig) \/ Put(Zig, Divs) \/ Put(Mult, Sqrs) \/ Put(Inexact, Inexact) \/ Put(Sqrs, Ramp)
Ops == {"+", "-", "*"}
Scalars == {3 * One, - One, 2 * One}
ArithOp ==
  \/ \E op \in Ops, r, a, b \in Regs : Binary(op, r, reg[a], reg[b]) /\ Ok(<<"bin", op, r, a, b>>)
  \/ \E op \in Ops, r, b \in Regs : Binary(op, r, reg[r], reg[b]) /\ Ok(<<"compound", op, r, b>>)
  \/ \E op \in Ops, r, b \in Regs, v \in Scalars : Binary(op, r, Splat(v), reg[b]) /\ Ok(<<"scalar_l", op, r, v, b>>)
  \/ \E op \in Ops, r, b \in Regs, v \in Scalars : Binary(op, r, reg[b], Splat(v)) /\ Ok(<<"scalar_r", op, r, b, v>>)
  \/ \E op \in Ops, r \in Regs, v \in Scalars : Binary(op, r, reg[r], Splat(v)) /\ Ok(<<"scalar_c", op, r, v>>)
  \/ \E r, a, b \in Regs : (DivideInt(r, reg[a], reg[b]) \/ DivideReal(r, reg[a], reg[b])) /\ Ok(<<"div", r, a, b>>)
  \/ \E r, b \in Regs : (DivideInt(r, reg[r], reg[b]) \/ DivideReal(r, reg[r], reg[b])) /\ Ok(<<"div_c", r, b>>)
  \/ \E r, b \in Regs, v \in Scalars : (DivideInt(r, Splat(v), reg[b]) \/ DivideReal(r, Splat(v), reg[b])) /\ Ok(<<"div_sl", r, v, b>>)
  \/ \E r, a \in Regs, v \in Scalars : (DivideInt(r, reg[a], Splat(v)) \/ DivideReal(r, reg[a], Splat(v))) /\ Ok(<<"div_sr", r, a, v>>)
  \/ \E a, b \in Regs : QuotientsOf(reg[a], reg[b]) /\ Log(<<"quotients", a, b>>, [i \in Lanes |-> Frac(reg[a][i], reg[b][i])])
  \/ \E r, a \in Regs : (RootInt(r, reg[a]) \/ RootReal(r, reg[a])) /\ Ok(<<"sqrt", r, a>>)
  \/ \E a \in Regs : RootsOf(reg[a]) /\ Log(<<"roots", a>>, [i \in Lanes |-> <<reg[a][i], Unit>>])
  \/ \E r, a, b \in Regs : OverRootInt(r, reg[a], reg[b]) /\ Ok(<<"over_sqrt", r, a, b>>)
  \/ \E r, b \in Regs : OverRootInt(r, reg[r], reg[b]) /\ Ok(<<"over_sqrt_c", r, b>>)
  \/ \E a, b \in Regs : OverRootsOf(reg[a], reg[b]) /\ Log(<<"over_roots", a, b>>, [i \in Lanes |-> <<Num(reg[a][i]), Num(reg[b][i])>>])
  \/ \E r, s \in Regs : CopyTo(r, s) /\ Ok(<<"copy", r, s>>)
  \/ \E r \in Regs, how \in {"ptr", "load", "load_aligned", "list", "splat+load"} : MakeFrom(r, Inexact) /\ Ok(<<"make", how, r, Inexact>>)
  \/ \E r \in Regs, v \in Scalars : SplatTo(r, v) /\ Ok(<<"splat", r, v>>)
  \/ \E r \in Regs : Look /\ Log(<<"print", r>>, reg[r])
  \/ \E r \in Regs, i \in Lanes : (Real \/ arity = 1) /\ Look /\ Log(<<"lane", r, i - 1>>, <<reg[r][i]>>)
(* ------------------------------------------------------------------ masks *)
AllMasks ==
  IF arity <= MaxExp THEN [Lanes -> {0, 1}]
  ELSE LET Sets == {S \in {{i, j} : i, j \in Lanes} : TRUE} \cup {1..i : i \in 0..arity} \cup {{i \in Lanes : i % 2 = 0}}
       IN {[i \in Lanes |-> BitOf(i \in S)] : S \in Sets} \cup {[i \in Lanes |-> BitOf(i \notin S)] : S \in Sets}
Base == [i \in Lanes |-> Scale(4 * i)]
MaskStart ==
  \* masks through <, and each comparison in each outcome per lane
  \/ \E M \in AllMasks : Put(Base, [i \in Lanes |-> IF M[i] = 1 THEN Base[i] + Scale(1) ELSE Base[i]])
CompareStart ==
  \/ \E k \in Lanes, d \in {-1, 0, 1}, e \in {-1, 0, 1} : Put(Base, [i \in Lanes |-> Base[i] + (IF i = k THEN d ELSE e) * Scale(1)])
  \/ Real /\ \E k \in Lanes, x \in {NaN, Inf, NInf, NZero, 0}, y \in {NaN, Inf, NInf, NZero, 0, 256} :
       Put([Base EXCEPT ![k] = x], [Base EXCEPT ![k] = y])
AnyStart ==
  \E k \in Lanes, x \in {0, 1, -1, 256, MaxReal} \cup (IF Real THEN {NaN, Inf, NInf} ELSE {}) : Put([i \in Lanes |-> IF i = k THEN x ELSE 0], Base)
MaskOp ==
  \/ BlendInto(1, reg[2]) /\ Ok(<<"blend", 1, 2>>)
  \/ BlendInto(2, reg[1]) /\ Ok(<<"blend", 2, 1>>)
  \/ BlendInto(1, Splat(-7 * Unit)) /\ Ok(<<"blend_s", 1, -7 * Unit>>)
  \/ BlendOf(3, reg[1], reg[2]) /\ Ok(<<"blend_f", 3, 1, 2>>)
  \/ Look /\ Log(<<"any_mask">>, BitOf(AnyLane(msk)))
  \/ Look /\ Log(<<"count_mask">>, Count(msk))
MaskSteps ==
  \/ Stage = 0 /\ Real /\ MaskStart
  \/ Stage = 1 /\ CompareTo("<", reg[1], reg[2]) /\ Ok(<<"compare", "<", 1, 2>>)
  \/ Stage = 2 /\ MaskOp
CompareSteps ==
  \/ Stage = 0 /\ (Real \/ arity = 1) /\ CompareStart
  \/ Stage = 1 /\ \E op \in CompareOps : CompareTo(op, reg[1], reg[2]) /\ Ok(<<"compare", op, 1, 2>>)
AnySteps ==
  \/ Stage = 0 /\ (Real \/ arity = 1) /\ AnyStart
  \/ Stage = 1 /\ Look /\ Log(<<"any", 1>>, BitOf(AnyLane(reg[1])))
(* ----------------------------------------------------------------- memory *)
OffsetSets ==
  {[i \in Lanes |-> arity - i]} \cup {[i \in Lanes |-> (i + s) % arity] : s \in 0..(arity - 1)}
  \cup {[i \in Lanes |-> - i * s] : s \in 1..(MemSize \div arity)} \cup {[i \in Lanes |-> (i - 1) * s] : s \in 1..(MemSize \div arity)}
  \cup {[i \in Lanes |-> IF i = k THEN arity + 3 ELSE i - 1] : k \in Lanes}
  \cup {[i \in Lanes |-> IF i = k THEN - 2 ELSE i - 1] : k \in Lanes}
  \cup {[i \in Lanes |-> IF i % 2 = 0 THEN i ELSE - i]} \cup {[i \in Lanes |-> 5]}
BaseFor(off) == {b \in 0..(MemSize - 1) : InMemory(b, off)}
Ends(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : y <= x}
(* base addresses far away from the elements (and offsets which bridge the distance) *)
Far == {2147483000, 1073741829, 300000000, 70000, -70000, -300000000, -1073741829, -2147483000}
NearOffsets == {[i \in Lanes |-> arity - i]} \cup {[i \in Lanes |-> (i - 1) * s] : s \in 1..(MemSize \div arity)}
Shift(off, d) == [i \in Lanes |-> off[i] + d]
MemOp ==
  \/ \E at \in Addresses : LoadFrom(1, at) /\ Ok(<<"load", 1, at>>)
  \/ \E at \in Addresses : LoadFrom(1, at) /\ Ok(<<"from_ptr", 1, at>>)
  \/ \E at \in AlignedAddresses : LoadFrom(2, at) /\ Ok(<<"load_aligned", 2, at>>)
  \/ \E at \in Addresses : StoreTo(1, at) /\ Ok(<<"store", 1, at>>)
  \/ \E at \in Addresses : StoreTo(1, at) /\ Ok(<<"stream", 1, at>>)
  \/ \E at \in AlignedAddresses : StoreTo(2, at) /\ Ok(<<"store_aligned", 2, at>>)
  \/ \E at \in AlignedAddresses : StoreTo(2, at) /\ Ok(<<"store_nt", 2, at>>)
  \/ \E off \in OffsetSets : \E base \in Ends(BaseFor(off)) : GatherFrom(1, base, off) /\ Ok(<<"gather", 1, base, off>>)
  \/ \E off \in OffsetSets : \E base \in Ends(BaseFor(off)) : ScatterTo(2, base, off) /\ Ok(<<"scatter", 2, base, off>>)
  \/ \E off \in NearOffsets, d \in Far : \E base \in Ends(BaseFor(off)) :
       GatherFrom(1, base - d, Shift(off, d)) /\ Ok(<<"gather", 1, base - d, Shift(off, d)>>)
  \/ \E off \in NearOffsets, d \in Far : \E base \in Ends(BaseFor(off)) :
       ScatterTo(2, base - d, Shift(off, d)) /\ Ok(<<"scatter", 2, base - d, Shift(off, d)>>)
Steps ==
  \/ Focus = "arith" /\ ((Stage = 0 /\ ArithStart) \/ (Stage = 1 /\ ArithOp))
  \/ Focus = "mask" /\ MaskSteps
  \/ Focus = "compare" /\ CompareSteps
  \/ Focus = "any" /\ AnySteps
  \/ Focus = "memory" /\ ((Stage = 0 /\ Put(Zig, Inexact)) \/ (Stage = 1 /\ MemOp))
EInit == Init /\ hist = << <<family>>, <<arity>> >>
ESpec == EInit /\ [][Steps]_<<vars, hist>>
Complete == Stage = (IF Focus = "mask" THEN 3 ELSE 2)
Emitted == Complete => EmitBehaviour(hist)
=============================================================================
