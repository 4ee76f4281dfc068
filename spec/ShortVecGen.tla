---------------------------- MODULE ShortVecGen ------------------------------
(* behaviours of ShortVec: <<family, arity>>, then                            *)
(* <<call, outcome, <<registers, mask, memory>>>> per step                    *)
EXTENDS ShortVec, Emit
CONSTANTS Focus                        \* "arith", "mask", "memory"
VARIABLES hist
Real == family = "real"
(* ------------------------------------------------------- values for lanes *)
RealPool == {0, 256, -256, 512, 768, -1280, 1792, 128, -64, 2560, 3840, -3584, 64, 192, 25600, -32, 16, 4096}
IntPool  == {0, 1, -1, 2, 3, -5, 7, 10, -16, 46340, 65537, -65536, 32767, 1000, -1001, 123456, 4194305, -9}
Wide     == {2147483647, -2147483647, 1073741824, -1500000000, 2000000001, 16777217, -33554433}
Specials == {NaN, Inf, NInf, NZero, 0, 256, -256}
Divisors == IF Real THEN {256, -256, 512, 128, -64, 1024, 2048, -8} ELSE {1, -1, 2, 3, -7, 10, 100, 1023, -64, 65536}
Squares  == IF Real THEN {0, 64, 256, 1024, 2304, 4096, 6400, 12544, 16, 36864} ELSE {0, 1, 4, 9, 16, 144, 10000, 1046529}
PosSquares == Squares \ {0}
Pool     == IF Real THEN RealPool ELSE IntPool
FromPool(S) == [i \in Lanes |-> RandomElement(S)]
Hot(k, x, y) == [i \in Lanes |-> IF i = k THEN x ELSE y]
One == IF Real THEN Unit ELSE 1
Two(x, y) == LET p == TLCEval(x) q == TLCEval(y) IN [i \in Lanes |-> IF Chance(2) THEN p ELSE q]
RandomLanes(x) ==
  LET c == RandomElement(1..14) IN
  CASE c <= 4 -> FromPool(Pool)
    [] c = 5 -> FromPool(Divisors)
    [] c = 6 -> FromPool(Squares)
    [] c = 7 -> IF Real THEN FromPool(Specials) ELSE FromPool(Pool \cup Wide)
    [] c = 8 -> Two(TLCEval(RandomElement(Pool)), TLCEval(RandomElement(Pool)))
    [] c = 9 -> Hot(RandomElement(Lanes), One, 0)
    [] c = 10 -> Hot(RandomElement(Lanes), 0, One)
    [] c = 11 -> [i \in Lanes |-> i * One]
    [] c = 12 -> Hot(RandomElement(Lanes), RandomElement(Pool), RandomElement(Pool))
    [] c = 13 -> FromPool({0, One})
    [] c = 14 -> IF Real THEN FromPool(Pool \cup {NaN, NZero}) ELSE FromPool(0..1048576)
(* ---------------------------------------------------------------- logging *)
Log(call, out) == hist' = Append(hist, <<call, out, <<reg', msk', mem'>>>>)
Ok(call) == Log(call, "ok")
R == Pick({r \in Regs : arity > 0})      \* (state dependent, or TLC would evaluate it just once)
ArithOps == {"+", "-", "*"}
Source == Pick({s \in {"ptr", "load", "load_aligned", "list", "splat+load"} : arity > 0})
Arith(w) ==
  \/ \E op \in Pick(ArithOps), r \in R, a \in R, b \in R : Binary(op, r, reg[a], reg[b]) /\ Ok(<<"bin", op, r, a, b>>)
  \/ \E op \in Pick(ArithOps), r \in R, b \in R : Binary(op, r, reg[r], reg[b]) /\ Ok(<<"compound", op, r, b>>)
  \/ \E op \in Pick(ArithOps), r \in R, v \in Pick(Pool), b \in R : Binary(op, r, Splat(v), reg[b]) /\ Ok(<<"scalar_l", op, r, v, b>>)
  \/ \E op \in Pick(ArithOps), r \in R, a \in R, v \in Pick(Pool) : Binary(op, r, reg[a], Splat(v)) /\ Ok(<<"scalar_r", op, r, a, v>>)
  \/ \E op \in Pick(ArithOps), r \in R, v \in Pick(Pool) : Binary(op, r, reg[r], Splat(v)) /\ Ok(<<"scalar_c", op, r, v>>)
Scratch(r) == [i \in Lanes |-> 0]
Divide(w) ==
  \* quotients, written over the divisor's, the dividend's or another register
  \/ \E r \in R, a \in R, b \in R : (DivideInt(r, reg[a], reg[b]) \/ DivideReal(r, reg[a], reg[b])) /\ Ok(<<"div", r, a, b>>)
  \/ \E r \in R, b \in R : (DivideInt(r, reg[r], reg[b]) \/ DivideReal(r, reg[r], reg[b])) /\ Ok(<<"div_c", r, b>>)
  \/ \E r \in R, v \in Pick(Pool), b \in R : (DivideInt(r, Splat(v), reg[b]) \/ DivideReal(r, Splat(v), reg[b])) /\ Ok(<<"div_sl", r, v, b>>)
  \/ \E r \in R, a \in R, v \in Pick(Divisors) : (DivideInt(r, reg[a], Splat(v)) \/ DivideReal(r, reg[a], Splat(v))) /\ Ok(<<"div_sr", r, a, v>>)
  \/ \E a \in R, b \in R : QuotientsOf(reg[a], reg[b]) /\ Log(<<"quotients", a, b>>, [i \in Lanes |-> Frac(reg[a][i], reg[b][i])])
Roots(w) ==
  \/ \E r \in R, a \in R : (RootInt(r, reg[a]) \/ RootReal(r, reg[a])) /\ Ok(<<"sqrt", r, a>>)
  \/ \E a \in R : RootsOf(reg[a]) /\ Log(<<"roots", a>>, [i \in Lanes |-> <<reg[a][i], Unit>>])
  \/ \E r \in R, a \in R, b \in R : OverRootInt(r, reg[a], reg[b]) /\ Ok(<<"over_sqrt", r, a, b>>)
  \/ \E r \in R, b \in R : OverRootInt(r, reg[r], reg[b]) /\ Ok(<<"over_sqrt_c", r, b>>)
  \/ \E a \in R, b \in R : OverRootsOf(reg[a], reg[b]) /\ Log(<<"over_roots", a, b>>, [i \in Lanes |-> <<Num(reg[a][i]), Num(reg[b][i])>>])
(* operands which suit the operations above, in one go: two registers *)
SetUp(A0, B0) ==
  \E X \in {TLCEval(A0)}, Y \in {TLCEval(B0)} :
    reg' = [reg EXCEPT ![1] = X, ![2] = Y] /\ UNCHANGED <<msk, mem>> /\ Rest /\ Ok(<<"setup", X, Y>>)
Prepare(w) ==
  \/ SetUp(FromPool(Pool), FromPool(Divisors))
  \/ Real /\ SetUp(FromPool(RealPool), FromPool(RealPool \ {0}))
  \/ ~ Real /\ SetUp([i \in Lanes |-> RandomElement(-1048576..1048576)], [i \in Lanes |-> RandomElement(1..2000)])
  \/ \E q \in {TLCEval(FromPool(PosSquares))} :
     SetUp([i \in Lanes |-> IF Real THEN RandomElement(RealPool) ELSE ISqrt(q[i]) * RandomElement(-4..4)], q)
  \/ ~ Real /\ \E q \in {TLCEval([i \in Lanes |-> RandomElement(1..12)])} :
       SetUp([i \in Lanes |-> q[i] * RandomElement(-40..40)], [i \in Lanes |-> q[i] * q[i]])
  \/ SetUp(FromPool(Squares), FromPool(Pool))
  \/ \E A \in {TLCEval(RandomLanes(1))} : SetUp(A, [i \in Lanes |-> IF Chance(2) THEN A[i] ELSE RandomElement(Pool)])
Fill(w) ==
  \/ \E r \in R, how \in Source, A \in {TLCEval(RandomLanes(1))} : MakeFrom(r, A) /\ Ok(<<"make", how, r, A>>)
  \/ \E r \in R, v \in Pick(Pool) : SplatTo(r, v) /\ Ok(<<"splat", r, v>>)
  \/ \E r \in R, s \in R : CopyTo(r, s) /\ Ok(<<"copy", r, s>>)
Read(w) ==
  \/ \E r \in R : NoNZero(reg[r]) /\ (Real \/ arity = 1) /\ Look /\ Log(<<"any", r>>, BitOf(AnyLane(reg[r])))
  \/ \E r \in R, i \in Pick(Lanes) : (Real \/ arity = 1) /\ Look /\ Log(<<"lane", r, i - 1>>, <<reg[r][i]>>)
  \/ \E r \in R : Look /\ Log(<<"print", r>>, reg[r])
Masks(w) ==
  \/ \E op \in Pick(CompareOps), a \in R, b \in R : CompareTo(op, reg[a], reg[b]) /\ Ok(<<"compare", op, a, b>>)
  \/ \E op \in Pick(CompareOps), a \in R, v \in Pick(Pool) : CompareTo(op, reg[a], Splat(v)) /\ Ok(<<"compare_s", op, a, v>>)
  \/ Real /\ \E r \in R, s \in R : BlendInto(r, reg[s]) /\ Ok(<<"blend", r, s>>)
  \/ Real /\ \E r \in R, a \in R, b \in R : BlendOf(r, reg[a], reg[b]) /\ Ok(<<"blend_f", r, a, b>>)
  \/ Real /\ \E r \in R, v \in Pick(Pool) : BlendInto(r, Splat(v)) /\ Ok(<<"blend_s", r, v>>)
  \/ Masked /\ Look /\ Log(<<"any_mask">>, BitOf(AnyLane(msk)))
  \/ Masked /\ Real /\ Look /\ Log(<<"count_mask">>, Count(msk))
  \/ Masked /\ \E i \in Pick(Lanes) : Look /\ Log(<<"get_mask", i - 1>>, msk[i])
(* ----------------------------------------------------------------- memory *)
RandomPermutation(x) ==                \* of 0..arity-1: i -> (a * i + b) % arity, or reversed blocks
  LET a == RandomElement({k \in 1..(2 * arity) : k % 2 = 1 \/ arity = 1}) b == RandomElement(0..(arity - 1))
  IN [i \in Lanes |-> (a * i + b) % arity]
RandomOffsets(x) ==
  LET c == RandomElement(1..8) base == RandomElement(0..(MemSize - 1)) IN
  CASE c <= 2 -> [i \in Lanes |-> RandomElement(0..(MemSize - 1)) - base]
    [] c = 3 -> LET p == RandomPermutation(1) IN [i \in Lanes |-> p[i] + RandomElement({Slack}) - base]
    [] c = 4 -> LET p == RandomPermutation(1) IN [i \in Lanes |-> p[i] - base]
    [] c = 5 -> [i \in Lanes |-> MemSize - i - base]
    [] c = 6 -> [i \in Lanes |-> 0]
    [] c = 7 -> LET s == RandomElement(1..(MemSize \div arity)) IN [i \in Lanes |-> (i - 1) * s - base]
    [] c = 8 -> LET s == RandomElement(0..Slack) IN [i \in Lanes |-> i - 1 + s - base]
Memories(w) ==
  \/ \E r \in R, at \in Pick(Addresses) : LoadFrom(r, at) /\ Ok(<<"load", r, at>>)
  \/ \E r \in R, at \in Pick(Addresses) : LoadFrom(r, at) /\ Ok(<<"from_ptr", r, at>>)
  \/ \E r \in R, at \in Pick(AlignedAddresses) : LoadFrom(r, at) /\ Ok(<<"load_aligned", r, at>>)
  \/ \E r \in R, at \in Pick(Addresses) : StoreTo(r, at) /\ Ok(<<"store", r, at>>)
  \/ \E r \in R, at \in Pick(Addresses) : StoreTo(r, at) /\ Ok(<<"stream", r, at>>)
  \/ \E r \in R, at \in Pick(AlignedAddresses) : StoreTo(r, at) /\ Ok(<<"store_aligned", r, at>>)
  \/ \E r \in R, at \in Pick(AlignedAddresses) : StoreTo(r, at) /\ Ok(<<"store_nt", r, at>>)
  \/ \E r \in R, off \in {TLCEval(RandomOffsets(1))} :
       \E base \in Pick({b \in 0..(MemSize - 1) : InMemory(b, off)}) : GatherFrom(r, base, off) /\ Ok(<<"gather", r, base, off>>)
  \/ \E r \in R, off \in {TLCEval(RandomOffsets(1))} :
       \E base \in Pick({b \in 0..(MemSize - 1) : InMemory(b, off)}) : ScatterTo(r, base, off) /\ Ok(<<"scatter", r, base, off>>)
(* TLC picks among the disjuncts evenly, so the focus is set by repetition *)
Calls ==
  \/ Fill(1)
  \/ Chance(2) /\ Read(1)
  \/ Focus = "arith" /\ Arith(1)
  \/ Focus = "arith" /\ Arith(3)
  \/ Focus = "arith" /\ Divide(1)
  \/ Focus = "arith" /\ Divide(2)
  \/ Focus = "arith" /\ Roots(1)
  \/ Focus = "arith" /\ Roots(2)
  \/ Focus = "arith" /\ Prepare(1)
  \/ Focus # "arith" /\ Chance(3) /\ Arith(2)
  \/ Focus = "arith" /\ Chance(4) /\ Masks(3)
  \/ Focus = "mask" /\ Masks(1)
  \/ Focus = "mask" /\ Masks(2)
  \/ Focus = "memory" /\ Memories(1)
  \/ Focus = "memory" /\ Memories(2)
Step == Len(hist) < Depth /\ Calls
GInit == Init /\ hist = << <<family>>, <<arity>> >>
Nop  == Len(hist) < Depth /\ UNCHANGED <<vars, hist>>
Done == Len(hist) = Depth /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED vars
GSpec == GInit /\ [][Step \/ Nop \/ Done]_<<vars, hist>>
Emitted == Len(hist) = Depth + 1 => EmitBehaviour(hist)
=============================================================================
