------------------------------ MODULE ShortVec -------------------------------
(* short_vec<T, ARITY>: a machine with a few vector registers, one mask       *)
(* register and a memory of scalar elements. Each operation of the class (and *)
(* of the free functions which go with it) is one action. Lanes of            *)
(*                                                                            *)
(*   - family "real" (float, double) are exact dyadic numbers, held as        *)
(*     integers in units of 1/Unit, or one of the specials of IEEE 754.       *)
(*     Operations are enabled where their result is exact, so each back end   *)
(*     has to agree with the specification to the last bit -- except for      *)
(*     quotients and roots, whose exact value the specification gives as a    *)
(*     fraction;                                                              *)
(*   - family "int" are integers, quotients and roots truncate.               *)
(*                                                                            *)
(* The arity and the family are chosen initially and never change.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
  Arities,          \* numbers of lanes
  Families,         \* subset of {"real", "int"}
  NReg,             \* registers
  Slack,            \* memory elements beyond one vector
  Grain             \* element distance between addresses suitable for aligned access
VARIABLES arity, family, reg, msk, mem
vars == <<arity, family, reg, msk, mem>>
Unit == 256
Lanes == 1..arity
Regs == 1..NReg
(* ---------------------------------------------------------------- numbers *)
NaN   == 900000001
Inf   == 900000002
NInf  == 900000003
NZero == 900000004
Special == IF family = "real" THEN {NaN, Inf, NInf, NZero} ELSE {}
MaxReal == 16777216                    \* 2^24: what a float's mantissa holds
MaxInt  == 2147483647
MaxDiv  == 1048576                     \* int quotients are exact up to 2^20
AbsV(x) == IF x < 0 THEN -x ELSE x
Neg(x)  == IF x \in Special THEN x \in {NInf, NZero} ELSE x < 0       \* sign bit
Finite(x) == x \notin Special \ {NZero}
Num(x)  == IF x \in Special THEN 0 ELSE x  \* of a finite x
Zero(x) == Finite(x) /\ Num(x) = 0
Top     == IF family = "real" THEN MaxReal ELSE MaxInt
(* can the exact sum, difference, product be computed and represented? *)
SumOK(a, b) ==
  IF ~ (Finite(a) /\ Finite(b)) THEN TRUE
  ELSE LET x == Num(a) y == Num(b) IN
       IF x >= 0 THEN y <= Top - x ELSE y >= - Top - x
Negated(x) ==
  IF family = "int" THEN - x
  ELSE CASE x = NaN -> NaN [] x = Inf -> NInf [] x = NInf -> Inf [] x = NZero -> 0 [] x = 0 -> NZero [] OTHER -> - x
ProductOK(a, b) ==
  IF ~ (Finite(a) /\ Finite(b)) \/ Zero(a) \/ Zero(b) THEN TRUE
  ELSE IF AbsV(Num(a)) > MaxInt \div AbsV(Num(b)) THEN FALSE
  ELSE family = "real" => LET p == AbsV(Num(a)) * AbsV(Num(b)) IN p % Unit = 0 /\ p \div Unit < MaxReal
Plus(a, b) ==
  IF family = "int" THEN a + b
  ELSE IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a \in {Inf, NInf} THEN (IF b \in {Inf, NInf} /\ a # b THEN NaN ELSE a)
  ELSE IF b \in {Inf, NInf} THEN b
  ELSE IF a = NZero /\ b = NZero THEN NZero
  ELSE Num(a) + Num(b)
Minus(a, b) ==
  IF family = "int" THEN a - b ELSE Plus(a, Negated(b))
Times(a, b) ==
  IF family = "int" THEN a * b
  ELSE IF a = NaN \/ b = NaN THEN NaN
  ELSE IF a \in {Inf, NInf} \/ b \in {Inf, NInf}
       THEN IF Zero(a) \/ Zero(b) THEN NaN ELSE IF Neg(a) = Neg(b) THEN Inf ELSE NInf
  ELSE IF Zero(a) \/ Zero(b) THEN IF Neg(a) # Neg(b) THEN NZero ELSE 0
  ELSE LET p == AbsV(Num(a)) * AbsV(Num(b)) IN IF Neg(a) = Neg(b) THEN p \div Unit ELSE - (p \div Unit)
(* quotients: integers truncate towards zero; reals are fractions <<p, q>>,   *)
(* q > 0, as are roots: <<p, q>> stands for the root of p/q                   *)
Quotient(a, b) ==
  LET t == AbsV(a) \div AbsV(b) IN IF (a < 0) = (b < 0) THEN t ELSE - t
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) ==                  \* lo*lo <= n < hi*hi
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n) == IF n = 0 THEN 0 ELSE ISqrtIn(n, 1, 46341)
QuotientOK(a, b) ==
  /\ Finite(a) /\ Finite(b) /\ ~ Zero(b)
  /\ family = "int" => AbsV(a) <= MaxDiv /\ AbsV(b) <= MaxDiv
RootOK(a) ==
  IF family = "int" THEN a >= 0 /\ a <= MaxDiv ELSE Finite(a) /\ ~ Neg(a)
(* a/sqrt(b): only quotients which are exact (b's root is an integer which divides a) *)
Square(b) == b >= 0 /\ ISqrt(b) * ISqrt(b) = b
OverRootOK(a, b) ==
  IF family = "int" THEN b > 0 /\ AbsV(a) <= 1000 /\ b <= 65536 /\ Square(b) /\ AbsV(a) % ISqrt(b) = 0
  ELSE Finite(a) /\ Finite(b) /\ Num(b) > 0
Frac(a, b) == IF Neg(b) THEN <<- Num(a), - Num(b)>> ELSE <<Num(a), Num(b)>>
(* ------------------------------------------------------------ comparisons *)
Order(x) == CASE x = Inf -> MaxInt [] x = NInf -> - MaxInt [] OTHER -> Num(x)
Compare(op, a, b) ==
  IF family = "real" /\ (a = NaN \/ b = NaN) THEN FALSE
  ELSE LET x == IF family = "real" THEN Order(a) ELSE a
           y == IF family = "real" THEN Order(b) ELSE b
       IN CASE op = "<" -> x < y [] op = "<=" -> x <= y [] op = "==" -> x = y [] op = ">=" -> x >= y [] op = ">" -> x > y
CompareOps == {"<", "<=", "==", ">=", ">"}
(* -------------------------------------------------------- whole registers *)
LaneOp(op, a, b) == CASE op = "+" -> Plus(a, b) [] op = "-" -> Minus(a, b) [] op = "*" -> Times(a, b)
LaneOK(op, a, b) == CASE op = "+" -> SumOK(a, b) [] op = "-" -> SumOK(a, Negated(b)) [] op = "*" -> ProductOK(a, b)
VecOK(op, A, B) == \A i \in Lanes : LaneOK(op, A[i], B[i])
VecOp(op, A, B) == [i \in Lanes |-> LaneOp(op, A[i], B[i])]
Splat(v) == [i \in Lanes |-> v]
BitOf(b) == IF b THEN 1 ELSE 0
Mask(op, A, B) == [i \in Lanes |-> BitOf(Compare(op, A[i], B[i]))]
Blended(M, A, B) == [i \in Lanes |-> IF M[i] = 1 THEN B[i] ELSE A[i]]
AnyLane(A) == \E i \in Lanes : A[i] # 0
NoNZero(A) == \A i \in Lanes : A[i] # NZero
RECURSIVE Ones(_, _)
Ones(M, i) == IF i = 0 THEN 0 ELSE M[i] + Ones(M, i - 1)
Count(M) == Ones(M, arity)
(* ------------------------------------------------------------------ memory *)
MemSize == arity + Slack
Addresses == 0..Slack                  \* at which a vector fits
AlignedAddresses == {a \in Addresses : a % Grain = 0}
Fetch(at) == [i \in Lanes |-> mem[at + i]]
FetchFrom(base, off) == [i \in Lanes |-> mem[base + off[i] + 1]]
InMemory(base, off) == \A i \in Lanes : base + off[i] \in 0..(MemSize - 1)
Injective(off) == \A i, j \in Lanes : off[i] = off[j] => i = j
Stored(A, at) == [k \in 1..MemSize |-> IF k > at /\ k <= at + arity THEN A[k - at] ELSE mem[k]]
StoredTo(A, base, off) ==
  [k \in 1..MemSize |-> IF \E i \in Lanes : base + off[i] + 1 = k THEN A[CHOOSE i \in Lanes : base + off[i] + 1 = k] ELSE mem[k]]
(* ----------------------------------------------------------------- actions *)
NoMask == UNCHANGED msk
Rest == UNCHANGED <<arity, family>>
SetReg(r, A) == reg' = [reg EXCEPT ![r] = A] /\ UNCHANGED <<msk, mem>> /\ Rest
SetMem(m) == mem' = m /\ UNCHANGED <<reg, msk>> /\ Rest
Look == UNCHANGED vars
SplatTo(r, v)        == SetReg(r, Splat(v))
MakeFrom(r, A)       == SetReg(r, A)               \* from memory of its own, or from a list
CopyTo(r, s)         == SetReg(r, reg[s])
Binary(op, r, A, B)  == VecOK(op, A, B) /\ SetReg(r, VecOp(op, A, B))
DivideInt(r, A, B)   == /\ family = "int" /\ \A i \in Lanes : QuotientOK(A[i], B[i])
                        /\ SetReg(r, [i \in Lanes |-> Quotient(A[i], B[i])])
(* reals: the quotients are an output, and the register afterwards holds them *)
(* only if they are representable                                             *)
Exact(a, b) ==
  IF AbsV(Num(a)) > MaxInt \div Unit THEN FALSE
  ELSE (AbsV(Num(a)) * Unit) % AbsV(Num(b)) = 0 /\ (AbsV(Num(a)) * Unit) \div AbsV(Num(b)) < MaxReal
ExactQuotient(a, b) ==
  IF Zero(a) THEN (IF Neg(a) = Neg(b) THEN 0 ELSE NZero)
  ELSE LET q == (AbsV(Num(a)) * Unit) \div AbsV(Num(b)) IN IF Neg(a) = Neg(b) THEN q ELSE - q
DivideReal(r, A, B)  == /\ family = "real" /\ \A i \in Lanes : QuotientOK(A[i], B[i]) /\ Exact(A[i], B[i])
                        /\ SetReg(r, [i \in Lanes |-> ExactQuotient(A[i], B[i])])
QuotientsOf(A, B)    == /\ family = "real" /\ \A i \in Lanes : QuotientOK(A[i], B[i]) /\ Look
RootInt(r, A)        == /\ family = "int" /\ \A i \in Lanes : RootOK(A[i])
                        /\ SetReg(r, [i \in Lanes |-> ISqrt(A[i])])
PerfectSquare(a)     == IF a > MaxInt \div Unit THEN FALSE ELSE Square(a * Unit)
RootReal(r, A)       == /\ family = "real" /\ \A i \in Lanes : RootOK(A[i]) /\ PerfectSquare(A[i])
                        /\ SetReg(r, [i \in Lanes |-> ISqrt(A[i] * Unit)])
RootsOf(A)           == family = "real" /\ (\A i \in Lanes : RootOK(A[i])) /\ Look
OverRootInt(r, A, B) == /\ family = "int" /\ \A i \in Lanes : OverRootOK(A[i], B[i])
                        /\ SetReg(r, [i \in Lanes |-> Quotient(A[i], ISqrt(B[i]))])
OverRootsOf(A, B)    == /\ family = "real" /\ \A i \in Lanes : OverRootOK(A[i], B[i]) /\ Look
CompareTo(op, A, B)  == /\ family = "real" \/ arity = 1
                        /\ msk' = Mask(op, A, B) /\ UNCHANGED <<reg, mem>> /\ Rest
Masked == Len(msk) = arity
BlendInto(r, B)      == Masked /\ SetReg(r, Blended(msk, reg[r], B))
BlendOf(r, A, B)     == Masked /\ SetReg(r, Blended(msk, A, B))
LoadFrom(r, at)      == SetReg(r, Fetch(at))
StoreTo(r, at)       == SetMem(Stored(reg[r], at))
GatherFrom(r, base, off) == InMemory(base, off) /\ SetReg(r, FetchFrom(base, off))
ScatterTo(r, base, off)  == InMemory(base, off) /\ Injective(off) /\ SetMem(StoredTo(reg[r], base, off))
Init ==
  /\ arity \in Arities /\ family \in Families
  /\ reg = [r \in Regs |-> Splat(0)] /\ msk = <<>>
  /\ mem = [k \in 1..MemSize |-> IF family = "real" THEN (((k * 37) % 101) - 40) * 16 ELSE ((k * 37) % 101) - 40]
(* ------------------------------------------------------------- invariants *)
Value(x) == IF family = "real" THEN x \in Special \/ AbsV(x) <= MaxReal ELSE AbsV(x) <= MaxInt
TypeOK ==
  /\ \A r \in Regs : DOMAIN reg[r] = Lanes /\ \A i \in Lanes : Value(reg[r][i])
  /\ DOMAIN mem = 1..MemSize /\ \A k \in 1..MemSize : Value(mem[k])
  /\ msk = <<>> \/ (Masked /\ \A i \in Lanes : msk[i] \in {0, 1})
=============================================================================
