----------------------------- MODULE ShortVecMC ------------------------------
(* Laws which the register machine has to obey, checked on all reachable      *)
(* states of small instances.                                                 *)
EXTENDS ShortVec, TLC
CONSTANTS Values, MaxAbs, Part
Consts == {v \in Values : family = "real" \/ v < 900000000}
Offsets == [Lanes -> {-1, 0, 1}]
Arithmetic ==
  \/ \E r, s \in Regs : CopyTo(r, s)
  \/ \E op \in {"+", "-", "*"}, r, a, b \in Regs : Binary(op, r, reg[a], reg[b])
  \/ \E r, a, b \in Regs : DivideInt(r, reg[a], reg[b]) \/ DivideReal(r, reg[a], reg[b]) \/ OverRootInt(r, reg[a], reg[b])
  \/ \E r, a \in Regs : RootInt(r, reg[a]) \/ RootReal(r, reg[a])
Masks ==
  \/ \E op \in CompareOps, a, b \in Regs : CompareTo(op, reg[a], reg[b])
  \/ \E r, s \in Regs : BlendInto(r, reg[s])
MemoryOps ==
  \/ \E r \in Regs, at \in Addresses : LoadFrom(r, at) \/ StoreTo(r, at)
  \/ \E r \in Regs, base \in 0..(MemSize - 1), off \in Offsets : GatherFrom(r, base, off) \/ ScatterTo(r, base, off)
Next ==
  \/ Part # "memory" /\ \E r \in Regs, v \in Consts : SplatTo(r, v)
  \/ \E r \in Regs, A \in [Lanes -> Consts] : MakeFrom(r, A)
  \/ Part = "arith" /\ Arithmetic
  \/ Part = "masks" /\ Masks
  \/ Part = "memory" /\ MemoryOps
Small == \A r \in Regs, i \in Lanes : reg[r][i] \in Special \/ AbsV(reg[r][i]) <= MaxAbs
Spec == Init /\ [][Next]_vars
(* lanes are independent and interchangeable: permuting the operands' lanes permutes the results' *)
Perms == {p \in [Lanes -> Lanes] : Injective(p)}
Permuted(A, p) == [i \in Lanes |-> A[p[i]]]
Equivariant ==
  \A p \in Perms, a, b \in Regs :
    LET A == reg[a] B == reg[b] IN
    /\ \A op \in {"+", "-", "*"} : VecOK(op, A, B) => VecOp(op, Permuted(A, p), Permuted(B, p)) = Permuted(VecOp(op, A, B), p)
    /\ \A op \in CompareOps : Mask(op, Permuted(A, p), Permuted(B, p)) = Permuted(Mask(op, A, B), p)
Same(x, y) == x = y
Algebra ==
  \A a, b \in Regs, i \in Lanes :
    LET x == reg[a][i] y == reg[b][i] IN
    /\ SumOK(x, y) => Plus(x, y) = Plus(y, x)
    /\ ProductOK(x, y) => Times(x, y) = Times(y, x)
    /\ Finite(x) => Minus(x, x) = 0
    /\ SumOK(x, Negated(y)) /\ Finite(x) /\ Finite(y) /\ x # NZero => Plus(Minus(x, y), y) = x
    /\ ProductOK(x, IF family = "real" THEN Unit ELSE 1) => Times(x, IF family = "real" THEN Unit ELSE 1) = x
    /\ family = "int" /\ QuotientOK(x, y) =>
         LET q == Quotient(x, y) IN AbsV(x - q * y) < AbsV(y) /\ (q # 0 => (q < 0) = ((x < 0) # (y < 0)))
    /\ family = "int" /\ RootOK(x) => ISqrt(x) * ISqrt(x) <= x /\ (ISqrt(x) + 1) * (ISqrt(x) + 1) > x
    /\ family = "real" /\ QuotientOK(x, y) /\ Exact(x, y) /\ ProductOK(ExactQuotient(x, y), y) => Num(Times(ExactQuotient(x, y), y)) = Num(x)
Comparisons ==
  \A a, b \in Regs, i \in Lanes :
    LET x == reg[a][i] y == reg[b][i]
        ordered == ~ (family = "real" /\ (x = NaN \/ y = NaN)) IN
    /\ Compare("<", x, y) = Compare(">", y, x) /\ Compare("<=", x, y) = Compare(">=", y, x)
    /\ Compare("<=", x, y) = (Compare("<", x, y) \/ Compare("==", x, y))
    /\ ordered => Compare("<", x, y) = ~ Compare(">=", x, y)
    /\ ~ ordered => \A op \in CompareOps : ~ Compare(op, x, y)
    /\ ~ (Compare("<", x, y) /\ Compare("==", x, y))
Blends ==
  Masked => \A a, b \in Regs :
    LET A == reg[a] B == reg[b] R == Blended(msk, A, B) IN
    /\ Blended(msk, R, B) = R                               \* idempotent
    /\ Blended(msk, B, A) = Blended([i \in Lanes |-> 1 - msk[i]], A, B)
    /\ Count(msk) = 0 <=> ~ AnyLane(msk)
    /\ (Count(msk) = 0 => R = A) /\ (Count(msk) = arity => R = B)
Memory ==
  \A r \in Regs, at \in Addresses :
    /\ \A k \in 1..MemSize : (k <= at \/ k > at + arity) => Stored(reg[r], at)[k] = mem[k]
    /\ [i \in Lanes |-> Stored(reg[r], at)[at + i]] = reg[r]
    /\ Fetch(at) = FetchFrom(at, [i \in Lanes |-> i - 1])
    /\ Stored(reg[r], at) = StoredTo(reg[r], at, [i \in Lanes |-> i - 1])
=============================================================================
