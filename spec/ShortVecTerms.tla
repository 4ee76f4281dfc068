--------------------------- MODULE ShortVecTerms -----------------------------
(* short_vec over arbitrary values: what a lane holds is not a number, but a  *)
(* term over scalar operations. `def' is the list of all terms ever made, a   *)
(* register's lanes are indices into it. Leaves are opaque values, which the  *)
(* replay replaces by floating point numbers of any magnitude and precision;  *)
(* it then evaluates the terms by scalar arithmetic. This complements         *)
(* ShortVec.tla, whose numbers are exact, but limited in range and precision. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Arities, NReg, NScalar, Rounds
VARIABLES arity, reg, msk, def
vars == <<arity, reg, msk, def>>
Lanes == 1..arity
Regs == 1..NReg
Ops == {"+", "-", "*", "/"}
CompareOps == {"<", "<=", "==", ">=", ">"}
(* scalars are terms, too: the first NScalar ones *)
Init ==
  /\ arity \in Arities
  /\ def = [i \in 1..NScalar |-> <<"leaf", 0, i>>]
  /\ reg = [r \in Regs |-> [i \in Lanes |-> 1]]
  /\ msk = <<>>
New(i) == Len(def) + i
(* arity new terms, one per lane *)
Make(T(_)) == def' = def \o [i \in Lanes |-> T(i)]
Into(r) == reg' = [reg EXCEPT ![r] = [i \in Lanes |-> New(i)]]
Same == UNCHANGED arity
Fill(r, k)  == LET T(i) == <<"leaf", i, k>> IN Make(T) /\ Into(r) /\ UNCHANGED msk /\ Same
Splat(r, s) == reg' = [reg EXCEPT ![r] = [i \in Lanes |-> s]] /\ UNCHANGED <<msk, def>> /\ Same
Copy(r, a)  == reg' = [reg EXCEPT ![r] = reg[a]] /\ UNCHANGED <<msk, def>> /\ Same
Binary(op, r, a, b)  == LET T(i) == <<op, reg[a][i], reg[b][i]>> IN Make(T) /\ Into(r) /\ UNCHANGED msk /\ Same
ScalarL(op, r, s, b) == LET T(i) == <<op, s, reg[b][i]>> IN Make(T) /\ Into(r) /\ UNCHANGED msk /\ Same
ScalarR(op, r, a, s) == LET T(i) == <<op, reg[a][i], s>> IN Make(T) /\ Into(r) /\ UNCHANGED msk /\ Same
Root(r, a)        == LET T(i) == <<"sqrt", reg[a][i]>> IN Make(T) /\ Into(r) /\ UNCHANGED msk /\ Same
OverRoot(r, a, b) == LET T(i) == <<"/sqrt", reg[a][i], reg[b][i]>> IN Make(T) /\ Into(r) /\ UNCHANGED msk /\ Same
Compare(op, a, b) == LET T(i) == <<op, reg[a][i], reg[b][i]>> IN Make(T) /\ msk' = [i \in Lanes |-> New(i)] /\ UNCHANGED reg /\ Same
Masked == msk # <<>>
Blend(r, a, b)    == Masked /\ LET T(i) == <<"select", msk[i], reg[b][i], reg[a][i]>> IN Make(T) /\ Into(r) /\ UNCHANGED msk /\ Same
Look == UNCHANGED vars
Next ==
  \/ \E r \in Regs : Fill(r, Len(def))
  \/ \E r \in Regs, s \in 1..NScalar : Splat(r, s)
  \/ \E r, a \in Regs : Copy(r, a) \/ Root(r, a)
  \/ \E op \in Ops, r, a, b \in Regs : Binary(op, r, a, b)
  \/ \E op \in Ops, r, a \in Regs, s \in 1..NScalar : ScalarL(op, r, s, a) \/ ScalarR(op, r, a, s)
  \/ \E r, a, b \in Regs : OverRoot(r, a, b) \/ Blend(r, a, b)
  \/ \E op \in CompareOps, a, b \in Regs : Compare(op, a, b)
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------- invariants *)
IsLeaf(t) == def[t][1] = "leaf"
Args(t) == {def[t][k] : k \in 2..Len(def[t])}
RECURSIVE Origins(_)                   \* lanes whose leaves a term depends on (0: scalars)
Origins(t) == IF IsLeaf(t) THEN {def[t][2]} ELSE UNION {Origins(x) : x \in Args(t)}
(* terms refer to older terms only, so they can be evaluated in order *)
WellFounded == \A t \in 1..Len(def) : IsLeaf(t) \/ \A x \in Args(t) : x < t
(* what a lane holds depends on that lane's values and on scalars only *)
LanesSeparate ==
  /\ \A r \in Regs, i \in Lanes : reg[r][i] \in 1..Len(def) /\ Origins(reg[r][i]) \subseteq {0, i}
  /\ Masked => \A i \in Lanes : Origins(msk[i]) \subseteq {0, i}
(* a step changes at most one register, and no term *)
Frame == [][/\ Cardinality({r \in Regs : reg'[r] # reg[r]}) <= 1
            /\ SubSeq(def', 1, Len(def)) = def]_vars
(* (bounds model checking) *)
Short == Len(def) <= NScalar + Rounds * arity
=============================================================================
