-------------------------- MODULE ShortVecTermsGen ---------------------------
(* behaviours of ShortVecTerms: <<"term">>, <<arity>>, then per step          *)
(* <<call, new terms, <<registers, mask>>>>                                   *)
EXTENDS ShortVecTerms, Emit
VARIABLES hist
Log(call) == hist' = Append(hist, <<call, SubSeq(def', Len(def) + 1, Len(def')), <<reg', msk'>>>>)
R == Pick({r \in Regs : arity > 0})      \* (state dependent, or TLC would evaluate it just once)
S == Pick({s \in 1..NScalar : arity > 0})
FillSome   == \E r \in R : Fill(r, Len(hist)) /\ Log(<<"fill", r>>)
FillTwo    == \E r \in R : Fill(r, Len(hist) + 1000) /\ Log(<<"fill", r>>)   \* values which are close to each other
SplatSome  == \E r \in R, s \in S : Splat(r, s) /\ Log(<<"splat", r, s>>)
CopySome   == \E r \in R, a \in R : Copy(r, a) /\ Log(<<"copy", r, a>>)
Compute ==
  \/ \E op \in Pick(Ops), r \in R, a \in R, b \in R : Binary(op, r, a, b) /\ Log(<<"bin", op, r, a, b>>)
  \/ \E op \in Pick(Ops), r \in R, b \in R : Binary(op, r, r, b) /\ Log(<<"compound", op, r, b>>)
  \/ \E op \in Pick(Ops), r \in R, s \in S, b \in R : ScalarL(op, r, s, b) /\ Log(<<"scalar_l", op, r, s, b>>)
  \/ \E op \in Pick(Ops), r \in R, a \in R, s \in S : ScalarR(op, r, a, s) /\ Log(<<"scalar_r", op, r, a, s>>)
  \/ \E op \in Pick(Ops), r \in R, s \in S : ScalarR(op, r, r, s) /\ Log(<<"scalar_c", op, r, s>>)
  \/ \E r \in R, a \in R : Root(r, a) /\ Log(<<"sqrt", r, a>>)
  \/ \E r \in R, a \in R, b \in R : OverRoot(r, a, b) /\ Log(<<"over_sqrt", r, a, b>>)
  \/ \E r \in R, b \in R : OverRoot(r, r, b) /\ Log(<<"over_sqrt_c", r, b>>)
Select ==
  \/ \E op \in Pick(CompareOps), a \in R, b \in R : Compare(op, a, b) /\ Log(<<"compare", op, a, b>>)
  \/ \E r \in R, b \in R : Blend(r, r, b) /\ Log(<<"blend", r, b>>)
  \/ \E r \in R, a \in R, b \in R : Blend(r, a, b) /\ Log(<<"blend_f", r, a, b>>)
  \/ \E r \in R : Look /\ Log(<<"any", r>>)
  \/ Masked /\ Look /\ Log(<<"any_mask">>)
Step == Len(hist) < Depth /\ (FillSome \/ FillSome \/ FillTwo \/ (Chance(3) /\ (SplatSome \/ CopySome)) \/ Compute \/ Compute \/ Select)
GInit == Init /\ hist = << <<"term">>, <<arity>> >>
Nop  == Len(hist) < Depth /\ UNCHANGED <<vars, hist>>
Done == Len(hist) = Depth /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED vars
GSpec == GInit /\ [][Step \/ Nop \/ Done]_<<vars, hist>>
Emitted == Len(hist) = Depth + 1 => EmitBehaviour(hist)
=============================================================================
