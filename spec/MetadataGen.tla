----------------------------- MODULE MetadataGen ----------------------------
(* One chain of random declarations and registrations per number of         *)
(* registered members; emits what the library has to report about it.       *)
EXTENDS Metadata, Emit
VARIABLES target, extra, list
gvars == <<decl, reg, phase, target, extra, list>>
GenTypeSize == [char |-> 1, short |-> 2, int |-> 4, float |-> 4, double |-> 8, long |-> 8, B3 |-> 3, B16 |-> 16]
Lens == <<0, 0, 0, 0, 1, 2, 3, 5, 9>>
GenArrayLengths == {0, 1, 2, 3, 5, 9}
MaxLength == 51
Copies == atoi(IOEnv.COPIES)
GInit == /\ Init
         /\ target \in 1..MaxLength
         /\ extra \in {<<c, TLCEval(RandomElement(0..4))>> : c \in 1..Copies}
         /\ list = <<>>
Total == target + extra[2]
GNext ==
  \/ /\ phase = "declare" /\ Len(decl) < Total
     /\ \E t \in Pick(DOMAIN TypeSize), i \in Pick(DOMAIN Lens) : Declare(t, Lens[i])
     /\ \E e \in Pick(0..99) : list' = IF Len(list) < target THEN Append(list, e) ELSE list
     /\ UNCHANGED <<target, extra>>
  \/ phase = "declare" /\ Len(decl) = Total /\ Close /\ UNCHANGED <<target, extra, list>>
  \/ /\ phase = "register" /\ Len(reg) < target
     /\ \E d \in Pick({e \in DOMAIN decl : ~Registered(e)}) : Register(d)
     /\ UNCHANGED <<target, extra, list>>
  \/ phase = "register" /\ Len(reg) = target /\ Finish /\ UNCHANGED <<target, extra, list>>
GSpec == GInit /\ [][GNext]_gvars
Extents == {<<4, 2, 1>>, <<8, 4, 2>>, <<2, 4, 4>>, <<16, 1, 1>>, <<4, 8, 4>>}
Samples(e) ==
  LET cells == {<<0, 0, 0>>, <<e[1] - 1, e[2] - 1, e[3] - 1>>, <<e[1] - 1, 0, 0>>, <<1, e[2] - 1, 0>>, <<0, 0, e[3] - 1>>}
      n == e[1] * e[2] * e[3]
      keys == {<<i, k, c>> \in (DOMAIN reg) \X (0..8) \X cells : k < Elems(reg[i]) /\ (k \in {0, 1, Elems(reg[i]) - 1})}
  IN  {<<o[1], o[2], o[3], Address(o[1], o[2], Linear(o[3][1], o[3][2], o[3][3], e), n)>> : o \in keys}
Emitted ==
  phase = "done" =>
    LET e == RandomElement(Extents) IN
    EmitBehaviour(<<target, extra[1],
                    [d \in DOMAIN decl |-> <<decl[d].ty, decl[d].len, Lookup(d)>>],
                    reg, NumberOfMembers, AggregatedMemberSize, e, Samples(e),
                    [i \in DOMAIN reg |-> Offset(i)],
                    <<list, Size(list), [i \in DOMAIN list |-> Elem(i - 1, list)], ForEach(list), [n \in 1..51 |-> IfShorter(list, n - 1, 1, 2)]>>>>)
=============================================================================
