------------------------------ MODULE Metadata ------------------------------
(* What registering a class tells the library. A class is declared member by *)
(* member, a subset of its members is registered, in any order. Everything   *)
(* which the library reports about the class, and where it stores the        *)
(* members of a grid's cells, follows from the sequence of registrations.    *)
(* The second half specifies the list macros which do the registration.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS TypeSize,      \* type -> sizeof
          ArrayLengths,  \* 0: scalar member
          MaxDeclared
VARIABLES decl,          \* declared members: [ty, len]
          reg,           \* registered members, as indices into decl
          phase          \* "declare", then "register", then "done"
vars == <<decl, reg, phase>>
Elems(d) == IF decl[d].len = 0 THEN 1 ELSE decl[d].len
Bytes(d) == TypeSize[decl[d].ty] * Elems(d)
RECURSIVE SumBytes(_)
SumBytes(n) == IF n = 0 THEN 0 ELSE SumBytes(n - 1) + Bytes(reg[n])
Registered(d) == \E i \in DOMAIN reg : reg[i] = d
PosOf(d) == CHOOSE i \in DOMAIN reg : reg[i] = d
NumberOfMembers == Len(reg)
AggregatedMemberSize == SumBytes(Len(reg))
Offset(i) == SumBytes(i - 1)                        \* of the i-th registered member
Unregistered == -1                                  \* std::invalid_argument
Lookup(d) == IF Registered(d) THEN Offset(PosOf(d)) ELSE Unregistered
(* storage of a grid with n cells (extents multiplied): one array per member, *)
(* one per element of array members; c: the cell's linear index, k: element   *)
Address(i, k, c, n) == Offset(i) * n + (k * n + c) * TypeSize[decl[reg[i]].ty]
Linear(x, y, z, e) == x + e[1] * (y + e[2] * z)
(* ---------------------------------------------------------------- machine *)
Declare(t, l) == phase = "declare" /\ Len(decl) < MaxDeclared /\ decl' = Append(decl, [ty |-> t, len |-> l]) /\ UNCHANGED <<reg, phase>>
Close == phase = "declare" /\ decl # <<>> /\ phase' = "register" /\ UNCHANGED <<decl, reg>>
Register(d) == phase = "register" /\ d \in DOMAIN decl /\ ~Registered(d) /\ reg' = Append(reg, d) /\ UNCHANGED <<decl, phase>>
Finish == phase = "register" /\ reg # <<>> /\ phase' = "done" /\ UNCHANGED <<decl, reg>>
Init == decl = <<>> /\ reg = <<>> /\ phase = "declare"
Next == \/ \E t \in DOMAIN TypeSize, l \in ArrayLengths : Declare(t, l)
        \/ Close
        \/ \E d \in DOMAIN decl : Register(d)
        \/ Finish
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------- properties *)
Objects(n) == {<<i, k, c>> \in (DOMAIN reg) \X (0..8) \X (0..(n - 1)) : k < Elems(reg[i])}
Range(o, n) == LET a == Address(o[1], o[2], o[3], n) IN a..(a + TypeSize[decl[reg[o[1]]].ty] - 1)
(* the objects of all cells tile the storage: none overlap, no byte is unused *)
Tiling(n) == /\ UNION {Range(o, n) : o \in Objects(n)} = 0..(AggregatedMemberSize * n - 1)
             /\ \A o, p \in Objects(n) : o = p \/ Range(o, n) \cap Range(p, n) = {}
TilingInv == phase = "done" => Tiling(1) /\ Tiling(2) /\ Tiling(3)
LookupInv == \A d \in DOMAIN decl : /\ (Lookup(d) = Unregistered) <=> ~Registered(d)
                                    /\ \A e \in DOMAIN decl : d # e /\ Registered(d) => Lookup(d) # Lookup(e)
(* registering further members does not move those registered before *)
Stable == [][\A i \in DOMAIN reg : Offset(i)' = Offset(i)]_vars
(* ------------------------------------------------------------- list macros *)
Size(l) == Len(l)
Elem(i, l) == l[i + 1]
Dequeue(l) == Tail(l)
IfShorter(l, n, a, b) == IF Len(l) < n THEN a ELSE b
RECURSIVE ForEach(_)
ForEach(l) == IF l = <<>> THEN <<>> ELSE LET f == SubSeq(l, 1, Len(l) - 1) IN Append(ForEach(f), <<Len(l) - 1, l[Len(l)]>>)
RECURSIVE DequeueN(_, _)
DequeueN(n, l) == IF n = 0 THEN l ELSE DequeueN(n - 1, Dequeue(l))
(* the macros are mutually consistent (the list: the registrations) *)
ListInv == /\ Len(ForEach(reg)) = Size(reg)
           /\ \A i \in 0..(Size(reg) - 1) : ForEach(reg)[i + 1] = <<i, Elem(i, reg)>> /\ Elem(i, reg) = Elem(0, DequeueN(i, reg))
           /\ \A n \in 0..(Size(reg) + 1) : IfShorter(reg, n, 1, 2) = IF n > Size(reg) THEN 1 ELSE 2
=============================================================================
