---------------------------- MODULE TypeSelection ----------------------------
(* Which vector type does the library select? A table look-up machine: each   *)
(* behaviour is one query with its answer. What the answer has to be depends  *)
(* on the instruction set, the element type, the number of registers asked    *)
(* for, and (streaming or not) on the working set and cache sizes.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Isas, Ilps, DimProds, CellSizes, Caches
VARIABLES query, answer
vars == <<query, answer>>
SizeOf == [float |-> 4, double |-> 8, int |-> 4, char |-> 1, short |-> 2, long |-> 8]
VecTypes == {"float", "double", "int"}
Arities == {1, 2, 4, 8, 16, 32}
(* bytes of the widest register; scalar code has "registers" of one element *)
RegisterBytes(isa, t) ==
  CASE isa \in {"scalar", "cudadev"} -> SizeOf[t]
    [] isa \in {"sse", "sse2", "sse41", "neon"} -> 16
    [] isa \in {"avx", "avx2"} -> 32
    [] isa \in {"avx512", "mic"} -> 64
(* code for CUDA devices is always scalar: parallelism comes from threads *)
ArityFor(isa, t, ilp) == IF isa = "cudadev" THEN 1 ELSE ilp * (RegisterBytes(isa, t) \div SizeOf[t])
(* streaming pays off if the grid is at least as large as the cache *)
Streams(dims, cell, cache) == dims * cell >= cache
Ilp(isa, t, n) == query' = <<"ilp", isa, t, n>> /\ answer' = <<ArityFor(isa, t, n)>>
Optimum(isa, t, n, d, c, s) ==
  /\ ArityFor(isa, t, n) \in Arities        \* others have no vector type
  /\ query' = <<"optimum", isa, t, n, d, c, s>>
  /\ answer' = <<ArityFor(isa, t, n), IF Streams(d, c, s) THEN 1 ELSE 0>>
Sibling(isa, stream, t, a, b) == query' = <<"sibling", isa, stream, t, a, b>> /\ answer' = <<stream, t, b>>
(* same for streaming vectors; enough for the elements *)
Alignment(isa, t, a) == query' = <<"align", isa, t, a>> /\ answer' = <<SizeOf[t], RegisterBytes(isa, t)>>
(* the streaming flag's switch *)
Switch(isa, t, a, flag) == query' = <<"switch", isa, t, a, flag>> /\ answer' = <<IF flag = 0 THEN 0 ELSE 1, t, a>>
Next ==
  \/ \E isa \in Isas, t \in DOMAIN SizeOf, n \in Ilps : Ilp(isa, t, n)
  \/ \E isa \in Isas, t \in VecTypes, n \in {1, 2, 4}, d \in DimProds, c \in CellSizes, s \in Caches : Optimum(isa, t, n, d, c, s)
  \/ \E isa \in Isas, stream \in {0, 1}, t \in VecTypes, a, b \in Arities : Sibling(isa, stream, t, a, b)
  \/ \E isa \in Isas, t \in VecTypes, a \in Arities : Alignment(isa, t, a)
  \/ \E isa \in Isas, t \in VecTypes, a \in Arities, flag \in {0, 1} : Switch(isa, t, a, flag)
Init == query = <<"none">> /\ answer = <<>>
Spec == Init /\ [][query[1] = "none" /\ Next]_vars
(* a vector of the selected arity fills exactly the number of registers asked for *)
FillsRegisters == query[1] = "ilp" /\ query[2] # "cudadev" => answer[1] * SizeOf[query[3]] = query[4] * RegisterBytes(query[2], query[3])
(* larger grids never stream less, larger caches never stream more *)
Monotone ==
  query[1] = "optimum" =>
    \A d \in DimProds, s \in Caches :
      /\ d >= query[5] /\ answer[2] = 1 => Streams(d, query[6], query[7])
      /\ s <= query[7] /\ answer[2] = 1 => Streams(query[5], query[6], s)
Inverse == query[1] = "sibling" => answer[1] = query[3] /\ answer[2] = query[4] /\ answer[3] = query[6]
=============================================================================
