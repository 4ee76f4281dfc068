-------------------------------- MODULE Emit --------------------------------
(* Writing behaviours out so that they can be replayed into the C++ code.  *)
(*                                                                         *)
(* Two modes share the same `Step' action of every *Gen module:            *)
(*  - random:     Pick(S) is one random element of S; tlc -simulate walks  *)
(*                long behaviours, each is emitted once it is complete.    *)
(*  - exhaustive: the configuration overrides Pick(S) by S; tlc searches   *)
(*                breadth first with the history hidden by a VIEW, and     *)
(*                every transition of the bounded state graph is emitted,  *)
(*                prefixed by a shortest path which leads there.           *)
EXTENDS Integers, Sequences, TLC, CSV, Json, IOUtils
Pick(S) == {RandomElement(S)}
PickAll(S) == S
OutFile == IOEnv.OUT
Depth   == atoi(IOEnv.DEPTH)
EmitBehaviour(h) == CSVWrite("%1$s", <<ToJson(h)>>, OutFile)
B(b) == IF b THEN 1 ELSE 0
Chance(n) == RandomElement(1..n) = 1
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
=============================================================================
