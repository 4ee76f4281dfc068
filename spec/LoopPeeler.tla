----------------------------- MODULE LoopPeeler ------------------------------
(***************************************************************************)
(* Loop peeling as a machine which hands out the iterations [start, end)   *)
(* of a loop: a chunk of `arity' iterations whenever one which starts at a *)
(* multiple of arity fits, single iterations otherwise.                    *)
(* log is the sequence of maximal runs <<"s" or "v", from, to>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Arities, MaxEnd
VARIABLES arity, start, end, x, log
vars == <<arity, start, end, x, log>>
par  == <<arity, start, end>>

Init == /\ arity \in Arities /\ start \in 0..MaxEnd /\ end \in start..MaxEnd
        /\ x = start /\ log = <<>>
Extend(kind, n) ==
  LET L == Len(log)
  IN log' = IF L > 0 /\ log[L][1] = kind THEN [log EXCEPT ![L][3] = x + n] ELSE Append(log, <<kind, x, x + n>>)
ChunkFits == x % arity = 0 /\ x + arity <= end
Vector == ChunkFits /\ x' = x + arity /\ Extend("v", arity) /\ UNCHANGED par
Scalar == ~ChunkFits /\ x < end /\ x' = x + 1 /\ Extend("s", 1) /\ UNCHANGED par
Next == Vector \/ Scalar
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == x = end
(* ---- properties ---- *)
Bounded   == start <= x /\ x <= end
Seamless  == /\ \A i \in 1..Len(log) - 1 : log[i][3] = log[i + 1][2]
             /\ (Len(log) > 0 => log[1][2] = start /\ log[Len(log)][3] = x)
             /\ \A i \in 1..Len(log) : log[i][2] < log[i][3]
Aligned   == \A i \in 1..Len(log) : log[i][1] = "v" => log[i][2] % arity = 0 /\ (log[i][3] - log[i][2]) % arity = 0
FewScalar == \A i \in 1..Len(log) : log[i][1] = "s" => log[i][3] - log[i][2] <= (IF Len(log) = 1 THEN 2 ELSE 1) * (arity - 1)
AtMost3   == Len(log) <= 3 /\ Cardinality({i \in 1..Len(log) : log[i][1] = "v"}) <= 1
(* every aligned chunk within the range is executed as a vector *)
AllChunks == Finished => \A k \in 0..(MaxEnd \div arity) :
                (start <= k * arity /\ (k + 1) * arity <= end) =>
                   \E i \in 1..Len(log) : log[i][1] = "v" /\ log[i][2] <= k * arity /\ (k + 1) * arity <= log[i][3]
Terminates == <>Finished
=============================================================================
