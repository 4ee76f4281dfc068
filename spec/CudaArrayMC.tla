---------------------------- MODULE CudaArrayMC ----------------------------
EXTENDS CudaArray
CONSTANTS Vals, MaxN
UnsetVal == -1
Next ==
  \E i \in Ids :
    \/ \E n \in 0..MaxN : \/ Construct(i, n) \/ Reserve(i, n) \/ Resize(i, n, Unset)
                          \/ \E v \in Vals : ConstructFill(i, n, v) \/ Resize(i, n, v)
                          \/ \E v \in Vals, d \in {1, 2} : ConstructFrom(i, RPattern(n, v, d)) \/ Load(i, RPattern(n, v, d))
    \/ \E j \in Ids : Copy(i, j) \/ Assign(i, j)
    \/ Destroy(i) \/ Save(i)
Spec == Init /\ [][Next]_vars
MaxRuns == \A i \in Ids : Len(arr[i].s) <= 3
(* resizing: elements which stay keep their values, further ones get the given value *)
Seq1(x) == Expand(x.s)
PrefixKept == [][\A i \in Ids : \A n \in 0..MaxN, v \in Vals \cup {Unset} :
                   Resize(i, n, v) => /\ Len(Seq1(arr'[i])) = n
                                      /\ \A k \in 1..n : Seq1(arr'[i])[k] = (IF k <= Len(Seq1(arr[i])) THEN Seq1(arr[i])[k] ELSE v)]_vars
=============================================================================
