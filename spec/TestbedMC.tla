------------------------------ MODULE TestbedMC ------------------------------
(* one evaluator, few benchmarks and environments, all short histories *)
EXTENDS Testbed
CONSTANTS Steps
VARIABLES n
Tops == {<<>>, << <<>> >>, << <<<<"CPU name:", "N", "">>, <<"CPU type:", "T">>>> >>, << <<<<"CPU name:", "N", "">>, <<"CPU type:">>>> >>, << <<<<"CPU type:", "T">>, <<>>, <<"CPU name:", "">>>> >>}
Infos == {<<>>, <<<<>>, <<"model name", 1, "M">>>>, <<<<"model", 2, "1">>, <<"cpu", 2, "C">>, <<"model name", 1, "M">>>>, <<<<"cpu", 2, "">>>>}
Bs == {[kind |-> k, family |-> f, species |-> "gold", perf |-> <<"1", "1">>, unit |-> "GLUPS"] : k \in {"cpu", "gpu", "x"}, f \in {"Gauss", "LBM"}}
Ds == {<<1>>, <<10, 205>>}
Init == topology = <<>> /\ cpuinfo = <<>> /\ gpus = <<"A", "B">> /\ gpu = 1 /\ evals = [i \in {1} |-> <<"", "">>] /\ ran = <<>> /\ out = <<>> /\ result = "" /\ n = 0
Next == n < Steps /\ n' = n + 1 /\
  \/ \E f \in {"", "s", "LBM", "LBMx"}, r \in {"", "1.0"} : Create(1, f, r)
  \/ Header(1)
  \/ \E b \in Bs, d \in Ds, p \in BOOLEAN : Evaluate(1, b, d, p)
  \/ \E b \in Bs : Device(b) \/ Order(b)
  \/ \E t \in Tops : Install(t)
  \/ \E c \in Infos : Boot(c)
  \/ \E g \in 1..2 : Select(g)
Spec == Init /\ [][Next]_<<vars, n>>
(* what is said about the CPU stems from the environment *)
Known == CpuName \in {"T, N", "M", "C", "unknown CPU"}
Prefers == (topology # <<>> /\ CpuName = "T, N") \/ (Usable # {} <=> CpuName # "unknown CPU")
=============================================================================
