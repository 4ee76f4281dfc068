----------------------------- MODULE TestbedGen ------------------------------
(* behaviours of Testbed: <<call, outcome, <<calls of performance(), new     *)
(* lines>>>>                                                                *)
EXTENDS Testbed, Emit
VARIABLES hist
Ids == 1..2
GPUs == <<"Tesla V100-SXM2-16GB", "A100", "GeForce GTX 1080 Ti with a name which does not fit into its column">>
Types == {"Intel Skylake SP processor", "AMD K17 (Zen) architecture", "Cavium ThunderX2"}
Names == {"Intel(R) Xeon(R) Gold 6148 CPU @ 2.40GHz", "AMD EPYC 7451 24-Core Processor", "X", "", "POWER9 (raw)"}
Tops == {<<"STRUCT", "Info", "1", "">>, <<>>, <<"CPU stepping:", "4", "">>, <<"Sockets:", "2">>, <<"TABLE", "Topology", "80">>, <<"CPU clock", "2.1 GHz", "", "">>}
Ends(s) == {s, Append(s, ""), s \o <<"", "", "">>}
TopLine == IF Chance(2) THEN RandomElement(Tops)
           ELSE IF Chance(2) THEN RandomElement(Ends(<<"CPU name:", RandomElement(Names)>>)) ELSE RandomElement(Ends(<<"CPU type:", RandomElement(Types)>>))
(* each of the entries occurs once at most, but may lack its value *)
Kinds(l) == IF l = <<>> THEN "" ELSE l[1]
Unique(ls) == \A i, j \in 1..Len(ls) : i < j /\ Kinds(ls[i]) = Kinds(ls[j]) => Kinds(ls[i]) \notin {"CPU name:", "CPU type:"}
TopPart(n) == TLCEval([i \in 1..n |-> IF Chance(2) THEN RandomElement(Tops) ELSE TopLine])
Cut(ls) == IF Unique(ls) THEN ls ELSE SubSeq(ls, 1, CHOOSE n \in 0..Len(ls) : Unique(SubSeq(ls, 1, n)) /\ \A m \in n + 1..Len(ls) : ~Unique(SubSeq(ls, 1, m)))
Topologies(x) ==
  {IF Chance(4) THEN <<>>
   ELSE IF Chance(8) THEN <<Cut(TopPart(RandomElement(0..3)) \o <<<<RandomElement({"CPU name:", "CPU type:"})>>>>)>>
   ELSE IF Chance(4) THEN <<Cut(TopPart(RandomElement(0..4)))>>
   ELSE <<TLCEval([i \in 1..2 |-> RandomElement({<<>>, <<"STRUCT", "Info">>})]) \o
          (IF Chance(2) THEN <<RandomElement(Ends(<<"CPU name:", RandomElement(Names)>>)), RandomElement(Ends(<<"CPU type:", RandomElement(Types)>>))>>
           ELSE <<RandomElement(Ends(<<"CPU type:", RandomElement(Types)>>)), <<"Sockets:", "2">>, RandomElement(Ends(<<"CPU name:", RandomElement(Names)>>))>>)>>}
Infos == {<<"processor", 1, "0">>, <<"processor", 1, "11">>, <<"vendor_id", 1, "GenuineIntel">>, <<"cpu family", 1, "6">>, <<"model", 2, "207">>, <<"BogoMIPS", 1, "48.00">>, <<"CPU part", 1, "0xd08">>,
          <<"cpu MHz", 2, "2100.000">>, <<"power management", 0, "">>, <<"clock", 2, "2000.000000MHz">>, <<"flags", 2, "fpu vme de pse">>, <<"flags", 2, "@LONG">>, <<>>, <<>>}
InfoLine == IF Chance(4) THEN <<"model name", RandomElement(1..2), RandomElement(Names)>> ELSE IF Chance(6) THEN <<"cpu", RandomElement(1..2), RandomElement(Names)>> ELSE RandomElement(Infos)
Boots(x) == {TLCEval([i \in 1..n |-> TLCEval(IF i = 1 /\ Chance(2) THEN <<"processor", 1, "0">> ELSE InfoLine)]) : n \in {RandomElement(0..7)}}
Families == {"Jacobi3D", "Gauss", "NBody", "LBM", "J", "a family whose name does not fit into its column"}
Filters == {"", "Jacobi3D", "Gauss", "a", "J", "B", "3D", "jacobi", "Jacobi3DD", "LBM", "xyz"}
Perfs == {<<"0", "0">>, <<"1", "1">>, <<"0.5", "0.5">>, <<"-3.25", "-3.25">>, <<"123456", "123456">>, <<"1234567", "1.23457e+06">>, <<"0.00001", "1e-05">>, <<"1e300", "1e+300">>, <<"2.5e-7", "2.5e-07">>}
Benchmarks(x) == {[kind |-> RandomElement({"cpu", "cpu", "cpu", "gpu", "toaster"}), family |-> RandomElement(Families), species |-> RandomElement({"vanilla", "gold", "pepper", "platinum-plus"}),
                   perf |-> RandomElement(Perfs), unit |-> RandomElement({"GLUPS", "GFLOPS", "s", "parsec per hour"})]}
Dims(x) == {TLCEval([i \in 1..n |-> RandomElement({0, 1, 9, 10, 64, 100, 1024, 123456789, 2147483647, -1, -20})]) : n \in {RandomElement(1..4)}}
Rendered(b) == <<b.kind, b.family, b.species, b.perf[1], b.unit>>
Log(call) == hist' = Append(hist, <<call, result', <<SubSeq(ran', Len(ran) + 1, Len(ran')), SubSeq(out', Len(out) + 1, Len(out'))>>>>)
Step == /\ Len(hist) <= Depth
  /\ \/ \E i \in Pick(Ids), f \in Pick(Filters), r \in Pick({"", "1.0", "deadbeefdeadbeefdeadbeef", "HEAD"}) : Create(i, f, r) /\ Log(<<"create", i, f, r>>)
     \/ \E i \in Pick(Ids), j \in Pick(Ids) : Chance(3) /\ Copy(i, j) /\ Log(<<"copy", i, j>>)
     \/ \E i \in Pick(Ids) : Chance(2) /\ Header(i) /\ Log(<<"header", i>>)
     \/ \E i \in Pick(Ids), b \in Benchmarks(1), d \in Dims(1), p \in Pick({TRUE, TRUE, TRUE, FALSE}) : Evaluate(i, b, d, p) /\ Log(<<"evaluate", i, Rendered(b), d, B(p)>>)
     \/ \E i \in Pick(Ids), b \in Benchmarks(2), d \in Dims(2), p \in Pick({TRUE, FALSE}) : Evaluate(i, b, d, p) /\ Log(<<"evaluate", i, Rendered(b), d, B(p)>>)
     \/ \E b \in Benchmarks(3) : Device(b) /\ Log(<<"device", Rendered(b)>>)
     \/ \E b \in Benchmarks(4) : Chance(3) /\ Order(b) /\ Log(<<"order", Rendered(b)>>)
     \/ Chance(4) /\ Time /\ Log(<<"time">>)
     \/ \E t \in Topologies(1) : Install(t) /\ Log(<<"topology", t>>)
     \/ \E c \in Boots(1) : Boot(c) /\ Log(<<"cpuinfo", c>>)
     \/ \E g \in Pick(1..Len(GPUs)) : Chance(2) /\ Select(g) /\ Log(<<"gpu", g - 1>>)
GInit == /\ topology = <<>> /\ cpuinfo = <<>> /\ gpus = GPUs /\ gpu = 1 /\ evals = [i \in Ids |-> <<"", "">>] /\ ran = <<>> /\ out = <<>> /\ result = ""
         /\ hist = <<<<"start">>>>
Nop  == Len(hist) <= Depth /\ UNCHANGED <<vars, hist>>
Done == Len(hist) = Depth + 1 /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED vars
GSpec == GInit /\ [][Step \/ Nop \/ Done]_<<vars, hist>>
Emitted == Len(hist) = Depth + 2 => EmitBehaviour(hist)
=============================================================================
