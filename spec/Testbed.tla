------------------------------- MODULE Testbed -------------------------------
(* Benchmarking: evaluate runs those benchmarks whose family matches its    *)
(* filter and prints a table; cpu_benchmark and gpu_benchmark find out what *)
(* they are running on.  The environment (likwid-topology's output, the     *)
(* kernel's description of the CPU, GPUs) is part of the state.             *)
EXTENDS Integers, Sequences
VARIABLES topology,    \* <<>>: not installed; else <<lines>>: each a sequence of comma separated fields
          cpuinfo,     \* lines: <<>> or <<key, number of tabs, value>>
          gpus, gpu,   \* names, the current one
          evals,       \* evaluators: <<filter, revision>>
          ran,         \* calls of performance() so far: <<family, species, dim>>
          out,         \* lines printed so far
          result
vars == <<topology, cpuinfo, gpus, gpu, evals, ran, out, result>>
env  == <<topology, cpuinfo, gpus, gpu>>

(* ---- text ---- *)
Contains(s, t) == \E i \in 0..Len(s) - Len(t) : SubSeq(s, i + 1, i + Len(t)) = t
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
Pad(s, w) == s \o Spaces(w - Len(s))
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Text(_)
Text(n) == IF n < 0 THEN "-" \o Text(-n) ELSE IF n < 10 THEN Digit[n + 1] ELSE Text(n \div 10) \o Digit[1 + (n % 10)]
RECURSIVE List(_)
List(d) == IF Len(d) = 1 THEN Text(d[1]) ELSE Text(Head(d)) \o ", " \o List(Tail(d))

(* ---- devices ---- *)
Entries(key) == IF topology = <<>> THEN {} ELSE
  {topology[1][i][j + 1] : <<i, j>> \in {<<a, b>> \in (1..Len(topology[1])) \X (1..8) : b < Len(topology[1][a]) /\ topology[1][a][b] = key}} \ {""}
Usable == {i \in 1..Len(cpuinfo) : cpuinfo[i] # <<>> /\ cpuinfo[i][1] \in {"cpu", "model name"} /\ cpuinfo[i][3] # ""}
CpuName ==
  IF Entries("CPU type:") # {} /\ Entries("CPU name:") # {}
  THEN (CHOOSE x \in Entries("CPU type:") : TRUE) \o ", " \o (CHOOSE x \in Entries("CPU name:") : TRUE)
  ELSE IF Usable # {} THEN cpuinfo[CHOOSE i \in Usable : \A j \in Usable : i <= j][3]
  ELSE "unknown CPU"
DeviceOf(b) == IF b.kind = "cpu" THEN CpuName ELSE IF b.kind = "gpu" THEN gpus[gpu] ELSE b.kind
OrderOf(b)  == IF b.kind = "cpu" THEN "CPU" ELSE IF b.kind = "gpu" THEN "GPU" ELSE "own"

(* ---- the table ---- *)
HeaderLine == "#rev              ; date                 ; host                            ; device                                          ; order   ; family                          ; species ; dimensions              ; perf        ; unit"
(* the environment provides the date (always 20 characters) and host: a line is what precedes the date and what follows the host *)
Date == "2026-Nov-18 12:00:00"
Line(rev, b, dim) == << Pad(rev, 18) \o "; ",
  Pad(DeviceOf(b), 48) \o "; " \o Pad(OrderOf(b), 8) \o "; " \o Pad(b.family, 32) \o "; " \o Pad(b.species, 8) \o "; "
    \o Pad("(" \o List(dim) \o ")", 24) \o "; " \o Pad(b.perf[2], 12) \o "; " \o Pad(b.unit, 8) >>
Whole(l, host) == l[1] \o Date \o " ; " \o Pad(host, 32) \o "; " \o l[2]

(* ---- calls ---- *)
Create(i, filter, rev) == evals' = [evals EXCEPT ![i] = <<filter, rev>>] /\ result' = "" /\ UNCHANGED <<env, ran, out>>
Copy(i, j)  == evals' = [evals EXCEPT ![i] = evals[j]] /\ result' = "" /\ UNCHANGED <<env, ran, out>>
Header(i)   == out' = Append(out, <<HeaderLine>>) /\ result' = "" /\ UNCHANGED <<env, evals, ran>>
Selected(i, b) == Contains(b.family, evals[i][1])
Evaluate(i, b, dim, print) ==
  /\ ran' = IF Selected(i, b) THEN Append(ran, <<b.family, b.species, dim>>) ELSE ran
  /\ out' = IF Selected(i, b) /\ print THEN Append(out, Line(evals[i][2], b, dim)) ELSE out
  /\ result' = "" /\ UNCHANGED <<env, evals>>
Device(b) == result' = DeviceOf(b) /\ UNCHANGED <<env, evals, ran, out>>
Order(b)  == result' = OrderOf(b) /\ UNCHANGED <<env, evals, ran, out>>
Time      == result' = "time" /\ UNCHANGED <<env, evals, ran, out>>
Install(t)   == topology' = t /\ result' = "" /\ UNCHANGED <<cpuinfo, gpus, gpu, evals, ran, out>>
Boot(c)      == cpuinfo' = c /\ result' = "" /\ UNCHANGED <<topology, gpus, gpu, evals, ran, out>>
Select(g)    == g \in 1..Len(gpus) /\ gpu' = g /\ result' = "" /\ UNCHANGED <<topology, cpuinfo, gpus, evals, ran, out>>

(* ---- properties ---- *)
OneLineEach == [][\/ ran' = ran /\ (out' = out \/ out' = Append(out, <<HeaderLine>>))
                  \/ \E x \in {ran'[Len(ran')]} : ran' = Append(ran, x) /\ (out' = out \/ (Len(out') = Len(out) + 1 /\ SubSeq(out', 1, Len(out)) = out))]_vars
Harmless == [][evals' # evals \/ env' # env => (ran' = ran /\ out' = out)]_vars
Separators(s) == {i \in 1..Len(s) : SubSeq(s, i, i) = ";"}
Solid(s) == {i \in 1..Len(s) : SubSeq(s, i, i) # " "}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Greatest(S) == CHOOSE i \in S : \A j \in S : i >= j
Bare(s) == LET S == Solid(s) IN IF S = {} THEN "" ELSE SubSeq(s, Least(S), Greatest(S))
(* the k-th field *)
Field(s, k) ==
  LET S == Separators(s)
      at(n) == IF n = 0 THEN 0 ELSE IF n > 9 THEN Len(s) + 1 ELSE CHOOSE i \in S : n = 1 + Len(SelectSeq([x \in 1..i - 1 |-> x], LAMBDA x : x \in S)) IN
  Bare(SubSeq(s, at(k - 1) + 1, at(k) - 1))
(* lines can be taken apart again, and are aligned with the header unless a field is too long *)
Widths == <<18, 20, 32, 48, 8, 32, 8, 24, 12, 8>>
ReadableLine(l, r) ==
  LET w == Whole(l, "host")
      f == [k \in 1..10 |-> Field(w, k)]
      S == Separators(w) IN
  /\ f[6] = r[1] /\ f[7] = r[2] /\ f[8] = "(" \o List(r[3]) \o ")"
  /\ (\A i \in 1..10 : Len(f[i]) <= Widths[i]) => S = Separators(HeaderLine)
Readable == [][\A i \in Len(out) + 1..Len(out') : Len(out'[i]) = 1 \/ (Len(ran') = Len(ran) + 1 /\ ReadableLine(out'[i], ran'[Len(ran')]))]_vars
=============================================================================
