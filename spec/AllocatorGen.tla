---------------------------- MODULE AllocatorGen -----------------------------
(* behaviours of Allocator: <<call, outcome, <<live, kind, n, tag>> per id>>  *)
(* kinds are pairs <<element size, alignment>>; the environment picks the    *)
(* chunk's address modulo 4096.                                              *)
EXTENDS Allocator, Emit, Sequences
CONSTANTS Exhaustive
VARIABLES what, hist        \* what[i] = <<kind, n>>
Kind == << <<1, 1>>, <<1, 2>>, <<2, 4>>, <<4, 8>>, <<8, 8>>, <<1, 16>>, <<4, 16>>, <<8, 32>>, <<3, 32>>, <<1, 64>>, <<24, 64>>,
           <<4, 128>>, <<1, 256>>, <<8, 512>>, <<1, 1024>>, <<1, 4096>>, <<24, 4096>> >>
Counts == {0, 1, 2, 3, 5, 7, 8, 9, 16, 31, 64, 100, 1000, 4096, 5001}
Some == {0, 16, 32, 48, 64, 112, 128, 240, 256, 496, 512, 1008, 1024, 2048, 2064, 4032, 4064, 4080}
Residues(x) == IF Exhaustive THEN Some ELSE {IF Chance(2) THEN RandomElement(Some) ELSE 16 * RandomElement(0..255)}
Base(i, r) == i * 1048576 + r
Obs(b, w) == [i \in 1..4 |-> IF i \in Ids /\ b[i].live THEN <<1, w[i][1], w[i][2], b[i].tag>> ELSE <<0>>]
Log(call) == hist' = Append(hist, <<call, status', Obs(blocks', what')>>)
Calls ==
  \/ \E i \in Pick(Ids), k \in Pick(1..Len(Kind)), n \in Pick(Counts), r \in Residues(1) :
       /\ Allocate(i, n * Kind[k][1], Kind[k][2], Base(i, r), n * Kind[k][1] + Kind[k][2] + Word)
       /\ what' = [what EXCEPT ![i] = <<k - 1, n>>] /\ Log(<<"alloc", i, k - 1, n, r>>)
  \/ \E i \in Pick(Ids), k \in Pick(1..Len(Kind)), n \in Pick(Counts) : Chance(4) /\
       AllocateFails(i) /\ UNCHANGED what /\ Log(<<"fault", i, k - 1, n>>)
  \/ \E i \in Pick(Ids), k \in Pick(1..Len(Kind)), h \in Pick(0..11) : Chance(2) /\
       AllocateFails(i) /\ UNCHANGED what /\ Log(<<"huge", i, k - 1, h>>)
  \/ \E i \in Pick(Ids), t \in Pick(1..200) : Write(i, t) /\ UNCHANGED what /\ Log(<<"write", i, t>>)
  \/ \E i \in Pick(Ids) : Chance(2) /\ Deallocate(i) /\ UNCHANGED what /\ Log(<<"free", i>>)
  \/ \E k \in Pick(1..Len(Kind)) : Chance(6) /\ DeallocateNull /\ UNCHANGED what /\ Log(<<"null", k - 1>>)
  \/ \E k \in Pick(1..Len(Kind)), n \in Pick({0, 1, 2, 9, 40}) : Chance(4) /\ DeallocateNull /\ UNCHANGED what /\ Log(<<"vector", k - 1, n>>)
Step == Len(hist) < Depth /\ Calls
GInit == Init /\ hist = <<>> /\ what = [i \in Ids |-> <<1, 0>>]
Nop  == Len(hist) < Depth /\ UNCHANGED <<vars, what, hist>>
Done == Len(hist) = Depth /\ hist' = Append(hist, <<"end">>) /\ UNCHANGED <<vars, what>>
GSpec == GInit /\ [][Step \/ Nop \/ Done]_<<vars, what, hist>>
Emitted == Len(hist) = Depth + 1 => EmitBehaviour(hist)
(* exhaustive: every kind, size and residue, allocated, written, released *)
ENext ==
  \/ hist = <<>> /\ \E k \in 1..Len(Kind), n \in Counts, r \in Some :
       /\ Allocate(1, n * Kind[k][1], Kind[k][2], Base(1, r), n * Kind[k][1] + Kind[k][2] + Word)
       /\ what' = [what EXCEPT ![1] = <<k - 1, n>>] /\ Log(<<"alloc", 1, k - 1, n, r>>)
  \/ hist = <<>> /\ \E k \in 1..Len(Kind), h \in 0..11 : AllocateFails(1) /\ UNCHANGED what /\ Log(<<"huge", 1, k - 1, h>>)
  \/ Len(hist) = 1 /\ Write(1, 7) /\ UNCHANGED what /\ Log(<<"write", 1, 7>>)
  \/ Len(hist) = 2 /\ Deallocate(1) /\ UNCHANGED what /\ Log(<<"free", 1>>)
ESpec == GInit /\ [][ENext]_<<vars, what, hist>>
EEmitted == (Len(hist) = 3 \/ (Len(hist) = 1 /\ status = "bad_alloc")) => EmitBehaviour(hist)
=============================================================================
