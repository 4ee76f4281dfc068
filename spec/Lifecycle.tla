----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Life cycle of member objects in the containers' storage.                *)
(*                                                                         *)
(* Memory holds objects at addresses.  Every object bears a stamp, which   *)
(* it got upon construction, in its own memory: a raw copy of bytes over   *)
(* an object, or reading an object which was never constructed, shows as   *)
(* a wrong stamp.  Storage comes in blocks; block 0 stands for memory      *)
(* which does not belong to a container (locals of the library and of its  *)
(* users).  One action per event which the code can produce.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES mem,    \* function from the addresses of live objects to <<stamp, block>>
          open    \* blocks in use

lvars == <<mem, open>>

LInit == mem = [a \in {} |-> <<0, 0>>] /\ open = {}

IsLive(a)     == a \in DOMAIN mem
Bears(a, s)   == IsLive(a) /\ mem[a][1] = s
InBlock(b)    == {a \in DOMAIN mem : mem[a][2] = b}

Obtain(b)  == b \notin open /\ open' = open \cup {b} /\ UNCHANGED mem
(* storage is given back once all objects in it are dead *)
Release(b) == b \in open /\ InBlock(b) = {} /\ open' = open \ {b} /\ UNCHANGED mem

(* never on top of a live object, and only in memory which is in use *)
Construct(a, s, b) == /\ ~IsLive(a) /\ b \in open \cup {0}
                      /\ mem' = mem @@ (a :> <<s, b>>) /\ UNCHANGED open
CopyConstruct(a, s, b, f, t) == Bears(f, t) /\ Construct(a, s, b)
Assign(a, s, f, t) == Bears(a, s) /\ Bears(f, t) /\ UNCHANGED lvars
Read(a, s)         == Bears(a, s) /\ UNCHANGED lvars
Destroy(a, s)      == /\ Bears(a, s)
                      /\ mem' = [x \in DOMAIN mem \ {a} |-> mem[x]] /\ UNCHANGED open

(* A call returned.  cs: <<block, n>> for each existing container: where   *)
(* its members live, and how many of them its cells need at least.  All    *)
(* of them are alive, and nothing is left behind elsewhere.                *)
Returned(cs) ==
  /\ \A i \in 1..Len(cs) : Cardinality(InBlock(cs[i][1])) >= cs[i][2]
  /\ \A a \in DOMAIN mem : \E i \in 1..Len(cs) : cs[i][1] = mem[a][2]
  /\ UNCHANGED lvars
(* all containers are gone; blocks: number of heap blocks still in use     *)
Over(blocks) == mem = <<>> /\ open = {} /\ blocks = 0 /\ UNCHANGED lvars
=============================================================================
