---------------------------- MODULE LifecycleMC ----------------------------
(***************************************************************************)
(* Containers which work the way the library's containers do, in terms of  *)
(* the events of Lifecycle.tla: storage is obtained, all of its members    *)
(* are constructed, assigned, destroyed, and the storage is given back.    *)
(* Every call is a program of events; the checks show that programs of     *)
(* this kind never get stuck (i.e. that the rules admit them) and that     *)
(* behaviours which obey the rules have the guarantees we care about.      *)
(***************************************************************************)
EXTENDS Lifecycle

CONSTANTS MaxBorn,   \* bound for model checking
          Slots,     \* members per storage block
          MaxBlocks, \* blocks obtained in a behaviour
          Stamps

VARIABLES prog,      \* events still to be executed by the current call
          own,       \* container -> its block (0: none)
          nextb,     \* next block
          stamp,     \* next stamp
          born, died, \* ghosts: number of constructions and destructions
          birth      \* ghost: address -> stamp given upon construction

mvars == <<mem, open, prog, own, nextb, stamp, born, died, birth>>
Containers == {1, 2}
Addr(b, i) == b * 100 + i
Temp == 1

Init == /\ LInit /\ prog = <<>> /\ own = [c \in Containers |-> 0] /\ nextb = 1 /\ stamp = 1
        /\ born = 0 /\ died = 0 /\ birth = [a \in {} |-> 0]

(* programs: sequences of <<kind, ...>> *)
ConAll(b)     == [i \in 1..Slots |-> <<"con", Addr(b, i), b>>]
DesAll(b)     == [i \in 1..Slots |-> <<"des", Addr(b, i)>>]
AssAll(b, c)  == [i \in 1..Slots |-> <<"ass", Addr(b, i), Addr(c, i)>>]
Make(b)       == <<<<"obt", b>>>> \o ConAll(b)
Dispose(b)    == IF b = 0 THEN <<>> ELSE DesAll(b) \o <<<<"rel", b>>>>

Start(c, p, b, new) == /\ prog = <<>> /\ prog' = p \o <<<<"ret">>>>
                       /\ own' = [own EXCEPT ![c] = b]
                       /\ nextb' = nextb + new
                       /\ UNCHANGED <<mem, open, stamp, born, died, birth>>
Room == nextb <= MaxBlocks

Ctor(c)      == Room /\ own[c] = 0 /\ Start(c, Make(nextb), nextb, 1)
Dtor(c)      == own[c] # 0 /\ Start(c, Dispose(own[c]), 0, 0)
Copy(c, d)   == /\ Room /\ own[c] = 0 /\ own[d] # 0
                /\ Start(c, Make(nextb) \o AssAll(nextb, own[d]), nextb, 1)
(* assignment into existing members (soa_array), also from itself *)
AssignTo(c, d) == own[c] # 0 /\ own[d] # 0 /\ Start(c, AssAll(own[c], own[d]), own[c], 0)
(* growth: new storage, elements are carried over, old storage is disposed of *)
Grow(c)      == /\ Room /\ own[c] # 0
                /\ Start(c, Make(nextb) \o AssAll(nextb, own[c]) \o Dispose(own[c]), nextb, 1)
(* get of one element: a local copy *)
Get(c, i)    == /\ own[c] # 0
                /\ Start(c, <<<<"cpy", Temp, 0, Addr(own[c], i)>>, <<"des", Temp>>>>, own[c], 0)
Set(c, i)    == /\ own[c] # 0
                /\ Start(c, <<<<"con", Temp, 0>>, <<"ass", Addr(own[c], i), Temp>>, <<"des", Temp>>>>, own[c], 0)

NextStamp == IF stamp = Stamps THEN 1 ELSE stamp + 1
Born(a) == /\ born' = born + 1 /\ birth' = (a :> stamp) @@ birth /\ stamp' = NextStamp /\ UNCHANGED died
Held(a) == mem[a][1]
Containers2 == LET s == {c \in Containers : own[c] # 0}
               IN IF s = {} THEN <<>> ELSE IF Cardinality(s) = 1 THEN <<<<own[CHOOSE c \in s : TRUE], Slots>>>>
                  ELSE <<<<own[1], Slots>>, <<own[2], Slots>>>>
Run ==
  /\ prog # <<>>
  /\ prog' = Tail(prog)
  /\ UNCHANGED <<own, nextb>>
  /\ LET e == Head(prog) IN
     CASE e[1] = "obt" -> Obtain(e[2]) /\ UNCHANGED <<stamp, born, died, birth>>
       [] e[1] = "rel" -> Release(e[2]) /\ UNCHANGED <<stamp, born, died, birth>>
       [] e[1] = "con" -> Construct(e[2], stamp, e[3]) /\ Born(e[2])
       [] e[1] = "cpy" -> CopyConstruct(e[2], stamp, e[3], e[4], Held(e[4])) /\ Born(e[2])
       [] e[1] = "ass" -> Assign(e[2], Held(e[2]), e[3], Held(e[3])) /\ UNCHANGED <<stamp, born, died, birth>>
       [] e[1] = "des" -> /\ Destroy(e[2], Held(e[2])) /\ died' = died + 1
                          /\ birth' = [x \in DOMAIN birth \ {e[2]} |-> birth[x]] /\ UNCHANGED <<stamp, born>>
       [] e[1] = "ret" -> Returned(Containers2) /\ UNCHANGED <<stamp, born, died, birth>>

Call == \E c, d \in Containers : \/ Ctor(c) \/ Dtor(c) \/ Copy(c, d) \/ AssignTo(c, d) \/ Grow(c)
                                 \/ \E i \in 1..Slots : Get(c, i) \/ Set(c, i)
Next == Run \/ Call
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Run)

(* ---------------- checked ---------------- *)
(* every object is destroyed exactly once or still alive *)
ExactlyOnce == born = died + Cardinality(DOMAIN mem)
(* objects hold what was put there when they were constructed *)
Intact == DOMAIN birth = DOMAIN mem /\ \A a \in DOMAIN mem : mem[a][1] = birth[a]
(* members live in storage which is in use *)
Housed == \A a \in DOMAIN mem : mem[a][2] = 0 \/ mem[a][2] \in open
Quiescent == prog = <<>>
NothingLeft == Quiescent => /\ open = {own[c] : c \in Containers} \ {0}
                            /\ InBlock(0) = {}
                            /\ Cardinality(DOMAIN mem) = Slots * Cardinality(open)
AllGone == (Quiescent /\ \A c \in Containers : own[c] = 0) => ENABLED Over(0)
(* the rules never refuse an event of a well behaved container *)
NeverStuck == ~Quiescent => ENABLED Run
Bound == born <= MaxBorn
CallsReturn == []<>Quiescent
=============================================================================
