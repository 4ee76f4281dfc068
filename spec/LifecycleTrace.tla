--------------------------- MODULE LifecycleTrace ---------------------------
(* Checks recorded events against Lifecycle.tla.  One behaviour per line of *)
(* the file TRACE, each a sequence of events.                               *)
EXTENDS Lifecycle, Json, IOUtils, CSV

Behaviours == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n,    \* which behaviour
          l,    \* next event
          verdict
tvars == <<mem, open, n, l, verdict>>

TInit == LInit /\ n \in 1..Len(Behaviours) /\ l = 1 /\ verdict = "open"

Ev == Behaviours[n][l]
Step(e) ==
  \/ e[1] = 1 /\ Construct(e[2], e[3], e[4])
  \/ e[1] = 2 /\ CopyConstruct(e[2], e[3], e[4], e[5], e[6])
  \/ e[1] = 3 /\ Assign(e[2], e[3], e[4], e[5])
  \/ e[1] = 4 /\ Destroy(e[2], e[3])
  \/ e[1] = 5 /\ Read(e[2], e[3])
  \/ e[1] = 6 /\ Obtain(e[2])
  \/ e[1] = 7 /\ Release(e[2])
  \/ e[1] = 8 /\ Returned(e[2])
  \/ e[1] = 9 /\ Over(e[2])

Report(v) == CSVWrite("%1$s,%2$s,%3$s", <<v, n, l>>, IOEnv.OUT)
Consume == /\ verdict = "open" /\ l <= Len(Behaviours[n])
           /\ Step(Ev)
           /\ l' = l + 1 /\ UNCHANGED <<n, verdict>>
Reject  == /\ verdict = "open" /\ l <= Len(Behaviours[n])
           /\ ~ENABLED Step(Ev)
           /\ verdict' = "rejected" /\ Report("rejected") /\ UNCHANGED <<mem, open, n, l>>
Accept  == /\ verdict = "open" /\ l > Len(Behaviours[n])
           /\ verdict' = "accepted" /\ Report("accepted") /\ UNCHANGED <<mem, open, n, l>>
TSpec == TInit /\ [][Consume \/ Reject \/ Accept]_tvars
=============================================================================
