----------------------------- MODULE Concurrent -----------------------------
(* Threads which use soa_grids at the same time.  Work is done in phases   *)
(* which are separated by barriers.  During a phase each grid is either    *)
(* local to one thread (which may do anything with it), shared for reading *)
(* only, or its cells are divided among the threads.  Nobody may rely on   *)
(* the order of calls made by different threads within a phase, so every   *)
(* call is one atomic step here and the steps of threads interleave freely.*)
(* What is to be shown (SoloView): each thread sees what it would see if   *)
(* it were the only one.                                                   *)
EXTENDS Grid
CONSTANT N           \* threads
VARIABLE mode        \* per grid
Threads == 1..N
Modes == {<<"local", t>> : t \in Threads} \cup {<<"shared">>, <<"rows">>, <<"cells">>, <<"blocks">>}
Owner(g, p) ==
  CASE mode[g][1] = "local"  -> mode[g][2]
    [] mode[g][1] = "shared" -> 0
    [] mode[g][1] = "rows"   -> 1 + ((p[2] + p[3]) % N)
    [] mode[g][1] = "cells"  -> 1 + (p[1] % N)
    [] mode[g][1] = "blocks" -> 1 + ((p[1] \div 3) % N)
MayRead(t, g, p)  == Owner(g, p) \in {0, t}
MayWrite(t, g, p) == Owner(g, p) = t
Manages(t, g) == mode[g] = <<"local", t>>
Visible(t, g) == mode[g][1] # "local" \/ Manages(t, g)
Entire(t, g)  == mode[g] \in {<<"shared">>, <<"local", t>>}
Row(p, n) == {<<p[1] + i, p[2], p[3]>> : i \in 0..n - 1}
AllRead(t, g, st)  == \A i \in 1..Len(st) : \A q \in Row(st[i][1], st[i][2]) : MayRead(t, g, q)
AllWrite(t, g, st) == \A i \in 1..Len(st) : \A q \in Row(st[i][1], st[i][2]) : MayWrite(t, g, q)

(* what a thread may do *)
TConstruct(t, g, d)      == Manages(t, g) /\ Construct(g, d)
TDestroy(t, g)           == Manages(t, g) /\ Destroy(g)
TResize(t, g, d)         == Manages(t, g) /\ Resize(g, d)
TCopyConstruct(t, g, h)  == Manages(t, g) /\ Entire(t, h) /\ CopyConstruct(g, h)
TAssign(t, g, h)         == Manages(t, g) /\ Entire(t, h) /\ Assign(g, h)
TSwap(t, g, h)           == Manages(t, g) /\ Manages(t, h) /\ Swap(g, h)
TSet(t, g, p, c)         == MayWrite(t, g, p) /\ Set(g, p, c)
TSetRow(t, g, p, cs)     == Visible(t, g) /\ AllWrite(t, g, <<<<p, Len(cs)>>>>) /\ SetRow(g, p, cs)
TBroadcast(t, g, p, c, n) == Visible(t, g) /\ AllWrite(t, g, <<<<p, n>>>>) /\ Broadcast(g, p, c, n)
TGetRow(t, g, p, n)      == Visible(t, g) /\ AllRead(t, g, <<<<p, n>>>>) /\ GetRow(g, p, n)
TSetMember(t, g, p, r, s, k, v) == MayWrite(t, g, Add(Add(p, r), s)) /\ SetMember(g, p, r, s, k, v)
TSetCellAt(t, g, p, r, s, c)    == MayWrite(t, g, Add(Add(p, r), s)) /\ SetCellAt(g, p, r, s, c)
TGetAt(t, g, p, r, s)    == MayRead(t, g, Add(Add(p, r), s)) /\ GetAt(g, p, r, s)
TWalkRow(t, g, p, n, k, v) == Visible(t, g) /\ AllWrite(t, g, <<<<p, n>>>>) /\ WalkRow(g, p, n, k, v)
TSave(t, g, st, count)   == Visible(t, g) /\ AllRead(t, g, st) /\ Save(g, st, count)
TLoad(t, g, st, count, buf) == Visible(t, g) /\ AllWrite(t, g, st) /\ Load(g, st, count, buf)
TTransfer(t, g, stg, h, sth) == Visible(t, g) /\ Visible(t, h) /\ AllRead(t, g, stg) /\ AllWrite(t, h, sth) /\ Transfer(g, stg, h, sth)
TCallback(t, g)          == Visible(t, g) /\ Callback(g)
TDual(t, g, h, p, q, asymmetric) == Visible(t, g) /\ Visible(t, h) /\ MayRead(t, g, p) /\ MayWrite(t, h, q) /\ DualCallback(g, h, p, q, asymmetric)

Barrier == \E m \in [Ids -> Modes] : mode' = m /\ UNCHANGED grid /\ Return("ok", <<>>)
CInit == Init /\ mode = [g \in Ids |-> <<"local", 1>>]
=============================================================================
