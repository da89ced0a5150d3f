----------------------------- MODULE MCThreads -----------------------------
(***************************************************************************)
(* Calls take time.  Several threads, each with a stream of its own, call  *)
(* the library; a call begins (it reads the settings and the objects it    *)
(* was given) and ends (it changes its object and gives its results), and  *)
(* calls of different threads overlap in every way.                        *)
(*                                                                         *)
(* The design: a call touches the objects it was given, reads the settings *)
(* and uses no other memory that outlives it.  Then every call can be seen *)
(* as happening at once, at its end: the transitions of this module are    *)
(* actions of TaLib, every thread sees the results it would see alone, and *)
(* a recorded run may be read one thread after the other (Trace.tla).      *)
(* With Scratch = TRUE the calls share working memory: TLC then finds the  *)
(* interleaving that breaks the promise (MCThreads-scratch.cfg).           *)
(***************************************************************************)
EXTENDS TaLib

CONSTANTS Threads, MaxUnits, Ready, Scratch

VARIABLES
  busy,     \* thread -> the call in progress: [c, at, tmp] (<<>>: none)
  shared,   \* working memory all calls use, when Scratch
  seen      \* thread -> what its last call told: [want, got]
tvars == <<busy, shared, seen>>

Opt == <<3>>
Val(t, p) == <<t, p>>                     \* what a stream of thread t is to say at unit p
Pos(t) == Consumed(hnd[t].hist)
Idle(t) == busy[t].c = "none"
None == [c |-> "none", at |-> 0, tmp |-> <<>>]

Init == /\ LibInit
        /\ busy = [t \in Threads |-> None] /\ shared = <<>>
        /\ seen = [t \in Threads |-> [want |-> <<>>, got |-> <<>>]]

\* the footprint of a call: what it may write, what it may read
Writes(t) == IF Idle(t) THEN {} ELSE {<<"handle", t>>} \cup (IF Scratch THEN {<<"scratch", 0>>} ELSE {})
Reads(t)  == IF Idle(t) THEN {} ELSE Writes(t) \cup {<<"settings", 0>>}

Begin(t, c, at) ==
  /\ Idle(t)
  /\ busy' = [busy EXCEPT ![t] = [c |-> c, at |-> at, tmp |-> Val(t, at)]]
  /\ shared' = (IF Scratch THEN Val(t, at) ELSE shared)
  /\ UNCHANGED <<libvars, seen>>
BeginOpen(t)  == ~IsOpen(t) /\ Begin(t, "open", 0)
BeginFeed(t)  == IsOpen(t) /\ Pos(t) < MaxUnits /\ Begin(t, "feed", Pos(t))
BeginFree(t)  == IsOpen(t) /\ Begin(t, "free", 0)
BeginBatch(t) == \E p \in 0..MaxUnits-1 : Begin(t, "batch", p)

Result(t) == IF Scratch THEN shared ELSE busy[t].tmp
Tell(t, v) == seen' = [seen EXCEPT ![t] = [want |-> Val(t, busy[t].at), got |-> v]]
End(t) ==
  /\ ~Idle(t)
  /\ busy' = [busy EXCEPT ![t] = None] /\ UNCHANGED shared
  /\ CASE busy[t].c = "open"  -> Open(t, "SMA", Opt, Ready, SUCCESS, 1) /\ UNCHANGED seen
       [] busy[t].c = "feed"  -> /\ Feed(t, t, busy[t].at, 1, Runs(Missing(t, 1), 1))
                                 /\ IF Missing(t, 1) = 0 THEN Tell(t, Result(t)) ELSE UNCHANGED seen
       [] busy[t].c = "free"  -> Free(t, FALSE, SUCCESS) /\ UNCHANGED seen
       [] busy[t].c = "batch" -> UNCHANGED libvars /\ Tell(t, Result(t))

Next == \E t \in Threads : BeginOpen(t) \/ BeginFeed(t) \/ BeginFree(t) \/ BeginBatch(t) \/ End(t)
Spec == Init /\ [][Next]_<<libvars, tvars>>

\* what a thread is told is what it would be told alone
Alone == \A t \in Threads : seen[t].got = seen[t].want
\* overlapping calls do not conflict (this is what the race detector watches in the real library)
NoConflict == \A t, u \in Threads : t # u => Writes(t) \cap Reads(u) = {}
\* a call in progress does not lose its object to another thread
Stable == \A t \in Threads : busy[t].c \in {"feed", "free"} => IsOpen(t) /\ (busy[t].c = "feed" => Pos(t) = busy[t].at)
HistoriesOwn == \A t \in DOMAIN hnd : hnd[t].hist = <<>> \/ hnd[t].hist = <<<<t, 0, Pos(t)>>>>
Budget == heap = Cardinality(DOMAIN hnd)
=============================================================================
