------------------------------ MODULE MCRings ------------------------------
(***************************************************************************)
(* How a stream remembers: it does not keep its history, as TaLib's        *)
(* streams do, but a ring of the last bars, sums that are carried on and   *)
(* the place of an extreme that is looked for again only when it leaves    *)
(* the window.  This module runs such a memory beside the history it       *)
(* stands for and states that nothing a function of the last Period bars   *)
(* can be asked for is lost: the ring is the end of the history, the sum   *)
(* is the sum of the window, the extreme and its place (the last one among *)
(* equals) are those of the window, whatever is fed in whatever chunks and *)
(* however often the stream is saved and loaded in between.  So a function *)
(* of the memory is a function of the history (the definitions of          *)
(* Indicators.tla), a stream is the batch call bar by bar (C01), a loaded  *)
(* stream continues the saved one (C02), and chunks do not matter (C03).   *)
(*                                                                         *)
(* Fault names one way to get it wrong; TLC has to find a history for each *)
(* (MCRings-*.cfg): "idx" the count is saved modulo the ring, "place" the  *)
(* place of the extreme is not saved, "short" the ring is one bar short,   *)
(* "tie" the first of equal extremes is kept, "late" the sum drops its     *)
(* oldest bar one bar late, "chunk" a chunk starts with its extreme afresh.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Period, Values, MaxLen, Saving, Fault

VARIABLES hist,   \* the bars consumed
          m,      \* the memory of the stream
          file,   \* a saved memory and the history it had (<<>>: none)
          out     \* what the last bar fed was answered with
rvars == <<hist, m, file, out>>

None == <<0>>
Size == IF Fault = "short" THEN Period - 1 ELSE Period
Fresh == [ring |-> [i \in 0..Period-1 |-> 0], n |-> 0, sum |-> 0, top |-> 0, at |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
Last(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* ---- what a function of the last Period bars is (history)
Window(h) == Last(h, IF Len(h) < Period THEN Len(h) ELSE Period)
TopOf(h) == CHOOSE v \in Values : (\E i \in 1..Len(Window(h)) : Window(h)[i] = v) /\ \A i \in 1..Len(Window(h)) : Window(h)[i] <= v
AtOf(h) == CHOOSE i \in 1..Len(h) : h[i] = TopOf(h) /\ \A j \in i+1..Len(h) : h[j] # TopOf(h)
Answer(h) == IF Len(h) < Period THEN <<>> ELSE <<Sum(Window(h)), TopOf(h), Len(h) - AtOf(h)>>

\* ---- what the stream does with a bar (memory)
Slot(i) == (i - 1) % Size                       \* bar i (from 1) lies there
Rescan(ring, n) ==                              \* the last greatest bar among n-Period+1..n
  LET at == CHOOSE i \in n-Period+1..n : /\ \A j \in n-Period+1..n : ring[Slot(j)] <= ring[Slot(i)]
                                         /\ \A j \in i+1..n : ring[Slot(j)] < ring[Slot(i)]
  IN <<ring[Slot(at)], at>>
Step(s, v) ==
  LET n == s.n + 1
      old == IF n > Period THEN s.ring[Slot(n)] ELSE 0      \* the bar that leaves, still there
      drop == IF Fault = "late" /\ n = Period + 1 THEN 0 ELSE old
      ring == [s.ring EXCEPT ![Slot(n)] = v]
      best == IF n = 1 \/ v > s.top \/ (v = s.top /\ Fault # "tie") THEN <<v, n>>
              ELSE IF n > Period /\ s.at <= n - Period THEN Rescan(ring, n)
              ELSE <<s.top, s.at>>
  IN [ring |-> ring, n |-> n, sum |-> s.sum + v - drop, top |-> best[1], at |-> best[2]]
Says(s) == IF s.n < Period THEN <<>> ELSE <<s.sum, s.top, s.n - s.at>>
RECURSIVE Steps(_, _)
Steps(s, vs) == IF vs = <<>> THEN s ELSE Steps(Step(s, Head(vs)), Tail(vs))

Init == hist = <<>> /\ m = Fresh /\ file = <<>> /\ out = None
Feed(v) ==
  /\ Len(hist) < MaxLen
  /\ hist' = Append(hist, v) /\ m' = Step(m, v) /\ out' = Says(m')
  /\ UNCHANGED file
Chunk(vs) ==
  /\ Len(hist) + Len(vs) <= MaxLen
  /\ hist' = hist \o vs
  /\ m' = Steps(IF Fault = "chunk" THEN [m EXCEPT !.top = 0, !.at = m.n] ELSE m, vs) /\ out' = Says(m')
  /\ UNCHANGED file
Save ==
  /\ Saving
  /\ file' = <<[hist |-> hist, m |-> CASE Fault = "idx" -> [m EXCEPT !.n = @ % Period]
                                     [] Fault = "place" -> [m EXCEPT !.at = 0]
                                     [] OTHER -> m]>>
  /\ UNCHANGED <<hist, m, out>>
Load ==
  /\ file # <<>>
  /\ hist' = file[1].hist /\ m' = file[1].m /\ out' = None
  /\ UNCHANGED file
Next == (\E v \in Values : Feed(v)) \/ (\E v, w \in Values : Chunk(<<v, w>>)) \/ Save \/ Load
Spec == Init /\ [][Next]_rvars

\* ---- the memory stands for the history
Ring == \A k \in 1..Len(Window(hist)) : m.ring[Slot(Len(hist) + 1 - k)] = hist[Len(hist) + 1 - k]
Count == m.n = Len(hist)
Summed == m.sum = Sum(Window(hist))
Extreme == hist # <<>> => m.top = TopOf(hist) /\ m.at = AtOf(hist)
Answered == out # None => out = Answer(hist)
=============================================================================
