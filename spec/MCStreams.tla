----------------------------- MODULE MCStreams -----------------------------
(***************************************************************************)
(* Small worlds of streams and files, explored completely by TLC.          *)
(*                                                                         *)
(* The actions are those of TaLib, with the results the library is to give *)
(* and with small arguments: a few handles, one or two functions, series   *)
(* that come in units (the unit at which a stream becomes ready is Ready), *)
(* files of a few records.  TLC checks the invariants of the design in     *)
(* every reachable state and reports every transition; the checks of       *)
(* C02-C05 execute all of these transitions with functions of the library, *)
(* and Trace.tla judges what they did.                                     *)
(***************************************************************************)
EXTENDS TaLib, SequencesExt

CONSTANTS
  Handles,     \* handle variables
  Fns,         \* functions, each with a series of its own
  Slots,       \* files
  MaxUnits,    \* units of a series
  Ready,       \* units before a stream has its first value
  MaxRecs,     \* records of a file
  Steps,       \* sizes of feeds and chunks, in units
  Features     \* subset of {"chunk", "file", "misuse", "fault", "paths"}

VARIABLES cmd   \* the call made last

Opt == <<3>>             \* parameters of a stream, all alike in the model
Bad == <<1>>             \* refused parameters
DataOf(f) == IF f = "SMA" THEN 0 ELSE 1
Poisoned(h) == IsOpen(h) /\ hnd[h].hist # <<>> /\ hnd[h].hist[1][1] = -1
Pos(h) == Consumed(hnd[h].hist)
Can(what) == what \in Features

Init == LibInit /\ cmd = <<>>

DoOpen == \E h \in Handles, f \in Fns :
  /\ Open(h, f, Opt, Ready, SUCCESS, 1)
  /\ cmd' = <<"open", h, f>>
DoFeed == \E h \in Handles, n \in Steps :
  /\ IsOpen(h) /\ ~Poisoned(h) /\ Pos(h) + n <= MaxUnits
  /\ Feed(h, DataOf(hnd[h].f), Pos(h), n, Runs(Missing(h, n), n))
  /\ cmd' = <<"feed", h, hnd[h].f, Pos(h), n>>
DoFree == \E h \in Handles :
  /\ h \in DOMAIN kind
  /\ Free(h, FALSE, SUCCESS)
  /\ cmd' = <<"free", h>>

DoChunk == Can("chunk") /\ \E h \in Handles, n \in Steps :
  /\ IsOpen(h) /\ ~Poisoned(h) /\ Pos(h) + n <= MaxUnits
  /\ FeedChunk(h, DataOf(hnd[h].f), 0, Pos(h), Pos(h) + n - 1, FALSE,
               IF Missing(h, n) = n THEN NEED_MORE ELSE SUCCESS, Pos(h), n)
  /\ cmd' = <<"chunk", h, hnd[h].f, Pos(h), n>>
DoEmptyChunk == Can("chunk") /\ \E h \in Handles :
  /\ IsOpen(h) /\ ~Poisoned(h)
  /\ FeedChunk(h, DataOf(hnd[h].f), 0, 5, 4, FALSE, SUCCESS, 0, 0)
  /\ cmd' = <<"empty", h, hnd[h].f>>

DoSave == Can("file") /\ \E h \in Handles, k \in Slots :
  /\ h \in DOMAIN kind /\ ~Poisoned(h)
  /\ FileOf(k).pos = FileOf(k).len /\ FileOf(k).len < MaxRecs
  /\ Save(h, k, SUCCESS, FileOf(k).pos, FileOf(k).pos + 1)
  /\ cmd' = <<"save", h, k>>
DoLoad == Can("file") /\ \E h \in Handles, k \in Slots :
  /\ k \in DOMAIN file /\ file[k].pos < file[k].len
  /\ ~IsOpen(h)
  /\ \E f \in Fns :
       /\ f = file[k].recs[file[k].pos].f
       /\ Load(h, f, k, SUCCESS, file[k].pos, file[k].pos + 1,
               IF file[k].recs[file[k].pos].st = NullState THEN 0 ELSE 1)
       /\ cmd' = <<"load", h, k, f>>
DoRewind == Can("file") /\ \E k \in Slots :
  /\ k \in DOMAIN file /\ file[k].pos > 0
  /\ FileRewind(k) /\ cmd' = <<"rewind", k>>
DoNewFile == Can("file") /\ \E k \in Slots :
  /\ FileOf(k) # EmptyFile \/ k \notin DOMAIN file
  /\ FileNew(k) /\ cmd' = <<"newfile", k>>

DoDeclare == Can("misuse") /\ \E h \in Handles, f \in Fns :
  /\ h \notin DOMAIN kind
  /\ Declare(h, f) /\ cmd' = <<"null", h, f>>
DoOpenBad == Can("misuse") /\ \E h \in Handles, f \in Fns :
  /\ Open(h, f, Bad, Ready, BAD_PARAM, 0) /\ cmd' = <<"openbad", h, f>>
DoFeedNone == Can("misuse") /\ \E h \in Handles :
  /\ h \in DOMAIN kind /\ ~IsOpen(h)
  /\ Feed(h, 0, 0, 1, <<<<BAD_PARAM, 1>>>>) /\ cmd' = <<"feednone", h, kind[h]>>
DoChunkNone == Can("misuse") /\ \E h \in Handles :
  /\ h \in DOMAIN kind /\ ~IsOpen(h)
  /\ FeedChunk(h, 0, 0, 0, 1, FALSE, BAD_PARAM, 0, 0) /\ cmd' = <<"chunknone", h, kind[h]>>
DoFreeNull == Can("misuse") /\ \E h \in Handles :
  /\ h \in DOMAIN kind
  /\ Free(h, TRUE, BAD_PARAM) /\ cmd' = <<"freenull", h>>
DoNullChunk == Can("misuse") /\ \E h \in Handles :
  /\ IsOpen(h) /\ ~Poisoned(h)
  /\ FeedChunk(h, 0, 0, 0, 1, TRUE, BAD_PARAM, 0, 0) /\ cmd' = <<"nullchunk", h, hnd[h].f>>
DoNullOut == Can("misuse") /\ \E h \in Handles :
  /\ IsOpen(h) /\ ~Poisoned(h) /\ Pos(h) + 1 <= MaxUnits
  /\ FeedNullOut(h, 1, IF Missing(h, 1) = 1 THEN <<<<NEED_MORE, 1>>>> ELSE <<<<BAD_PARAM, 1>>>>)
  /\ cmd' = <<"nullout", h, hnd[h].f, Pos(h)>>
\* loading into a handle in use, or from a file that has come to its end
DoLoadUsed == Can("misuse") /\ Can("file") /\ \E h \in Handles, k \in Slots :
  /\ IsOpen(h) /\ k \in DOMAIN file /\ file[k].pos < file[k].len
  /\ file[k].recs[file[k].pos].f = hnd[h].f
  /\ Load(h, hnd[h].f, k, BAD_PARAM, file[k].pos, file[k].pos, 0)
  /\ cmd' = <<"loadused", h, k, hnd[h].f>>
DoLoadEnd == Can("misuse") /\ Can("file") /\ \E h \in Handles, k \in Slots, f \in Fns :
  /\ k \in DOMAIN file /\ file[k].pos = file[k].len
  /\ IF h \in DOMAIN kind THEN f = kind[h] ELSE TRUE
  /\ Load(h, f, k, IO_FAILED, file[k].pos, file[k].pos, 0)
  /\ cmd' = <<"loadend", h, k, f>>
DoTruncate == Can("fault") /\ \E h \in Handles, k \in Slots :
  /\ IsOpen(h) /\ ~Poisoned(h) /\ FileOf(k) = EmptyFile
  /\ Truncated(h, k, SUCCESS, 1, 1, <<<<IO_FAILED, 1>>>>, <<<<SUCCESS, 1>>>>, <<<<0, 1>>>>, <<<<0, 1>>>>)
  /\ cmd' = <<"truncate", h, k>>
DoWriteFail == Can("fault") /\ \E h \in Handles, k \in Slots :
  /\ IsOpen(h) /\ ~Poisoned(h) /\ FileOf(k) = EmptyFile
  /\ WriteFailed(h, k, SUCCESS, 1, 1, <<<<IO_FAILED, 1>>>>)
  /\ cmd' = <<"writefail", h, k>>

Next == \/ DoOpen \/ DoFeed \/ DoFree \/ DoChunk \/ DoEmptyChunk
        \/ DoSave \/ DoLoad \/ DoRewind \/ DoNewFile
        \/ DoDeclare \/ DoOpenBad \/ DoFeedNone \/ DoChunkNone \/ DoFreeNull
        \/ DoNullChunk \/ DoNullOut \/ DoLoadUsed \/ DoLoadEnd
        \/ DoTruncate \/ DoWriteFail
Spec == Init /\ [][Next]_<<libvars, cmd>>

(***************************************************************************)
(* What the design is to guarantee                                         *)
(***************************************************************************)
\* a stream knows what it has consumed: always a prefix of its series
HistoriesArePrefixes ==
  \A h \in DOMAIN hnd : hnd[h].hist = <<>> \/ hnd[h].hist[1][1] = -1
                        \/ hnd[h].hist = <<<<DataOf(hnd[h].f), 0, Pos(h)>>>>
\* what a file holds are such states, too: a stream that is loaded goes on
\* where the saved one was
RecordsArePrefixes ==
  \A k \in DOMAIN file : \A p \in DOMAIN file[k].recs :
    LET st == file[k].recs[p].st IN
    st = NullState \/ (st.f = file[k].recs[p].f /\ (st.hist = <<>> \/ st.hist = <<<<DataOf(st.f), 0, Consumed(st.hist)>>>>))
Budget == heap = Cardinality(DOMAIN hnd)
\* a call concerns one stream: no other one changes
OnlyOne == Cardinality({h \in Handles : (h \in DOMAIN hnd) # (h \in DOMAIN hnd')
                          \/ (h \in DOMAIN hnd /\ h \in DOMAIN hnd' /\ hnd[h] # hnd'[h])}) <= 1
\* neither saving nor anything refused changes a stream
Quiet == cmd'[1] \in {"save", "empty", "rewind", "newfile", "feednone", "chunknone", "freenull",
                      "nullchunk", "loadused", "loadend", "truncate", "writefail", "openbad", "null"}
           => hnd' = hnd /\ heap' = heap
Isolation == [][OnlyOne /\ Quiet]_<<libvars, cmd>>

\* states by name, in a unique way
HandleKey(h, hs, ks) == IF h \in DOMAIN hs THEN <<"open", hs[h].f, hs[h].hist>>
                        ELSE IF h \in DOMAIN ks THEN <<"null", ks[h]>> ELSE <<"none">>
RecordKey(r) == IF r.st = NullState THEN <<"null", r.f>> ELSE <<"open", r.f, r.st.hist>>
SlotKey(k, fs) == IF k \in DOMAIN fs
                  THEN <<fs[k].pos, [p \in 1..fs[k].len |-> RecordKey(fs[k].recs[p-1])]>> ELSE <<>>
InOrder(S) == SetToSortSeq(S, <)
Key(hs, ks, fs) == <<[i \in 1..Cardinality(Handles) |-> HandleKey(InOrder(Handles)[i], hs, ks)],
                     [i \in 1..Cardinality(Slots) |-> SlotKey(InOrder(Slots)[i], fs)]>>
View == Key(hnd, kind, file)
Emit == PrintT(ToString(View) \o " ==> " \o ToString(cmd') \o " ==> " \o ToString(Key(hnd', kind', file')))
First == cmd = <<>> => PrintT("initial: " \o ToString(View))
=============================================================================
