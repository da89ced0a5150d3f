------------------------------- MODULE TaLib -------------------------------
(***************************************************************************)
(* TA-Lib RT as a state machine.                                           *)
(*                                                                         *)
(* The state is what a user of the C library can observe: the library      *)
(* settings, the open streams, the files streams are saved to, the         *)
(* parameter holders of the abstract interface and the memory the library  *)
(* holds for the user.  Every public call is one action; an action's       *)
(* parameters are the arguments of the call and its results, so an action  *)
(* is enabled exactly when the library may answer the call that way.       *)
(*                                                                         *)
(* What a stream or a batch call computes is a function of what it was     *)
(* given.  A stream is therefore fully described by the function, its      *)
(* parameters, its lookback and the bars it has consumed (its history);    *)
(* Trace.tla and the MC modules say what value belongs to such a history.  *)
(***************************************************************************)
EXTENDS Lookback, Flt, TLC

SUCCESS == 0            BAD_PARAM == 2          LIB_NOT_INIT == 1
FUNC_NOT_FOUND == 5     INVALID_HANDLE == 6     INVALID_HOLDER == 7
INVALID_HOLDER_TYPE == 8
INPUT_NOT_ALL == 10     OUTPUT_NOT_ALL == 11
OUT_OF_RANGE_START == 12  OUT_OF_RANGE_END == 13
GROUP_NOT_FOUND == 4    BAD_OBJECT == 15
NEED_MORE == 17         IO_FAILED == 18

\* the name of a return code
RetNames == <<"TA_SUCCESS", "TA_LIB_NOT_INITIALIZE", "TA_BAD_PARAM", "TA_ALLOC_ERR", "TA_GROUP_NOT_FOUND", "TA_FUNC_NOT_FOUND",
  "TA_INVALID_HANDLE", "TA_INVALID_PARAM_HOLDER", "TA_INVALID_PARAM_HOLDER_TYPE", "TA_INVALID_PARAM_FUNCTION",
  "TA_INPUT_NOT_ALL_INITIALIZE", "TA_OUTPUT_NOT_ALL_INITIALIZE", "TA_OUT_OF_RANGE_START_INDEX", "TA_OUT_OF_RANGE_END_INDEX",
  "TA_INVALID_LIST_TYPE", "TA_BAD_OBJECT", "TA_NOT_SUPPORTED", "TA_NEED_MORE_DATA", "TA_IO_FAILED">>
\* the answer of the abstract interface to a strange argument: null, the address of something else (alien), or a holder of nothing (hollow)
StrangeStatus(arg, how) ==
  IF how # "null" THEN IF arg = "handle" THEN INVALID_HANDLE ELSE INVALID_HOLDER
  ELSE CASE arg = "table" -> SUCCESS           \* freeing nothing
         [] arg = "info" -> INVALID_HANDLE
         [] OTHER -> BAD_PARAM                 \* place for a result, name, handle, holder
RetName(c) == IF c >= 0 /\ c < Len(RetNames) THEN RetNames[c + 1]
              ELSE IF c >= 5000 /\ c <= 5999 THEN "TA_INTERNAL_ERROR"
              ELSE "TA_UNKNOWN_ERR"

INT_DEFAULT == -2147483647 - 1
IntMax == 2147483647
REAL_DEFAULT == Lit("-4e+37")

VARIABLES
  on,      \* TRUE once the library is initialised
  g,       \* settings: [unst, compat, cs]
  hnd,     \* open streams: handle -> [f, o, lb, hist, blk]
  kind,    \* handle -> function the handle variable is declared for
  file,    \* slot -> [recs, pos, len]: what was saved at which position
  hold,    \* parameter holders: a -> [f, ins, outs, opts, st, open, blk]
  heap     \* memory blocks held for the user by the library
libvars == <<on, g, hnd, kind, file, hold, heap>>

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Without(fn, x) == [y \in DOMAIN fn \ {x} |-> fn[y]]
With(fn, x, v) == [y \in DOMAIN fn \cup {x} |-> IF y = x THEN v ELSE fn[y]]

(***************************************************************************)
(* Settings                                                                *)
(***************************************************************************)
DefaultCs == [i \in 1..NCandle |-> [rt |-> CandleDefaults[i].rt, ap |-> CandleDefaults[i].ap,
                                    fac |-> Lit(CandleDefaults[i].fac)]]
DefaultG == [unst |-> [i \in 1..NUnst |-> 0], compat |-> 0, cs |-> DefaultCs]

LibInit == /\ on = TRUE
           /\ g = DefaultG
           /\ hnd = <<>> /\ kind = <<>> /\ file = <<>> /\ hold = <<>>
           /\ heap = 0

others == <<hnd, kind, file, hold, heap>>

Initialize(rc) == /\ rc = SUCCESS /\ on' = TRUE /\ g' = DefaultG
                  /\ UNCHANGED others
\* After a shutdown the settings are gone (what they are is open) and nothing
\* but Initialize, or another Shutdown, is called until they are back.
Shutdown(rc) == /\ IF on THEN rc = SUCCESS ELSE rc = LIB_NOT_INIT
                /\ on' = FALSE
                /\ UNCHANGED <<g, others>>

SetUnstable(id, k, rc) ==
  /\ IF id > NUnst \/ id < 0 THEN rc = BAD_PARAM /\ UNCHANGED g
     ELSE /\ rc = SUCCESS
          /\ IF id = NUnst THEN g' = [g EXCEPT !.unst = [i \in 1..NUnst |-> k]]
             ELSE g' = [g EXCEPT !.unst[id+1] = k]
  /\ UNCHANGED <<on, others>>
GetUnstable(id, k) ==
  /\ k = IF id \in 0..NUnst-1 THEN g.unst[id+1] ELSE 0
  /\ UNCHANGED libvars
SetCompat(v, rc) == /\ rc = SUCCESS /\ g' = [g EXCEPT !.compat = v]
                    /\ UNCHANGED <<on, others>>
GetCompat(v) == v = g.compat /\ UNCHANGED libvars
SetCandle(id, rt, ap, fac, rc) ==
  /\ IF id \in 0..NCandle-1
     THEN rc = SUCCESS /\ g' = [g EXCEPT !.cs[id+1] = [rt |-> rt, ap |-> ap, fac |-> fac]]
     ELSE rc = BAD_PARAM /\ UNCHANGED g
  /\ UNCHANGED <<on, others>>
RestoreCandle(id, rc) ==
  /\ CASE id = NCandle -> rc = SUCCESS /\ g' = [g EXCEPT !.cs = DefaultCs]
       [] id \in 0..NCandle-1 -> rc = SUCCESS /\ g' = [g EXCEPT !.cs[id+1] = DefaultCs[id+1]]
       [] OTHER -> rc = BAD_PARAM /\ UNCHANGED g
  /\ UNCHANGED <<on, others>>

(***************************************************************************)
(* Optional parameters                                                     *)
(***************************************************************************)
OptOk(p, v) ==
  IF p.t \in {0, 1} THEN Eq(v, REAL_DEFAULT) \/ (Le(Lit(p.min), v) /\ Le(v, Lit(p.max)))
  ELSE v = INT_DEFAULT \/ (p.min <= v /\ v <= p.max)
ValidOpts(f, o) == \A k \in 1..NOpt(f) : OptOk(Cat[f].opts[k], o[k])
Resolve1(p, v) ==
  IF p.t \in {0, 1} THEN (IF Eq(v, REAL_DEFAULT) THEN Lit(p.def) ELSE v)
  ELSE (IF v = INT_DEFAULT THEN p.def ELSE v)
Resolve(f, o) == [k \in 1..NOpt(f) |-> Resolve1(Cat[f].opts[k], o[k])]
DefaultOpts(f) == [k \in 1..NOpt(f) |-> IF OptIsReal(f, k) THEN Lit(Cat[f].opts[k].def)
                                        ELSE Cat[f].opts[k].def]
IntOut(f, k) == Cat[f].outs[k].t = 1
IndexFns == {"MAXINDEX", "MININDEX", "MINMAXINDEX"}

Lookback(f, o, lb) ==
  /\ lb = IF ValidOpts(f, o) THEN LookbackOf(f, Resolve(f, o), g) ELSE -1
  /\ UNCHANGED libvars

(* The range a batch call over s..t announces, when the lookback is lb.     *)
RangeBegin(lb, s, t) == IF MaxI(s, lb) > t THEN 0 ELSE MaxI(s, lb)
RangeCount(lb, s, t) == IF MaxI(s, lb) > t THEN 0 ELSE t - MaxI(s, lb) + 1

(* Status of a batch call.                                                  *)
BatchStatus(f, o, s, t, nulls) ==
  IF s < 0 THEN OUT_OF_RANGE_START
  ELSE IF t < 0 \/ t < s THEN OUT_OF_RANGE_END
  ELSE IF nulls \/ ~ValidOpts(f, o) THEN BAD_PARAM
  ELSE SUCCESS

(***************************************************************************)
(* Streams                                                                 *)
(*                                                                         *)
(* A history is a sequence of segments <<d, i, n>>: n bars of series d     *)
(* from bar i on, adjacent segments merged.                                *)
(***************************************************************************)
Push(hist, d, i, n) ==
  IF n = 0 THEN hist
  ELSE IF hist # <<>> /\ hist[Len(hist)][1] = d /\ hist[Len(hist)][2] + hist[Len(hist)][3] = i
  THEN [hist EXCEPT ![Len(hist)] = <<d, @[2], @[3] + n>>]
  ELSE Append(hist, <<d, i, n>>)
RECURSIVE Consumed(_)
Consumed(hist) == IF hist = <<>> THEN 0 ELSE Head(hist)[3] + Consumed(Tail(hist))

IsOpen(h) == h \in DOMAIN hnd

\* A null handle variable of a function.
Declare(h, f) == /\ ~IsOpen(h) /\ kind' = With(kind, h, f)
                 /\ UNCHANGED <<on, g, hnd, file, hold, heap>>

\* lb is the lookback the stream is going to have, blk its memory blocks.
OpenNowhere(rc) == rc = BAD_PARAM /\ UNCHANGED libvars    \* no handle given
Open(h, f, o, lb, rc, blk) ==
  /\ ~IsOpen(h)
  /\ kind' = With(kind, h, f)
  /\ IF ValidOpts(f, o)
     THEN /\ rc = SUCCESS /\ blk > 0
          /\ hnd' = With(hnd, h, [f |-> f, o |-> Resolve(f, o), lb |-> lb, hist |-> <<>>, blk |-> blk])
          /\ heap' = heap + blk
     ELSE rc = BAD_PARAM /\ blk = 0 /\ UNCHANGED <<hnd, heap>>
  /\ UNCHANGED <<on, g, file, hold>>

\* Statuses of n consecutive single-bar feeds, run-length encoded.
Runs(need, n) == (IF need > 0 THEN <<<<NEED_MORE, need>>>> ELSE <<>>)
                 \o (IF n > need THEN <<<<SUCCESS, n - need>>>> ELSE <<>>)
Missing(h, n) == MaxI(0, MinI(n, hnd[h].lb - Consumed(hnd[h].hist)))

Feed(h, d, i, n, rcs) ==
  IF ~IsOpen(h) THEN rcs = <<<<BAD_PARAM, n>>>> /\ UNCHANGED libvars
  ELSE /\ rcs = Runs(Missing(h, n), n)
       /\ hnd' = [hnd EXCEPT ![h].hist = Push(@, d, i, n)]
       /\ UNCHANGED <<on, g, kind, file, hold, heap>>

\* Feeding with a null output pointer: refused, at the latest when a value is
\* due.  (Such a stream has consumed the bar all the same or not at all: it
\* is not used any more afterwards.)
FeedNullOut(h, n, rcs) ==
  /\ IsOpen(h)
  /\ \E m \in 0..Missing(h, n) :
       rcs = (IF m > 0 THEN <<<<NEED_MORE, m>>>> ELSE <<>>)
             \o (IF n > m THEN <<<<BAD_PARAM, n - m>>>> ELSE <<>>)
  /\ hnd' = [hnd EXCEPT ![h].hist = <<<<-1, 0, Consumed(@) + n>>>>]
  /\ UNCHANGED <<on, g, kind, file, hold, heap>>

\* A chunk: bars s..t of series d read from offset off.
FeedChunk(h, d, off, s, t, nul, rc, b, n) ==
  IF ~IsOpen(h) THEN rc = BAD_PARAM /\ UNCHANGED libvars
  ELSE IF nul THEN rc = BAD_PARAM /\ UNCHANGED libvars
  ELSE IF s > t THEN rc = SUCCESS /\ b = 0 /\ n = 0 /\ UNCHANGED libvars
  ELSE LET c == t - s + 1 IN
       /\ rc = (IF Missing(h, c) = c THEN NEED_MORE ELSE SUCCESS)
       /\ b = s /\ n = c
       /\ hnd' = [hnd EXCEPT ![h].hist = Push(@, d, off + s, c)]
       /\ UNCHANGED <<on, g, kind, file, hold, heap>>

\* Freeing resets the handle and gives all its memory back.
Free(h, nullptr, rc) ==
  /\ IF nullptr THEN rc = BAD_PARAM /\ UNCHANGED <<hnd, heap>>
     ELSE /\ rc = SUCCESS
          /\ IF IsOpen(h) THEN hnd' = Without(hnd, h) /\ heap' = heap - hnd[h].blk
             ELSE UNCHANGED <<hnd, heap>>
  /\ UNCHANGED <<on, g, kind, file, hold>>

(***************************************************************************)
(* Files.  A slot holds the streams saved to it: recs maps the position a  *)
(* record starts at to the saved state; NullState is a saved null handle.  *)
(***************************************************************************)
NullState == [f |-> "", o |-> <<>>, lb |-> 0, hist |-> <<>>, blk |-> 0]
EmptyFile == [recs |-> <<>>, pos |-> 0, len |-> 0]
FileOf(k) == IF k \in DOMAIN file THEN file[k] ELSE EmptyFile

FileNew(k) == /\ file' = With(file, k, EmptyFile)
              /\ UNCHANGED <<on, g, hnd, kind, hold, heap>>
FileRewind(k) == /\ file' = With(file, k, [FileOf(k) EXCEPT !.pos = 0])
                 /\ UNCHANGED <<on, g, hnd, kind, hold, heap>>

\* `to' is the position after the call: any number of bytes may be written
\* (at least one), but loading has to consume exactly as many.
Save(h, k, rc, from, to) ==
  /\ from = FileOf(k).pos
  /\ rc = SUCCESS /\ to > from
  /\ from = FileOf(k).len          \* the scripts append only
  /\ file' = With(file, k,
               [recs |-> With(FileOf(k).recs, from,
                              [st |-> IF IsOpen(h) THEN hnd[h] ELSE NullState, f |-> kind[h], to |-> to]),
                pos |-> to, len |-> to])
  /\ UNCHANGED <<on, g, hnd, kind, hold, heap>>

Load(h, f, k, rc, from, to, blk) ==
  LET F == FileOf(k) IN
  /\ from = F.pos
  /\ IF IsOpen(h) /\ from < F.len
     \* a handle in use is not touched (how much of the record was read is open)
     THEN /\ rc = BAD_PARAM \/ (rc = SUCCESS /\ F.recs[from].st = NullState)
          /\ to \in from..F.len /\ blk = 0
          /\ file' = With(file, k, [F EXCEPT !.pos = to])
          /\ UNCHANGED <<hnd, heap, kind>>
     ELSE IF from = F.len                  \* nothing left to read
     THEN /\ rc = IO_FAILED /\ to = from
          /\ kind' = (IF IsOpen(h) THEN kind ELSE With(kind, h, f))
          /\ UNCHANGED <<hnd, file, heap>> /\ blk = 0
     ELSE /\ from \in DOMAIN F.recs /\ F.recs[from].f = f
          /\ rc = SUCCESS /\ to = F.recs[from].to
          /\ file' = With(file, k, [F EXCEPT !.pos = to])
          /\ kind' = With(kind, h, f)
          /\ IF F.recs[from].st = NullState
             THEN blk = 0 /\ UNCHANGED <<hnd, heap>>
             ELSE /\ blk > 0
                  /\ hnd' = With(hnd, h, [F.recs[from].st EXCEPT !.blk = blk])
                  /\ heap' = heap + blk
  /\ UNCHANGED <<on, g, hold>>

(* Every truncation of a saved stream is refused on loading with an I/O     *)
(* failure, what was loaded so far can be freed, and nothing is leaked.     *)
Truncated(h, k, srcrc, len, cnt, rcs, frc, nn, leak) ==
  /\ IsOpen(h) /\ srcrc = SUCCESS /\ len > 0 /\ cnt > 0
  /\ rcs = <<<<IO_FAILED, cnt>>>>
  /\ frc = <<<<SUCCESS, cnt>>>>
  /\ nn = <<<<0, cnt>>>>
  /\ leak = <<<<0, cnt>>>>
  /\ file' = With(file, k, EmptyFile)      \* the slot is not used any more
  /\ UNCHANGED <<on, g, hnd, kind, hold, heap>>
WriteFailed(h, k, srcrc, len, cnt, rcs) ==
  /\ IsOpen(h) /\ srcrc = SUCCESS /\ len > 0 /\ cnt > 0
  /\ rcs = <<<<IO_FAILED, cnt>>>>
  /\ file' = With(file, k, EmptyFile)
  /\ UNCHANGED <<on, g, hnd, kind, hold, heap>>

(***************************************************************************)
(* The abstract interface: parameter holders                               *)
(***************************************************************************)
NIn(f) == Len(Cat[f].ins)
IsHolder(a) == a \in DOMAIN hold
\* the series a price input needs (bits of its flags)
Covers(mask, flags) == \A b \in {1, 2, 4, 8, 16} : Bit(flags, b) = 1 => Bit(mask, b) = 1
Unset == [d |-> -1, off |-> 0]

HolderAlloc(a, f, rc, blk) ==
  /\ ~IsHolder(a)
  /\ IF f \in Funcs
     THEN rc = SUCCESS /\ blk > 0 /\ heap' = heap + blk /\ hold' = With(hold, a, [f |-> f, ins |-> [i \in 1..NIn(f) |-> Unset],
                                   outs |-> {}, opts |-> DefaultOpts(f), st |-> NullState, open |-> FALSE, blk |-> blk])
     ELSE rc = FUNC_NOT_FOUND /\ blk = 0 /\ UNCHANGED <<hold, heap>>
  /\ UNCHANGED <<on, g, hnd, kind, file>>
\* freeing a holder gives its own memory back, but not an open stream's: the
\* user closes that first (a null holder may be freed, too)
HolderFree(a, rc) ==
  /\ rc = SUCCESS
  /\ IF IsHolder(a)
     THEN ~hold[a].open /\ hold' = Without(hold, a) /\ heap' = heap - hold[a].blk
     ELSE UNCHANGED <<hold, heap>>
  /\ UNCHANGED <<on, g, hnd, kind, file>>

InKind(p) == IF p.t = 0 THEN "p" ELSE "r"
OutKind(p) == IF p.t = 0 THEN "r" ELSE "i"
OptKind(p) == IF p.t \in {0, 1} THEN "r" ELSE "i"

\* mask: which of the pointers passed are non-null
SetInput(a, i, k, d, off, mask, rc) ==
  /\ IsHolder(a)
  /\ LET f == hold[a].f IN
     IF (k # "p" /\ mask = 0) \/ i >= NIn(f) \/ i < 0
     THEN rc = BAD_PARAM /\ UNCHANGED hold
     ELSE IF k # InKind(Cat[f].ins[i+1]) THEN rc = INVALID_HOLDER_TYPE /\ UNCHANGED hold
     ELSE IF k = "p" /\ ~Covers(mask, Cat[f].ins[i+1].f) THEN rc = BAD_PARAM /\ UNCHANGED hold
     ELSE rc = SUCCESS /\ hold' = [hold EXCEPT ![a].ins[i+1] = [d |-> d, off |-> off]]
  /\ UNCHANGED <<on, g, hnd, kind, file, heap>>
SetOutput(a, i, k, nz, rc) ==
  /\ IsHolder(a)
  /\ LET f == hold[a].f IN
     IF nz = 0 \/ i >= NOut(f) \/ i < 0 THEN rc = BAD_PARAM /\ UNCHANGED hold
     ELSE IF k # OutKind(Cat[f].outs[i+1]) THEN rc = INVALID_HOLDER_TYPE /\ UNCHANGED hold
     ELSE rc = SUCCESS /\ hold' = [hold EXCEPT ![a].outs = @ \cup {i}]
  /\ UNCHANGED <<on, g, hnd, kind, file, heap>>
SetOpt(a, i, k, v, rc) ==
  /\ IsHolder(a)
  /\ LET f == hold[a].f IN
     IF i >= NOpt(f) \/ i < 0 THEN rc = BAD_PARAM /\ UNCHANGED hold
     ELSE IF k # OptKind(Cat[f].opts[i+1]) THEN rc = INVALID_HOLDER_TYPE /\ UNCHANGED hold
     ELSE rc = SUCCESS /\ hold' = [hold EXCEPT ![a].opts[i+1] = v]
  /\ UNCHANGED <<on, g, hnd, kind, file, heap>>

InsReady(a)  == \A i \in DOMAIN hold[a].ins : hold[a].ins[i] # Unset
OutsReady(a) == Cardinality(hold[a].outs) = NOut(hold[a].f)
\* "" when the call can be made, else the status it is refused with
Refusal(a) == IF ~InsReady(a) THEN INPUT_NOT_ALL
              ELSE IF ~OutsReady(a) THEN OUTPUT_NOT_ALL ELSE SUCCESS

HolderLookback(a, rc, lb) ==
  /\ IsHolder(a) /\ rc = SUCCESS
  /\ lb = IF ValidOpts(hold[a].f, hold[a].opts)
          THEN LookbackOf(hold[a].f, Resolve(hold[a].f, hold[a].opts), g) ELSE -1
  /\ UNCHANGED libvars
CallHolder(a, s, t, rc, refstatus) ==
  /\ IsHolder(a)
  /\ rc = IF Refusal(a) # SUCCESS THEN Refusal(a) ELSE refstatus
  /\ UNCHANGED libvars

HolderOpen(a, rc, lb, blk) ==
  /\ IsHolder(a) /\ ~hold[a].open
  /\ LET f == hold[a].f IN
     IF ValidOpts(f, hold[a].opts)
     THEN /\ rc = SUCCESS /\ blk > 0
          /\ hold' = [hold EXCEPT ![a].open = TRUE,
                ![a].st = [f |-> f, o |-> Resolve(f, hold[a].opts), lb |-> lb, hist |-> <<>>, blk |-> blk]]
          /\ heap' = heap + blk
     ELSE rc = BAD_PARAM /\ blk = 0 /\ UNCHANGED <<hold, heap>>
  /\ UNCHANGED <<on, g, hnd, kind, file>>
HMissing(a, n) == MaxI(0, MinI(n, hold[a].st.lb - Consumed(hold[a].st.hist)))
\* single-bar feeds; every bar is set as the holder's input first
HolderFeed(a, d, i, n, rcs) ==
  /\ IsHolder(a)
  /\ LET r  == [hold EXCEPT ![a].ins = [j \in DOMAIN @ |-> [d |-> d, off |-> i + n - 1]]] IN
     IF ~OutsReady(a) THEN rcs = <<<<OUTPUT_NOT_ALL, n>>>> /\ hold' = r
     ELSE IF ~hold[a].open THEN rcs = <<<<BAD_PARAM, n>>>> /\ hold' = r
     ELSE /\ rcs = Runs(HMissing(a, n), n)
          /\ hold' = [r EXCEPT ![a].st.hist = Push(@, d, i, n)]
  /\ UNCHANGED <<on, g, hnd, kind, file, heap>>
\* a feed through a holder that cannot take one
HolderBare(a, rc) ==
  /\ IsHolder(a) /\ rc # SUCCESS /\ (hold[a].open => Refusal(a) # SUCCESS)
  /\ rc = IF Refusal(a) # SUCCESS THEN Refusal(a) ELSE BAD_PARAM
  /\ UNCHANGED libvars
HolderChunk(a, s, t, rc, b, n) ==
  /\ IsHolder(a)
  /\ IF Refusal(a) # SUCCESS THEN rc = Refusal(a) /\ UNCHANGED hold
     ELSE IF ~hold[a].open THEN rc = BAD_PARAM /\ UNCHANGED hold
     ELSE IF s > t THEN rc = SUCCESS /\ b = 0 /\ n = 0 /\ UNCHANGED hold
     ELSE LET c == t - s + 1 IN
          /\ rc = (IF HMissing(a, c) = c THEN NEED_MORE ELSE SUCCESS)
          /\ b = s /\ n = c
          /\ hold' = [hold EXCEPT ![a].st.hist = Push(@, hold[a].ins[1].d, hold[a].ins[1].off + s, c)]
  /\ UNCHANGED <<on, g, hnd, kind, file, heap>>
HolderClose(a, rc) ==
  /\ IsHolder(a) /\ rc = SUCCESS
  /\ hold' = [hold EXCEPT ![a].open = FALSE, ![a].st = NullState]
  /\ heap' = heap - hold[a].st.blk
  /\ UNCHANGED <<on, g, hnd, kind, file>>
HolderSave(a, k, rc, from, to) ==
  /\ IsHolder(a) /\ from = FileOf(k).pos /\ from = FileOf(k).len
  /\ rc = SUCCESS /\ to > from
  /\ file' = With(file, k, [recs |-> With(FileOf(k).recs, from,
                 [st |-> hold[a].st, f |-> hold[a].f, to |-> to]), pos |-> to, len |-> to])
  /\ UNCHANGED <<on, g, hnd, kind, hold, heap>>
HolderLoad(a, k, rc, from, to, blk) ==
  LET F == FileOf(k) IN
  /\ IsHolder(a) /\ from = F.pos
  /\ IF hold[a].open /\ from < F.len
     THEN \* a stream in use is not touched (how much of the record was read is open)
          /\ rc = BAD_PARAM \/ (rc = SUCCESS /\ F.recs[from].st = NullState)
          /\ to \in from..F.len /\ blk = 0
          /\ file' = With(file, k, [F EXCEPT !.pos = to])
          /\ UNCHANGED <<hold, heap>>
     ELSE IF from = F.len THEN rc = IO_FAILED /\ to = from /\ blk = 0 /\ UNCHANGED <<hold, file, heap>>
     ELSE /\ from \in DOMAIN F.recs /\ F.recs[from].f = hold[a].f
          /\ rc = SUCCESS /\ to = F.recs[from].to
          /\ file' = With(file, k, [F EXCEPT !.pos = to])
          /\ IF F.recs[from].st = NullState THEN blk = 0 /\ UNCHANGED <<hold, heap>>
             ELSE /\ blk > 0 /\ heap' = heap + blk
                  /\ hold' = [hold EXCEPT ![a].open = TRUE, ![a].st = [F.recs[from].st EXCEPT !.blk = blk]]
  /\ UNCHANGED <<on, g, hnd, kind>>
\* handing the state of one holder over to another one
HolderMove(a, a2, rcs, nn) ==
  /\ IsHolder(a) /\ IsHolder(a2) /\ a # a2 /\ ~hold[a2].open /\ hold[a].f = hold[a2].f
  /\ rcs = <<SUCCESS, SUCCESS, SUCCESS>> /\ nn = (IF hold[a].open THEN 1 ELSE 0)
  /\ hold' = [hold EXCEPT ![a].open = FALSE, ![a].st = NullState,
                          ![a2].open = hold[a].open, ![a2].st = hold[a].st]
  /\ UNCHANGED <<on, g, hnd, kind, file, heap>>

(***************************************************************************)
(* Introspection.  What the library says about itself is the catalog.      *)
(***************************************************************************)
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
ListsOnce(seq, S) == Len(seq) = Cardinality(S) /\ SetOf(seq) = S
FindStatus(n) == IF n = "" THEN BAD_PARAM ELSE IF n \in Funcs THEN SUCCESS ELSE FUNC_NOT_FOUND
InGroup(grp) == {f \in Funcs : Cat[f].group = grp}
\* real values of the catalog are decimal strings, those of a reply numbers
OptInfoOk(p, q) ==
  /\ q.n = p.n /\ q.t = p.t /\ q.f = p.f /\ q.disp = p.disp /\ q.hint = p.hint
  /\ CASE p.t = 0 -> /\ Eq(Dec(q.min)[1], Lit(p.min)) /\ Eq(Dec(q.max)[1], Lit(p.max))
                     /\ Eq(Dec(q.def)[1], Lit(p.def)) /\ q.prec = p.prec
                     /\ \A i \in 1..3 : Eq(Dec(q.sug[i])[1], Lit(p.sug[i]))
       [] p.t = 2 -> q.min = p.min /\ q.max = p.max /\ q.def = p.def /\ q.sug = p.sug
       [] p.t = 3 -> q.min = p.min /\ q.max = p.max /\ q.def = p.def /\ q.list = p.list
InfoOk(f, e) ==
  LET c == Cat[f] IN
  /\ e.name = f /\ e.group = c.group /\ e.camel = c.camel /\ e.hint = c.hint /\ e.flags = c.flags
  /\ e.nin = Len(c.ins) /\ e.nout = Len(c.outs) /\ e.nopt = Len(c.opts)
  /\ e.ins = c.ins /\ e.outs = c.outs
  /\ Len(e.opts) = Len(c.opts) /\ \A i \in 1..Len(c.opts) : OptInfoOk(c.opts[i], e.opts[i])

(***************************************************************************)
(* Invariants of the design (checked by TLC on the MC models and, at every *)
(* step, on every trace).                                                  *)
(***************************************************************************)
RECURSIVE SumBlk(_)
SumBlk(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumBlk(S \ {x})
\* all memory the library holds belongs to an open stream
HeapAccounted == heap = SumBlk({<<<<"h", h>>, hnd[h].blk>> : h \in DOMAIN hnd}
                               \cup {<<<<"a", a>>, hold[a].st.blk + hold[a].blk>> : a \in DOMAIN hold})
FilesWellFormed == \A k \in DOMAIN file : \A p \in DOMAIN file[k].recs :
                     p < file[k].recs[p].to /\ file[k].recs[p].to <= file[k].len
HandleKind == \A h \in DOMAIN hnd : hnd[h].f = kind[h]
=============================================================================
