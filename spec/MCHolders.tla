----------------------------- MODULE MCHolders -----------------------------
(***************************************************************************)
(* Small worlds of parameter holders, explored completely by TLC: a        *)
(* function, one holder or two, a file.  As with MCStreams the actions are *)
(* those of TaLib, and the check of C09 executes every transition with     *)
(* functions of the library that have inputs, outputs and parameters of    *)
(* the same kinds.                                                         *)
(***************************************************************************)
EXTENDS TaLib, SequencesExt

CONSTANTS Holders, Shapes, MaxUnits, Ready, Features

VARIABLES fn, cmd

Can(what) == what \in Features
\* a parameter value that is not the default, and a refused one
Other(f) == Cat[f].opts[1].def + 1
Refused(f) == Cat[f].opts[1].min - 1
\* without "setup" only holders that are ready for a call get a stream
Prepared(a) == Can("setup") \/ Refusal(a) = SUCCESS
Pos(a) == Consumed(hold[a].st.hist)
Uniform(a) == \A i, j \in DOMAIN hold[a].ins : hold[a].ins[i] = hold[a].ins[j]
In1(f) == InKind(Cat[f].ins[1])
FullMask == 31
\* the offset of inputs that begin with the series (a feed leaves them at the bar
\* that was fed, 0 or more)
Start == -1

Init == LibInit /\ fn \in Shapes /\ cmd = <<>>

DoAlloc == \E a \in Holders : ~IsHolder(a) /\ HolderAlloc(a, fn, SUCCESS, 1) /\ cmd' = <<"alloc", a>>
DoAllocUnknown == Can("misuse") /\ \E a \in Holders :
  ~IsHolder(a) /\ HolderAlloc(a, "NOTHING", FUNC_NOT_FOUND, 0) /\ cmd' = <<"unknown", a>>
DoFree == \E a \in Holders : IsHolder(a) /\ ~hold[a].open /\ HolderFree(a, SUCCESS) /\ cmd' = <<"freeholder", a>>

DoInput == \E a \in Holders : \E i \in 0..NIn(fn)-1 :
  IsHolder(a) /\ (Can("setup") \/ hold[a].ins[1].off # Start \/ hold[a].ins[1] = Unset)
  /\ SetInput(a, i, InKind(Cat[fn].ins[i+1]), 0, Start, FullMask, SUCCESS) /\ cmd' = <<"in", a, i>>
DoInputWrong == Can("misuse") /\ \E a \in Holders : IsHolder(a) /\
  \/ SetInput(a, NIn(fn), In1(fn), 0, 0, FullMask, BAD_PARAM) /\ cmd' = <<"inindex", a>>
  \/ /\ SetInput(a, 0, IF In1(fn) = "p" THEN "r" ELSE "p", 0, 0, FullMask, INVALID_HOLDER_TYPE)
     /\ cmd' = <<"inkind", a>>
  \/ In1(fn) = "r" /\ SetInput(a, 0, "r", 0, 0, 0, BAD_PARAM) /\ cmd' = <<"innull", a>>
  \/ In1(fn) = "p" /\ SetInput(a, 0, "p", 0, 0, 0, BAD_PARAM) /\ cmd' = <<"inmissing", a>>
DoOutput == \E a \in Holders : \E i \in 0..NOut(fn)-1 :
  IsHolder(a) /\ SetOutput(a, i, OutKind(Cat[fn].outs[i+1]), 1, SUCCESS) /\ cmd' = <<"out", a, i>>
DoOutputWrong == Can("misuse") /\ \E a \in Holders : IsHolder(a) /\
  \/ SetOutput(a, NOut(fn), OutKind(Cat[fn].outs[1]), 1, BAD_PARAM) /\ cmd' = <<"outindex", a>>
  \/ /\ SetOutput(a, 0, IF OutKind(Cat[fn].outs[1]) = "r" THEN "i" ELSE "r", 1, INVALID_HOLDER_TYPE)
     /\ cmd' = <<"outkind", a>>
  \/ SetOutput(a, 0, OutKind(Cat[fn].outs[1]), 0, BAD_PARAM) /\ cmd' = <<"outnull", a>>
DoOpt == Can("setup") /\ NOpt(fn) > 0 /\ \E a \in Holders : IsHolder(a) /\
  \/ SetOpt(a, 0, OptKind(Cat[fn].opts[1]), Cat[fn].opts[1].def, SUCCESS) /\ cmd' = <<"opt", a, "default">>
  \/ SetOpt(a, 0, OptKind(Cat[fn].opts[1]), Other(fn), SUCCESS) /\ cmd' = <<"opt", a, "other">>
  \/ SetOpt(a, 0, OptKind(Cat[fn].opts[1]), Refused(fn), SUCCESS) /\ cmd' = <<"opt", a, "refused">>
DoOptWrong == Can("misuse") /\ \E a \in Holders : IsHolder(a) /\
  \/ SetOpt(a, NOpt(fn), "i", 3, BAD_PARAM) /\ cmd' = <<"optindex", a>>
  \/ /\ NOpt(fn) > 0
     /\ SetOpt(a, 0, IF OptKind(Cat[fn].opts[1]) = "i" THEN "r" ELSE "i", 3, INVALID_HOLDER_TYPE)
     /\ cmd' = <<"optkind", a>>

Valid(a) == ValidOpts(fn, hold[a].opts)
DoLookback == Can("call") /\ \E a \in Holders : IsHolder(a) /\
  HolderLookback(a, SUCCESS, IF Valid(a) THEN LookbackOf(fn, hold[a].opts, g) ELSE -1)
  /\ cmd' = <<"lookback", a>>
DoCall == Can("call") /\ \E a \in Holders : IsHolder(a) /\ (Refusal(a) # SUCCESS \/ Uniform(a)) /\
  CallHolder(a, 0, 0, IF Refusal(a) # SUCCESS THEN Refusal(a) ELSE IF Valid(a) THEN SUCCESS ELSE BAD_PARAM,
             IF Valid(a) THEN SUCCESS ELSE BAD_PARAM)
  /\ cmd' = <<"call", a>>

DoOpen == Can("stream") /\ \E a \in Holders :
  /\ IsHolder(a) /\ Prepared(a) /\ ~hold[a].open
  /\ IF Valid(a) THEN HolderOpen(a, SUCCESS, Ready, 1) ELSE HolderOpen(a, BAD_PARAM, 0, 0)
  /\ cmd' = <<"open", a>>
DoFeed == Can("stream") /\ \E a \in Holders :
  /\ IsHolder(a) /\ Prepared(a) /\ (hold[a].open => Pos(a) < MaxUnits)
  /\ IF ~OutsReady(a) THEN HolderFeed(a, 0, 0, 1, <<<<OUTPUT_NOT_ALL, 1>>>>)
     ELSE IF ~hold[a].open THEN HolderFeed(a, 0, 0, 1, <<<<BAD_PARAM, 1>>>>)
     ELSE HolderFeed(a, 0, Pos(a), 1, Runs(HMissing(a, 1), 1))
  /\ cmd' = <<"feed", a, IF hold[a].open THEN Pos(a) ELSE 0>>
DoChunk == Can("stream") /\ \E a \in Holders :
  /\ IsHolder(a) /\ Prepared(a) /\ (Refusal(a) = SUCCESS => Uniform(a) /\ hold[a].ins[1].off = Start)
  /\ hold[a].open => Pos(a) < MaxUnits
  /\ LET s == IF hold[a].open THEN Pos(a) ELSE 0 IN
     /\ IF Refusal(a) # SUCCESS THEN HolderChunk(a, s - Start, s - Start, Refusal(a), 0, 0)
        ELSE IF ~hold[a].open THEN HolderChunk(a, s - Start, s - Start, BAD_PARAM, 0, 0)
        ELSE HolderChunk(a, s - Start, s - Start, IF HMissing(a, 1) = 1 THEN NEED_MORE ELSE SUCCESS, s - Start, 1)
     /\ cmd' = <<"chunk", a, s>>
DoClose == Can("stream") /\ \E a \in Holders : IsHolder(a) /\ HolderClose(a, SUCCESS) /\ cmd' = <<"close", a>>
DoSave == Can("file") /\ \E a \in Holders :
  /\ IsHolder(a) /\ Prepared(a) /\ FileOf(1) = EmptyFile
  /\ HolderSave(a, 1, SUCCESS, 0, 1) /\ cmd' = <<"save", a>>
DoLoad == Can("file") /\ \E a \in Holders :
  /\ IsHolder(a) /\ Prepared(a) /\ ~hold[a].open /\ FileOf(1).pos < FileOf(1).len
  /\ HolderLoad(a, 1, SUCCESS, 0, 1, IF FileOf(1).recs[0].st = NullState THEN 0 ELSE 1)
  /\ cmd' = <<"load", a>>
DoLoadWrong == Can("file") /\ Can("misuse") /\ \E a \in Holders : IsHolder(a) /\
  \/ /\ hold[a].open /\ FileOf(1).pos < FileOf(1).len
     /\ HolderLoad(a, 1, BAD_PARAM, 0, 0, 0) /\ cmd' = <<"loadused", a>>
  \/ /\ 1 \in DOMAIN file /\ ~hold[a].open /\ FileOf(1).pos = FileOf(1).len
     /\ HolderLoad(a, 1, IO_FAILED, FileOf(1).pos, FileOf(1).pos, 0) /\ cmd' = <<"loadend", a>>
DoRewind == Can("file") /\ FileOf(1).pos > 0 /\ FileRewind(1) /\ cmd' = <<"rewind", 1>>
DoNewFile == Can("file") /\ FileOf(1) # EmptyFile /\ FileNew(1) /\ cmd' = <<"newfile", 1>>
DoMove == Can("stream") /\ \E a, b \in Holders :
  /\ IsHolder(a) /\ IsHolder(b) /\ a # b /\ hold[a].open /\ ~hold[b].open
  /\ HolderMove(a, b, <<SUCCESS, SUCCESS, SUCCESS>>, 1) /\ cmd' = <<"move", a, b>>

Next == /\ \/ DoAlloc \/ DoAllocUnknown \/ DoFree \/ DoInput \/ DoInputWrong \/ DoOutput \/ DoOutputWrong
           \/ DoOpt \/ DoOptWrong \/ DoLookback \/ DoCall \/ DoOpen \/ DoFeed \/ DoChunk \/ DoClose
           \/ DoSave \/ DoLoad \/ DoLoadWrong \/ DoRewind \/ DoNewFile \/ DoMove
        /\ UNCHANGED fn
Spec == Init /\ [][Next]_<<libvars, fn, cmd>>

(***************************************************************************)
(* What the design is to guarantee                                         *)
(***************************************************************************)
Budget == heap = Cardinality(DOMAIN hold) + Cardinality({a \in DOMAIN hold : hold[a].open})
\* a stream keeps the parameters it was opened with
StreamsValid == \A a \in DOMAIN hold : hold[a].open => ValidOpts(fn, hold[a].st.o)
\* refused calls change nothing
Changes(cs) == cs[1] \in {"inindex", "inkind", "innull", "inmissing", "outindex", "outkind", "outnull",
                          "optindex", "optkind", "lookback", "call", "loadused", "loadend", "unknown"}
Quiet == [][Changes(cmd') => UNCHANGED <<hold, heap, file, g>>]_<<libvars, fn, cmd>>
\* the open streams concern no other holder
OthersKept == [][\A a \in DOMAIN hold : (a \in DOMAIN hold' /\ cmd'[2] # a /\ cmd'[1] # "move") => hold'[a] = hold[a]]_<<libvars, fn, cmd>>

InputKey(i) == IF i = Unset THEN 0 ELSE i.off + 2
HolderKey(a, hs) ==
  IF a \notin DOMAIN hs THEN <<>>
  ELSE <<[i \in DOMAIN hs[a].ins |-> InputKey(hs[a].ins[i])], SetToSortSeq(hs[a].outs, <),
         IF NOpt(fn) = 0 THEN 0 ELSE IF hs[a].opts[1] = Cat[fn].opts[1].def THEN 0 ELSE IF hs[a].opts[1] = Other(fn) THEN 1 ELSE 2,
         hs[a].open, hs[a].st.hist,
         IF hs[a].open /\ NOpt(fn) > 0 THEN hs[a].st.o[1] ELSE 0>>
RecordKey(r) == IF r.st = NullState THEN <<>> ELSE <<r.st.hist, IF NOpt(fn) > 0 THEN r.st.o[1] ELSE 0>>
FileKey(fs) == IF 1 \in DOMAIN fs THEN <<fs[1].pos, [p \in 1..fs[1].len |-> RecordKey(fs[1].recs[p-1])]>> ELSE <<>>
InOrder == SetToSortSeq(Holders, <)
Key(hs, fs) == <<fn, [i \in 1..Cardinality(Holders) |-> HolderKey(InOrder[i], hs)], FileKey(fs)>>
View == Key(hold, file)
Emit == PrintT(ToString(View) \o " ==> " \o ToString(cmd') \o " ==> " \o ToString(Key(hold', file')))
First == cmd = <<>> => PrintT("initial: " \o ToString(View))
=============================================================================
