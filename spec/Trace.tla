------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance of recorded executions: one line of the trace is one public *)
(* call with its arguments and results, and one action of TaLib.  A trace  *)
(* is accepted when all its lines can be consumed.                         *)
(*                                                                         *)
(* What the calls compute is compared with an oracle: another recorded     *)
(* call, of the kind the property names (a batch call, a lone stream, the  *)
(* direct call ...), on the same input.  The oracle of a line is found     *)
(* through the state of the specification, not through the recorder.       *)
(***************************************************************************)
EXTENDS TaLib, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == atoi(IOEnv.TOL)            \* decimal digits results have to agree to

VARIABLES
  l,       \* next line
  oracle,  \* <<f, o, d, off>> -> [line, base, lb]: outputs known for series d
           \*    read from offset off; the first one belongs to bar base of d
  lbs,     \* <<f, o>> -> lookback of the oracle
  ref,     \* line of the last reference batch call, 0 = none
  refunst, \* the unstable periods it was made under
  ser,     \* series -> line that shows its values
  deriv    \* series -> [src, from, to]: equal to src on bars from..to
vars == <<libvars, l, oracle, lbs, ref, refunst, ser, deriv>>
aux == <<oracle, lbs, ref, refunst, ser, deriv>>

TraceInit == /\ LibInit
             /\ l = 1 /\ oracle = <<>> /\ lbs = <<>> /\ ref = 0 /\ refunst = <<>> /\ ser = <<>> /\ deriv = <<>>

Ev == Trace[l]
\* Memory is accounted for only where the property judged speaks of it; then
\* blk is the number of blocks a call really left allocated.
Accounting == IOEnv.PROP \in {"C05", "C09"}
Blocks(delta, opened) == IF Accounting THEN delta ELSE IF opened THEN 1 ELSE 0
HeapIs(x) == Accounting => Ev.heap = x
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

\* optional parameters as recorded: reals are bit patterns
Opts(f, o) == [k \in 1..NOpt(f) |-> IF OptIsReal(f, k) THEN Dec(o[k])[1] ELSE o[k]]
EvOpts == Opts(Ev.f, Ev.o)

(* n elements of output k, from the (i+1)-th of a and the (j+1)-th of b;    *)
(* shift is added to the elements of b when they are bar indices.           *)
\* differences of sums of squares or products, and their quotients: rounding may be all there is
Cancelling == {"VAR", "STDDEV", "BBANDS", "CORREL", "BETA", "CCI", "LINEARREG", "LINEARREG_ANGLE",
               "LINEARREG_INTERCEPT", "LINEARREG_SLOPE", "TSF"}
\* a stream and a batch call may add up in a different order; otherwise it is the same code twice
TolOf(f) == IF IOEnv.PROP \in {"C01", "C12"} /\ f \in Cancelling THEN MinI(Tol, 6) ELSE Tol
SameOut(f, k, a, i, b, j, n, shift) ==
  IF IntOut(f, k)
  THEN IF f \in IndexFns THEN \A m \in 1..n : a[k][i+m] = b[k][j+m] + shift
       ELSE \A m \in 1..n : a[k][i+m] = b[k][j+m]
  ELSE Differ(Dec(a[k]), i, Dec(b[k]), j, n, TolOf(f)) = 0
SameOuts(f, a, i, b, j, n, shift) == \A k \in 1..NOut(f) : SameOut(f, k, a, i, b, j, n, shift)

(***************************************************************************)
(* Settings, data                                                          *)
(***************************************************************************)
TSeries  == IsEvent("Series") /\ ser' = With(ser, Ev.d, l)
            /\ UNCHANGED <<libvars, oracle, lbs, ref, refunst, deriv>>
TDerived == IsEvent("Derived") /\ deriv' = With(deriv, Ev.d, [src |-> Ev.src, from |-> Ev.from, to |-> Ev.to])
            /\ UNCHANGED <<libvars, oracle, lbs, ref, refunst, ser>>
\* the calls of a thread follow: calls of different threads commute, so they may be seen one thread after the other
TThread  == IsEvent("Thread") /\ UNCHANGED <<libvars, aux>>
TForget  == IsEvent("Forget") /\ oracle' = <<>> /\ lbs' = <<>> /\ ref' = 0 /\ refunst' = <<>> /\ deriv' = <<>>
            /\ hnd = <<>> /\ kind' = <<>> /\ file' = <<>>
            /\ UNCHANGED <<on, g, hnd, hold, heap, ser>>

TSettings ==
  /\ \/ IsEvent("Initialize")    /\ Initialize(Ev.rc)
     \/ IsEvent("Shutdown")      /\ Shutdown(Ev.rc)
     \/ IsEvent("SetUnstable")   /\ SetUnstable(Ev.id, Ev.k, Ev.rc)
     \/ IsEvent("GetUnstable")   /\ GetUnstable(Ev.id, Ev.k)
     \/ IsEvent("SetCompat")     /\ SetCompat(Ev.v, Ev.rc)
     \/ IsEvent("GetCompat")     /\ GetCompat(Ev.v)
     \/ IsEvent("SetCandle")     /\ SetCandle(Ev.id, Ev.rt, Ev.ap, Dec(Ev.fac)[1], Ev.rc)
     \/ IsEvent("RestoreCandle") /\ RestoreCandle(Ev.id, Ev.rc)
  \* what an oracle said under other settings is of no use any more
  /\ IF g' = g THEN UNCHANGED <<oracle, lbs>> ELSE oracle' = <<>> /\ lbs' = <<>>
  /\ UNCHANGED <<ref, refunst, ser, deriv>>

TLookback == IsEvent("Lookback") /\ Lookback(Ev.f, EvOpts, Ev.lb) /\ UNCHANGED aux
\* the lookback of every function with its default parameters
TLookbacks ==
  /\ IsEvent("Lookbacks")
  /\ \A i \in 1..Len(Ev.lbs) : Ev.lbs[i][2] = LookbackOf(Ev.lbs[i][1], DefaultOpts(Ev.lbs[i][1]), g)
  /\ UNCHANGED <<libvars, aux>>

(***************************************************************************)
(* Definitions of the outputs (C14, C15)                                   *)
(***************************************************************************)
Cdl(S, pen) == INSTANCE Candles WITH O <- S.O, H <- S.H, L <- S.L, C <- S.C, cs <- S.cs, pen <- pen
ShownSeries(d) == LET c == Trace[ser[d]].c IN
  [O |-> Dec(c[1]), H |-> Dec(c[2]), L |-> Dec(c[3]), C |-> Dec(c[4]),
   cs |-> [name \in SetOf(CandleIds) |-> g.cs[CandleId(name) + 1]]]
Ind(unst, metastock) == INSTANCE Indicators
\* columns of a series in the order of the inputs of f (1-5: open .. volume)
PriceFlags == <<1, 2, 4, 8, 16>>
RECURSIVE ColumnsOf(_, _, _)
ColumnsOf(f, k, reals) ==
  IF k > NIn(f) THEN <<>>
  ELSE LET p == Cat[f].ins[k] IN
       IF p.t = 0 THEN SelectSeq(<<1, 2, 3, 4, 5>>, LAMBDA c : (p.f \div PriceFlags[c]) % 2 = 1)
                       \o ColumnsOf(f, k + 1, reals)
       ELSE <<IF f = "MAVP" /\ k = 2 THEN 8 ELSE 6 + reals>> \o ColumnsOf(f, k + 1, reals + 1)
InputsFrom(f, d, off, n) ==
  LET c == Trace[ser[d]].c  cols == ColumnsOf(f, 1, 0) IN
  [k \in 1..Len(cols) |-> SubSeq(Dec(c[cols[k]]), off + 1, off + n)]
InputsOf(f, d, n) == InputsFrom(f, d, 0, n)
UnstByName == [name \in UnstNames |-> UnstOf(g, name)]

(* Where a definition leaves an output open, because the result hangs on    *)
(* the rounding of intermediate results (a comparison of equal numbers, a   *)
(* denominator that is zero up to rounding), two correct calculations may   *)
(* differ.  Applies where the series is on display: scripts show it when a  *)
(* comparison without it has failed.  r is the batch call that has b.       *)
BatchOn(r) == r.e = "Batch" /\ r.d \in DOMAIN ser /\ r.rc = SUCCESS /\ r.skip = 0 /\ r.f \notin IndexFns
OpenAt(r, a, i, b, j, n, tol) ==
  LET f == r.f  o == Resolve(f, Opts(f, r.o)) IN
  IF IsCandle(f)
  THEN \E S \in {ShownSeries(r.d)} : \E p \in {IF NOpt(f) = 0 THEN Zero ELSE o[1]} :
         \A m \in 1..n : a[1][i+m] = b[1][j+m]
                        \/ {a[1][i+m], b[1][j+m]} \subseteq Cdl(S, p)!Allowed(f, r.off + r.b + j + m - 1)
  ELSE \E v \in {Ind(UnstByName, g.compat = 1)!Value(f, InputsFrom(f, r.d, r.off, r.t + 1), o, r.s + 1)} :
         \A k \in 1..NOut(f) :
           /\ Len(v[k]) >= j + n
           /\ IF IntOut(f, k) THEN \A m \in 1..n : a[k][i+m] = b[k][j+m] \/ v[k][j+m] = 2
              ELSE \E x \in {Dec(a[k])} : \E y \in {Dec(b[k])} :
                     \A m \in 1..n : IsNaN(v[k][j+m]) \/ Near(x[i+m], y[j+m], tol)
SameBut(r, f, a, i, b, j, n, shift) ==
  \* (= TRUE: as a value; TLC would follow every disjunct of an action)
  (SameOuts(f, a, i, b, j, n, shift) \/ (BatchOn(r) /\ OpenAt(r, a, i, b, j, n, TolOf(f)))) = TRUE

(***************************************************************************)
(* Batch calls                                                             *)
(***************************************************************************)
\* (a batch call keeps no memory)
IsBatch(tag) == IsEvent("Batch") /\ Ev.tag = tag /\ (IOEnv.PROP = "C06" => Ev.kept = 0)
\* written elements of every output: exactly the announced ones
WroteExactly(f, w, n) == \A k \in 1..NOut(f) : w[k] = (IF n = 0 THEN <<>> ELSE <<<<0, n-1>>>>)
RangeOk(e) == /\ e.rc = SUCCESS
              /\ e.b = RangeBegin(e.lb, e.s, e.t) /\ e.n = RangeCount(e.lb, e.s, e.t)

\* an oracle for streams: the whole series from offset off
TBatchOracle ==
  /\ IsBatch("oracle") /\ Ev.rc = SUCCESS
  /\ LET key == <<Ev.f, Resolve(Ev.f, EvOpts)>> IN
     /\ oracle' = With(oracle, <<key[1], key[2], Ev.d, Ev.off>>,
                       [line |-> l, base |-> Ev.off + Ev.b + Ev.skip, lb |-> Ev.lb])
     /\ lbs' = With(lbs, key, IF Ev.n > 0 THEN Ev.b ELSE MaxI(Ev.lb, Ev.t + 1))
  /\ UNCHANGED <<libvars, ref, refunst, ser, deriv>>

\* C06: the announced range, and nothing else, is written
TBatchRange ==
  /\ IsBatch("range")
  /\ RangeOk(Ev) /\ WroteExactly(Ev.f, Ev.w, Ev.n)
  /\ Ev.im = 0 /\ Ev.same = 1
  /\ UNCHANGED <<libvars, aux>>

\* a batch call other ones are compared with
TBatchRef == IsBatch("ref") /\ ref' = l /\ refunst' = g.unst /\ UNCHANGED <<libvars, oracle, lbs, ser, deriv>>

SameCall(a, b) == a.f = b.f /\ Opts(a.f, a.o) = Opts(b.f, b.o) /\ a.s = b.s /\ a.t = b.t
\* these keep part of the calculation in single precision when given such numbers: sums, products and
\* quotients of two inputs; the results carry their rounding.  All other functions calculate in double
\* precision from the first operation on, three more digits have to agree.
SinglePrecision == {"CCI", "PVT", "PVI", "NVI"}
InSingle == SinglePrecision \union {"ACCBANDS", "ADD", "AVGPRICE", "BOP", "DIV", "MEDPRICE", "MFI", "MOM", "MULT",
                                    "SUB", "TYPPRICE", "WCLPRICE"}
SameSingle(f, xs, ys, n) == \A k \in 1..NOut(f) :
  IF IntOut(f, k) THEN \A q \in 1..n : xs[k][q] = ys[k][q]
  ELSE Differ(Dec(xs[k]), 0, Dec(ys[k]), 0, n, IF f \in InSingle THEN Tol ELSE Tol + 3) = 0
SameReply(a, b) == /\ a.rc = b.rc /\ (a.rc = SUCCESS => a.b = b.b /\ a.n = b.n)
                   /\ (a.rc = SUCCESS =>
                      IF a.tag = "single" /\ a.f \in SinglePrecision
                      THEN \A k \in 1..NOut(a.f) : DifferS(Dec(a.out[k]), 0, Dec(b.out[k]), 0, a.n, Tol) = 0
                      ELSE IF a.tag = "single"
                      THEN (SameSingle(a.f, a.out, b.out, a.n)
                            \/ (BatchOn(b) /\ OpenAt(b, a.out, 0, b.out, 0, a.n, IF a.f \in InSingle THEN Tol ELSE Tol + 3))) = TRUE
                      ELSE SameBut(b, a.f, a.out, 0, b.out, 0, a.n, 0))
\* C10: with outputs in the memory of inputs; C11: in single precision
TBatchSame ==
  /\ (IsBatch("alias") \/ IsBatch("single"))
  /\ ref # 0 /\ SameCall(Ev, Trace[ref]) /\ Ev.d = Trace[ref].d /\ Ev.off = Trace[ref].off
  /\ SameReply(Ev, Trace[ref]) /\ Ev.im = 0
  /\ UNCHANGED <<libvars, aux>>
\* C08: the default marker stands for the default value
TBatchDefault ==
  /\ IsBatch("default")
  /\ ref # 0 /\ Ev.f = Trace[ref].f /\ Ev.s = Trace[ref].s /\ Ev.t = Trace[ref].t
  /\ Resolve(Ev.f, EvOpts) = Resolve(Ev.f, Opts(Ev.f, Trace[ref].o))
  /\ Ev.lb = Trace[ref].lb /\ Trace[ref].rc = SUCCESS /\ SameReply(Ev, Trace[ref])
  /\ UNCHANGED <<libvars, aux>>
\* C07: the same bars, elsewhere or among other bars
SourceOf(d) == IF d \in DOMAIN deriv THEN deriv[d] ELSE [src |-> d, from |-> 0, to |-> IntMax]
TBatchLocal ==
  /\ IsBatch("local")
  /\ ref # 0
  /\ LET r == Trace[ref]  e == Ev  S == SourceOf(e.d)  sh == e.off - r.off IN
     /\ e.f = r.f /\ Opts(e.f, e.o) = Opts(r.f, r.o)
     /\ S.src = r.d /\ S.from <= e.off + e.s - e.lb /\ e.off + e.t <= S.to
     /\ e.s >= e.lb /\ r.rc = SUCCESS
     \* the range of e, in bars of the series, starts like that of r and may end before
     /\ e.off + e.s = r.off + r.s /\ e.off + e.t <= r.off + r.t
     /\ e.rc = SUCCESS /\ e.lb = r.lb
     /\ e.b = e.s /\ e.n = e.t - e.s + 1
     /\ r.b = r.s
     /\ SameBut(r, e.f, e.out, 0, r.out, 0, e.n, -sh)
  /\ UNCHANGED <<libvars, aux>>
\* C12: the same outputs, without the first ones (recorded under other settings)
TBatchUnstable ==
  /\ IsBatch("unstable")
  /\ ref # 0
  /\ LET r == Trace[ref]  e == Ev IN
     /\ SameCall(e, r) /\ r.d = e.d /\ r.off = e.off /\ r.rc = SUCCESS /\ e.rc = SUCCESS
     /\ e.s = 0
     /\ e.lb = LookbackOf(e.f, Resolve(e.f, EvOpts), g)
     /\ e.b = RangeBegin(e.lb, 0, e.t) /\ e.n = RangeCount(e.lb, 0, e.t)
     /\ LET o == Resolve(e.f, EvOpts)
            \* none of the unstable periods that matter has changed
            alike == \A id \in UnstOfFn(e.f, o) : g.unst[UnstId(id) + 1] = refunst[UnstId(id) + 1]
        IN (e.n > 0 /\ (alike \/ SingleStage(e.f, o))) =>
             e.b >= r.b /\ SameBut(e, e.f, r.out, e.b - r.b, e.out, 0, e.n, 0)
  /\ UNCHANGED <<libvars, aux>>
\* C08: what is refused
TBatchRefused ==
  /\ IsBatch("refused")
  /\ Ev.rc = BatchStatus(Ev.f, EvOpts, Ev.s, Ev.t, Ev.nul # "-") /\ Ev.rc # SUCCESS
  /\ \A k \in 1..NOut(Ev.f) : Ev.w[k] = <<>>
  /\ Ev.im = 0
  /\ UNCHANGED <<libvars, aux>>
\* C08: every entry point answers the same about a set of parameters
TValidate ==
  /\ IsEvent("Validate")
  /\ LET ok == ValidOpts(Ev.f, EvOpts) IN
     IF ok THEN /\ Ev.brc = SUCCESS /\ Ev.src = SUCCESS /\ Ev.irc = SUCCESS
                /\ Ev.lb >= 0 /\ Ev.st = 1 /\ Ev.bb = Ev.sb /\ Ev.bn = Ev.sn
     ELSE /\ Ev.brc = BAD_PARAM /\ Ev.src = BAD_PARAM /\ Ev.irc = BAD_PARAM
          /\ Ev.lb = -1 /\ Ev.st = 0 /\ Ev.touched = 0
  /\ Ev.frc = SUCCESS /\ Ev.im = 0 /\ Ev.leak = 0
  /\ UNCHANGED <<libvars, aux>>

\* C14: what is reported for every bar of a series on display
TBatchCandle ==
  /\ IsBatch("candle")
  /\ RangeOk(Ev) /\ Ev.off = 0 /\ Ev.lb = LookbackOf(Ev.f, EvOpts, g)
  /\ \E S \in {ShownSeries(Ev.d)} : \E p \in {IF NOpt(Ev.f) = 0 THEN Zero ELSE Resolve(Ev.f, EvOpts)[1]} :
       \A m \in 1..Ev.n : Ev.out[1][m] \in Cdl(S, p)!Allowed(Ev.f, Ev.b + m - 1)
  /\ UNCHANGED <<libvars, aux>>

\* C15: the outputs for a series on display are those of the definition
ValueOk(f, o, x, s, b, n, out) ==
  IF f \in IndexFns
  THEN \A k \in 1..NOut(f), m \in 1..n :
         Ind(UnstByName, FALSE)!ExtremeAt(f, k, x[1], b + m, o[1], out[k][m])
  ELSE \E v \in {Ind(UnstByName, g.compat = 1)!Value(f, x, o, s + 1)} :
         \A k \in 1..NOut(f) :
           /\ Len(v[k]) = n
           /\ IF IntOut(f, k) THEN \A m \in 1..n : v[k][m] \in {2, out[k][m]}
              ELSE Deviates(Dec(out[k]), v[k], Tol) = 0
TBatchValue ==
  /\ IsBatch("value")
  /\ RangeOk(Ev) /\ Ev.off = 0 /\ Ev.lb = LookbackOf(Ev.f, Resolve(Ev.f, EvOpts), g)
  /\ \E x \in {InputsOf(Ev.f, Ev.d, Ev.t + 1)} :
       ValueOk(Ev.f, Resolve(Ev.f, EvOpts), x, Ev.s, Ev.b, Ev.n, Ev.out)
  /\ UNCHANGED <<libvars, aux>>

(***************************************************************************)
(* Streams                                                                 *)
(***************************************************************************)
LbFor(f, o) == IF <<f, o>> \in DOMAIN lbs THEN lbs[<<f, o>>] ELSE LookbackOf(f, o, g)

(* The outputs of a record that covers bars i..i+n-1 of series d for a      *)
(* stream in state st (before the call): where a value is due it is the one *)
(* the oracle has for that bar.  The first sk outputs are not recorded (in   *)
(* very long histories).                                                    *)
\* the single segment a judged history consists of, once bar i is appended
Origin(st, d, i) == IF st.hist = <<>> THEN i
                    ELSE IF Len(st.hist) = 1 /\ st.hist[1][1] = d /\ st.hist[1][2] + st.hist[1][3] = i
                    THEN st.hist[1][2] ELSE -1
OutputsOk(st, d, i, n, out, sk) ==
  LET og == Origin(st, d, i)
      miss == MaxI(sk, MinI(n, st.lb - Consumed(st.hist)))
  IN n - miss > 0 =>
     LET O == oracle[<<st.f, st.o, d, og>>] IN
     /\ og >= 0 /\ i + miss >= O.base
     /\ SameBut(Trace[O.line], st.f, out, miss - sk, Trace[O.line].out, i + miss - O.base, n - miss, 0)
\* unready bars of a chunk are marked
MarkedNotReady(st, n, out, sk) ==
  LET miss == MaxI(0, MinI(n, st.lb - Consumed(st.hist)) - sk) IN
  \A k \in 1..NOut(st.f) :
    IF IntOut(st.f, k) THEN \A m \in 1..miss : out[k][m] = IntMax
    ELSE LET x == Dec(out[k]) IN \A m \in 1..miss : IsNaN(x[m])

THandle == IsEvent("Handle") /\ Declare(Ev.h, Ev.f) /\ UNCHANGED aux
TOpenNowhere == IsEvent("OpenNowhere") /\ OpenNowhere(Ev.rc) /\ HeapIs(heap) /\ UNCHANGED aux
TOpen ==
  /\ IsEvent("Open")
  /\ Open(Ev.h, Ev.f, EvOpts, IF ValidOpts(Ev.f, EvOpts) THEN LbFor(Ev.f, Resolve(Ev.f, EvOpts)) ELSE 0,
          Ev.rc, Blocks(Ev.heap - heap, Ev.rc = SUCCESS))
  /\ Ev.nn = (IF Ev.rc = SUCCESS THEN 1 ELSE 0)
  /\ UNCHANGED aux
TFeed ==
  /\ IsEvent("Feed") /\ Ev.nul = "-" /\ Ev.h < 50
  /\ Feed(Ev.h, Ev.d, Ev.i, Ev.n, Ev.rcs)
  /\ IsOpen(Ev.h) => OutputsOk(hnd[Ev.h], Ev.d, Ev.i, Ev.n, Ev.out, Ev.skip)
  /\ HeapIs(heap)
  /\ UNCHANGED aux
TFeedNull ==
  /\ IsEvent("Feed") /\ Ev.nul # "-"
  /\ IF IsOpen(Ev.h) THEN FeedNullOut(Ev.h, Ev.n, Ev.rcs) ELSE Feed(Ev.h, Ev.d, Ev.i, Ev.n, Ev.rcs)
  /\ HeapIs(heap)
  /\ UNCHANGED aux
\* a lone stream (handles from 50 on) that is the oracle for others: nothing
\* is required of it but that bars without value come first
NeedOf(rcs) == IF rcs[1][1] = NEED_MORE THEN rcs[1][2] ELSE 0
TFeedOracle ==
  /\ IsEvent("Feed") /\ Ev.nul = "-" /\ Ev.h >= 50
  /\ IsOpen(Ev.h) /\ hnd[Ev.h].hist = <<>>
  /\ LET st == hnd[Ev.h]  need == NeedOf(Ev.rcs) IN
     /\ Ev.rcs = Runs(need, Ev.n)
     /\ hnd' = [hnd EXCEPT ![Ev.h].hist = Push(@, Ev.d, Ev.i, Ev.n), ![Ev.h].lb = need]
     /\ oracle' = With(oracle, <<st.f, st.o, Ev.d, Ev.i>>, [line |-> l, base |-> Ev.i + Ev.skip, lb |-> need])
     /\ lbs' = With(lbs, <<st.f, st.o>>, need)
  /\ UNCHANGED <<on, g, kind, file, hold, heap, ref, refunst, ser, deriv>>
TFeedChunk ==
  /\ IsEvent("FeedChunk")
  /\ FeedChunk(Ev.h, Ev.d, Ev.off, Ev.s, Ev.t, Ev.nul # "-", Ev.rc, Ev.b, Ev.n)
  /\ (IsOpen(Ev.h) /\ Ev.nul = "-" /\ Ev.s <= Ev.t) =>
        /\ MarkedNotReady(hnd[Ev.h], Ev.n, Ev.out, Ev.skip)
        /\ OutputsOk(hnd[Ev.h], Ev.d, Ev.off + Ev.s, Ev.n, Ev.out, Ev.skip)
        /\ Ev.spill = 0 /\ Ev.im = 0
  /\ HeapIs(heap)
  /\ UNCHANGED aux
TFree ==
  /\ IsEvent("Free") /\ Free(Ev.h, Ev.nul = "p", Ev.rc)
  /\ HeapIs(heap') /\ Ev.nn = (IF IsOpen(Ev.h) /\ Ev.nul = "p" THEN 1 ELSE 0)
  /\ UNCHANGED aux
TFile == /\ \/ IsEvent("FileNew") /\ FileNew(Ev.k)
            \/ IsEvent("FileRewind") /\ FileRewind(Ev.k)
         /\ UNCHANGED aux
TSave ==
  /\ IsEvent("Save") /\ Save(Ev.h, Ev.k, Ev.rc, Ev.from, Ev.pos)
  /\ HeapIs(heap) /\ UNCHANGED aux
TLoad ==
  /\ IsEvent("Load")
  /\ Load(Ev.h, Ev.f, Ev.k, Ev.rc, Ev.from, Ev.pos,
          Blocks(Ev.heap - heap, Ev.nn = 1 /\ ~IsOpen(Ev.h)))
  /\ Ev.nn = (IF Ev.h \in DOMAIN hnd' THEN 1 ELSE 0)
  /\ UNCHANGED aux
TTruncate ==
  /\ IsEvent("Truncate")
  /\ Truncated(Ev.h, Ev.k, Ev.src, Ev.len, Ev.cnt, Ev.rcs, Ev.frc, Ev.nn, Ev.leak)
  /\ HeapIs(heap) /\ UNCHANGED aux
TWriteFail ==
  /\ IsEvent("WriteFail")
  /\ WriteFailed(Ev.h, Ev.k, Ev.src, Ev.len, Ev.cnt, Ev.rcs)
  /\ HeapIs(heap) /\ UNCHANGED aux

(***************************************************************************)
(* The abstract interface                                                  *)
(***************************************************************************)
\* the direct call that corresponds to calling holder a over s..t
IsDirectCall(a, r, s, t) ==
  LET H == hold[a] IN
  /\ r.f = H.f /\ r.s = s /\ r.t = t /\ r.v = "D" /\ r.al = "-" /\ r.nul = "-"
  /\ Resolve(H.f, Opts(H.f, r.o)) = Resolve(H.f, H.opts) \/ ~ValidOpts(H.f, H.opts)
  /\ ~ValidOpts(H.f, H.opts) => ~ValidOpts(H.f, Opts(H.f, r.o))
  /\ \A i \in DOMAIN H.ins : H.ins[i] = [d |-> r.d, off |-> r.off]

THolder == IsEvent("Holder") /\ HolderAlloc(Ev.a, Ev.f, Ev.rc, Blocks(Ev.blk, Ev.rc = SUCCESS)) /\ UNCHANGED aux
\* holders themselves are memory, too: what is left after the free is what
\* open streams hold
THolderFree == IsEvent("HolderFree") /\ HolderFree(Ev.a, Ev.rc) /\ HeapIs(heap') /\ UNCHANGED aux
TSetInput == IsEvent("SetInput") /\ SetInput(Ev.a, Ev.i, Ev.k, Ev.d, Ev.off, Ev.mask, Ev.rc) /\ UNCHANGED aux
TSetOutput == IsEvent("SetOutput") /\ SetOutput(Ev.a, Ev.i, Ev.k, Ev.nz, Ev.rc) /\ UNCHANGED aux
TSetOpt ==
  /\ IsEvent("SetOpt")
  /\ SetOpt(Ev.a, Ev.i, Ev.k, IF Ev.k = "r" THEN Dec(Ev.v)[1] ELSE Ev.v, Ev.rc) /\ UNCHANGED aux
THolderLookback == IsEvent("HolderLookback") /\ HolderLookback(Ev.a, Ev.rc, Ev.lb) /\ UNCHANGED aux
TCallHolder ==
  /\ IsEvent("CallHolder") /\ Ev.kept = 0
  /\ IF Refusal(Ev.a) # SUCCESS THEN CallHolder(Ev.a, Ev.s, Ev.t, Ev.rc, SUCCESS)
     ELSE LET r == Trace[ref] IN
          /\ ref # 0 /\ IsDirectCall(Ev.a, r, Ev.s, Ev.t)
          /\ CallHolder(Ev.a, Ev.s, Ev.t, Ev.rc, r.rc)
          /\ Ev.rc = SUCCESS => /\ Ev.b = r.b /\ Ev.n = r.n
                                /\ SameOuts(r.f, Ev.out, 0, r.out, 0, r.n, 0)
  /\ UNCHANGED aux
THolderOpen ==
  /\ IsEvent("HolderOpen")
  /\ HolderOpen(Ev.a, Ev.rc, IF ValidOpts(hold[Ev.a].f, hold[Ev.a].opts)
                             THEN LbFor(hold[Ev.a].f, Resolve(hold[Ev.a].f, hold[Ev.a].opts)) ELSE 0,
                Blocks(Ev.blk, Ev.rc = SUCCESS))
  /\ UNCHANGED aux
THolderFeed ==
  /\ IsEvent("HolderFeed") /\ HolderFeed(Ev.a, Ev.d, Ev.i, Ev.n, Ev.rcs)
  /\ (hold[Ev.a].open /\ OutsReady(Ev.a)) => OutputsOk(hold[Ev.a].st, Ev.d, Ev.i, Ev.n, Ev.out, 0)
  /\ UNCHANGED aux
THolderBare == IsEvent("HolderBare") /\ HolderBare(Ev.a, Ev.rc) /\ UNCHANGED aux
THolderChunk ==
  /\ IsEvent("HolderChunk") /\ HolderChunk(Ev.a, Ev.s, Ev.t, Ev.rc, Ev.b, Ev.n)
  /\ (hold[Ev.a].open /\ Refusal(Ev.a) = SUCCESS /\ Ev.s <= Ev.t) =>
       /\ MarkedNotReady(hold[Ev.a].st, Ev.n, Ev.out, 0)
       /\ OutputsOk(hold[Ev.a].st, hold[Ev.a].ins[1].d, hold[Ev.a].ins[1].off + Ev.s, Ev.n, Ev.out, 0)
  /\ UNCHANGED aux
THolderClose ==
  /\ IsEvent("HolderClose") /\ HolderClose(Ev.a, Ev.rc) /\ Ev.nn = 0 /\ Ev.rc2 = SUCCESS
  /\ Accounting => Ev.blk = hold[Ev.a].st.blk
  /\ UNCHANGED aux
THolderSave == IsEvent("HolderSave") /\ HolderSave(Ev.a, Ev.k, Ev.rc, Ev.from, Ev.pos) /\ UNCHANGED aux
THolderLoad == IsEvent("HolderLoad") /\ HolderLoad(Ev.a, Ev.k, Ev.rc, Ev.from, Ev.pos, Blocks(Ev.blk, ~hold[Ev.a].open /\ Ev.nn = 1)) /\ Ev.nn = (IF hold'[Ev.a].open THEN 1 ELSE 0) /\ UNCHANGED aux
THolderMove == IsEvent("HolderMove") /\ HolderMove(Ev.a, Ev.a2, <<Ev.rc, Ev.rc2, Ev.rc3>>, Ev.nn) /\ UNCHANGED aux

(***************************************************************************)
(* Introspection                                                           *)
(***************************************************************************)
TIntrospect ==
  /\ \/ /\ IsEvent("Find")
        /\ Ev.rc = FindStatus(Ev.f) /\ Ev.nn = (IF Ev.rc = SUCCESS THEN 1 ELSE 0)
     \/ /\ IsEvent("Info") /\ Ev.f \in Funcs /\ Ev.rc = SUCCESS /\ Ev.rc2 = SUCCESS
        /\ InfoOk(Ev.f, Ev) /\ Ev.same = 1 /\ Ev.ptrs = 1
        \* one past the last of each kind
        /\ Ev.xi = BAD_PARAM /\ Ev.xo = BAD_PARAM /\ Ev.xt = BAD_PARAM /\ Ev.xs = BAD_PARAM
     \/ /\ IsEvent("ForEach") /\ Ev.rc = SUCCESS /\ Ev.cnt = Cardinality(Funcs)
        /\ ListsOnce(Ev.names, Funcs)
     \/ /\ IsEvent("Groups") /\ Ev.rc = SUCCESS /\ ListsOnce(Ev.names, SetOf(GroupNames))
        /\ Ev.wrong = BAD_OBJECT /\ Ev.rc2 = SUCCESS /\ Ev.leak = 0
     \/ /\ IsEvent("FuncTable")
        /\ IF Ev.g \in SetOf(GroupNames)
           THEN /\ Ev.rc = SUCCESS /\ ListsOnce(Ev.names, InGroup(Ev.g))
                /\ Ev.wrong = BAD_OBJECT /\ Ev.rc2 = SUCCESS /\ Ev.leak = 0
           ELSE Ev.rc = GROUP_NOT_FOUND /\ Ev.leak = 0
     \/ /\ IsEvent("RetCode") /\ Ev.name = RetName(Ev.code) /\ Ev.text = 1
     \/ /\ IsEvent("Nulls") /\ Ev.rc = SUCCESS /\ Ev.touched = 0 /\ Ev.leak = 0
        /\ \A m \in 1..Len(Ev.rcs) : Ev.rcs[m][4] = StrangeStatus(Ev.rcs[m][2], Ev.rcs[m][3])
     \/ /\ IsEvent("Version")
        /\ Ev.all = Ev.v[1] \o "." \o Ev.v[2] \o "." \o Ev.v[3] \o (IF Ev.v[4] = "" THEN "" ELSE "-" \o Ev.v[4])
                     \o " (" \o Ev.v[5] \o " " \o Ev.v[6] \o ")"
  /\ UNCHANGED <<libvars, aux>>

TraceNext ==
  \/ TIntrospect
  \/ TSeries \/ TDerived \/ TForget \/ TSettings \/ TLookback \/ TLookbacks
  \/ TBatchOracle \/ TBatchRange \/ TBatchRef \/ TBatchSame \/ TBatchDefault \/ TBatchLocal
  \/ TBatchUnstable \/ TBatchCandle \/ TBatchValue \/ TBatchRefused \/ TValidate
  \/ TThread
  \/ THandle \/ TOpen \/ TOpenNowhere \/ TFeed \/ TFeedNull \/ TFeedOracle \/ TFeedChunk \/ TFree \/ TFile
  \/ TSave \/ TLoad \/ TTruncate \/ TWriteFail
  \/ THolder \/ THolderFree \/ TSetInput \/ TSetOutput \/ TSetOpt \/ THolderLookback \/ TCallHolder
  \/ THolderOpen \/ THolderFeed \/ THolderBare \/ THolderChunk \/ THolderClose \/ THolderSave \/ THolderLoad
  \/ THolderMove

TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Len(Trace)>>) /\ FALSE
=============================================================================
