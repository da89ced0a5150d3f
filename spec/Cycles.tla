------------------------------- MODULE Cycles -------------------------------
(***************************************************************************)
(* The cycle indicators: Ehlers' homodyne discriminator and what is built  *)
(* on it.  x is the price series, b the position of the first output and   *)
(* from the position of the first bar that is read (b minus the lookback). *)
(*                                                                         *)
(* Every bar from position t0 on yields a record: the phasor components    *)
(* i1, q1, the cycle period (smoothed: sp), and so on.  A record whose     *)
(* comparisons are too close to be decided apart from rounding has         *)
(* sure = FALSE, and so have its successors where it influences them.      *)
(***************************************************************************)
EXTENDS Flt

LOCAL a ++ b == Add(a, b)
LOCAL a -- b == Sub(a, b)
LOCAL a ** b == Mul(a, b)
LOCAL a // b == Div(a, b)
LOCAL Max(i, j) == IF i > j THEN i ELSE j

Pi        == Mul(Lit("4"), Fn("atan", Lit("1")))
Rad2Deg   == Lit("180") // Pi
Deg(a)    == a ** Rad2Deg
Rad(d)    == d // Rad2Deg
\* the sign of v, or the direction of (v, w), is lost in the rounding of numbers of size scale
Faint(v, w, scale) == \/ Lt(Abs(v) ++ Abs(w), Lit("1e-6") ** scale)
                      \/ Lt(MinF(Abs(v), Abs(w)), Lit("1e-9") ** MaxF(Abs(v), Abs(w)))

\* four-bar weighted average
Smooth(x, t) == ((((Lit("4") ** x[t]) ++ (Lit("3") ** x[t-1])) ++ (Lit("2") ** x[t-2])) ++ x[t-3]) // Lit("10")

(* The discriminator.  h is the history, latest first: sequences of the      *)
(* values of the last bars; Z stands for those before the first.             *)
Ago(s, k) == IF Len(s) >= k THEN s[k] ELSE Zero
Keep(v, s) == <<v>> \o SubSeq(s, 1, IF Len(s) < 7 THEN Len(s) ELSE 7)
\* Hilbert transform of the series u (latest first), for the previous period p
Hilbert(u, p) ==
  ((((Lit("0.0962") ** Ago(u, 1)) ++ (Lit("0.5769") ** Ago(u, 3)))
    -- (Lit("0.5769") ** Ago(u, 5))) -- (Lit("0.0962") ** Ago(u, 7)))
  ** ((Lit("0.075") ** p) ++ Lit("0.54"))

Blend(c, new, old) == (c ** new) ++ ((Lit("1") -- c) ** old)
Fifth == Lit("0.2")

Bar0 == [sm |-> <<>>, dt |-> <<>>, q1 |-> <<>>, i1 |-> <<>>, i2 |-> Zero, q2 |-> Zero,
         re |-> Zero, im |-> Zero, per |-> Zero, sp |-> Zero, sure |-> TRUE, sz |-> Zero, age |-> 0]
Clamp(v, lo, hi) == MinF(MaxF(v, lo), hi)

NextBar(h, s) ==
  LET sm == Keep(s, h.sm)
      d  == Hilbert(sm, h.per)            dt == Keep(d, h.dt)
      q  == Hilbert(dt, h.per)            q1 == Keep(q, h.q1)
      i  == Ago(dt, 4)                    i1 == Keep(i, h.i1)
      i2 == Blend(Fifth, i -- Hilbert(q1, h.per), h.i2)
      q2 == Blend(Fifth, q ++ Hilbert(i1, h.per), h.q2)
      re == Blend(Fifth, (i2 ** h.i2) ++ (q2 ** h.q2), h.re)
      im == Blend(Fifth, (i2 ** h.q2) -- (q2 ** h.i2), h.im)
      raw == IF Eq(im, Zero) \/ Eq(re, Zero) THEN h.per
             ELSE Lit("360") // Deg(Fn("atan", im // re))
      lim == MaxF(MinF(raw, Lit("1.5") ** h.per), Lit("0.67") ** h.per)
      per == Blend(Fifth, Clamp(lim, Lit("6"), Lit("50")), h.per)
      sp == (Lit("0.33") ** per) ++ (Lit("0.67") ** h.sp)
      sz == MaxF(h.sz, Abs(s))
      \* bars since the first with a price: until then all of it is zero
      age == IF h.age = 0 /\ Eq(sz, Zero) THEN 0 ELSE h.age + 1
  IN [sm |-> sm, dt |-> dt, q1 |-> q1, i1 |-> i1, i2 |-> i2, q2 |-> q2, re |-> re, im |-> im,
      per |-> per, sp |-> sp, sz |-> sz, age |-> age,
      sure |-> h.sure /\ (age < 2 \/ ~Faint(re, im, (sz ** sz) ** Lit("1e-6")))]

\* the records of the bars t0..Len(x); smoothing needs three bars more
Bars(x, from, t0) ==
  LET top == MaxOf(Tabulate(t0 - from, LAMBDA m : Abs(x[from + m - 1])), 1, t0 - from) IN
  Scan(NextBar, [Bar0 EXCEPT !.sz = top], Tabulate(Len(x) - t0 + 1, LAMBDA m : Smooth(x, t0 + m - 1)))
Show(B, t0, b, V(_)) ==
  Tabulate(Len(B) + t0 - b, LAMBDA m : LET r == B[b - t0 + m] IN IF r.sure THEN V(r) ELSE NaN)

(* bars read before the discriminator starts: 12 or 37 *)
Dcperiod(x, from, b) ==
  LET t0 == from + 12 IN <<Show(Bars(x, from, t0), t0, b, LAMBDA r : r.sp)>>
Phasor(x, from, b) ==
  LET t0 == from + 12  B == Bars(x, from, t0) IN
  <<Show(B, t0, b, LAMBDA r : r.i1[1]), Show(B, t0, b, LAMBDA r : r.q1[1])>>

(* MESA adaptive moving average                                              *)
MesaNext(fast, slow, h, r) ==
  LET i == r[1].i1[1]  q == r[1].q1[1]
      ph == IF Eq(i, Zero) THEN Zero ELSE Deg(Fn("atan", q // i))
      d == MaxF(h.ph -- ph, Lit("1"))
      al == IF Gt(d, Lit("1")) THEN MaxF(fast // d, slow) ELSE fast
      mama == Blend(al, r[2], h.mama)
  IN [ph |-> ph, mama |-> mama, fama |-> Blend(al // Lit("2"), mama, h.fama),
      sure |-> h.sure /\ r[1].sure /\ (r[1].age < 4 \/ ~Faint(i, q, r[1].sz))]
Mama(x, fast, slow, from, b) ==
  LET t0 == from + 12
      B == Bars(x, from, t0)
      M == Scan(LAMBDA h, r : MesaNext(fast, slow, h, r),
                [ph |-> Zero, mama |-> Zero, fama |-> Zero, sure |-> TRUE],
                Tabulate(Len(B), LAMBDA m : <<B[m], x[t0 + m - 1]>>))
  IN <<Show(M, t0, b, LAMBDA r : r.mama), Show(M, t0, b, LAMBDA r : r.fama)>>

(* Dominant cycle phase.  The number of bars of a cycle is the smoothed      *)
(* period, rounded; P(t) is the smoothed price.                              *)
Bin(v) == Trunc(v ++ Lit("0.5"))
BinSure(v) == LET f == (v ++ Lit("0.5")) -- OfInt(Bin(v)) IN
              Gt(f, Lit("1e-7")) /\ Lt(f, Lit("0.9999999"))
PhaseNext(x, t0, h, r) ==
  LET t == h.t + 1
      n == Bin(r.sp)
      P(k) == IF t - k >= t0 THEN Smooth(x, t - k) ELSE Zero
      ang(k) == ((OfInt(k) ** Lit("2")) ** Pi) // OfInt(n)
      re == Sum(Tabulate(n, LAMBDA k : Fn("sin", ang(k-1)) ** P(k-1)), 1, n)
      im == Sum(Tabulate(n, LAMBDA k : Fn("cos", ang(k-1)) ** P(k-1)), 1, n)
      \* an imaginary part of zero cannot be told from a tiny one
      tiny == Lt(Abs(im), Lit("1e-9") ** MaxF(Lit("1"), Abs(x[t])))
      base == IF tiny THEN Zero ELSE Deg(Fn("atan", re // im))
      d1 == ((base ++ Lit("90")) ++ (Lit("360") // r.sp)) ++ (IF Lt(im, Zero) THEN Lit("180") ELSE Zero)
      d == IF Gt(d1, Lit("315")) THEN d1 -- Lit("360") ELSE d1
      \* mean over the cycle, and the trend line of the last four means
      m == IF n > 0 THEN Sum(x, t - n + 1, t) // OfInt(n) ELSE Zero
      means == Keep(m, h.means)
      line == ((((Lit("4") ** m) ++ (Lit("3") ** Ago(means, 2))) ++ (Lit("2") ** Ago(means, 3)))
               ++ Ago(means, 4)) // Lit("10")
      binsure == r.sure /\ BinSure(r.sp)
  IN [t |-> t, ph |-> d, sine |-> Fn("sin", Rad(d)), lead |-> Fn("sin", Rad(d ++ Lit("45"))),
      means |-> means, line |-> line, price |-> Smooth(x, t), sp |-> r.sp,
      lsure |-> <<binsure>> \o SubSeq(h.lsure, 1, 3), binsure |-> binsure,
      wrap |-> Lt(Abs(d1 -- Lit("315")), Lit("1e-6")),
      sure |-> binsure /\ ~tiny]
Phases(x, from, t0) ==
  Scan(LAMBDA h, r : PhaseNext(x, t0, h, r),
       [t |-> t0 - 1, means |-> <<>>, lsure |-> <<TRUE, TRUE, TRUE, TRUE>>], Bars(x, from, t0))

Dcphase(x, from, b) ==
  LET t0 == from + 37 IN
  <<Show(Phases(x, from, t0), t0, b, LAMBDA r : IF r.wrap THEN NaN ELSE r.ph)>>
Sine(x, from, b) ==
  LET t0 == from + 37  B == Phases(x, from, t0) IN
  <<Show(B, t0, b, LAMBDA r : r.sine), Show(B, t0, b, LAMBDA r : r.lead)>>
Trendline(x, from, b) ==
  LET t0 == from + 37  B == Phases(x, from, t0) IN
  <<Tabulate(Len(B) + t0 - b, LAMBDA m : LET r == B[b - t0 + m] IN
      IF \A k \in 1..4 : r.lsure[k] THEN r.line ELSE NaN)>>

(* Trend or cycle: 1, 0, or 2 where a comparison is too close.               *)
Close(u, v) == Near(u, v, 7)
ModeNext(h, r) ==
  LET crossed == \/ Gt(r.sine, r.lead) /\ Le(h.sine, h.lead)
                 \/ Lt(r.sine, r.lead) /\ Ge(h.sine, h.lead)
      vague == ~r.sure \/ ~h.sure \/ Close(r.sine, r.lead) \/ (Close(h.sine, h.lead) /\ ~h.first)
      \* days since the last crossing; 0: unknown
      days == IF vague THEN 0 ELSE IF crossed THEN 1 ELSE IF h.days = 0 THEN 0 ELSE h.days + 1
      half == Lit("0.5") ** r.sp
      young == IF days = 0 THEN 2 ELSE IF Close(OfInt(days), half) THEN 2
               ELSE IF Lt(OfInt(days), half) THEN 1 ELSE 0
      dph == r.ph -- h.ph
      lo == (Lit("0.67") ** Lit("360")) // r.sp
      hi == (Lit("1.5") ** Lit("360")) // r.sp
      steady == IF ~r.sure \/ ~h.sure \/ r.wrap \/ h.wrap \/ Close(dph, lo) \/ Close(dph, hi) THEN 2
                ELSE IF Gt(dph, lo) /\ Lt(dph, hi) THEN 1 ELSE 0
      off == Abs((r.price -- r.line) // r.line)
      lsure == \A k \in 1..4 : r.lsure[k]
      away == IF ~lsure \/ Lt(Abs(r.line), Lit("1e-9")) \/ Close(off, Lit("0.015")) THEN 2
              ELSE IF Ge(off, Lit("0.015")) THEN 1 ELSE 0
      cycle == IF young = 1 \/ steady = 1 THEN 1
               ELSE IF young = 2 \/ steady = 2 THEN 2 ELSE IF vague THEN 2 ELSE IF crossed THEN 1 ELSE 0
      mode == IF away = 1 THEN 1
              ELSE IF away = 0 THEN IF cycle = 2 THEN 2 ELSE 1 - cycle
              ELSE IF cycle = 0 THEN 1 ELSE 2
  IN [sine |-> r.sine, lead |-> r.lead, ph |-> r.ph, sure |-> r.sure, wrap |-> r.wrap,
      days |-> days, mode |-> mode, first |-> FALSE]
Trendmode(x, from, b) ==
  LET t0 == from + 37
      M == Scan(ModeNext, [sine |-> Zero, lead |-> Zero, ph |-> Zero, sure |-> TRUE, wrap |-> FALSE,
                           days |-> 0, mode |-> 2, first |-> TRUE], Phases(x, from, t0))
  IN <<Tabulate(Len(M) + t0 - b, LAMBDA m : M[b - t0 + m].mode)>>
=============================================================================
