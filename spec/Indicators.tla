----------------------------- MODULE Indicators -----------------------------
(***************************************************************************)
(* What the functions outside pattern recognition compute.                 *)
(*                                                                         *)
(* Series are sequences of floating-point numbers, positions count from 1. *)
(* A definition D(x, s, ...) is the sequence of the outputs for the bars   *)
(* from position Begin(s, lookback) to the end of x, for a call starting   *)
(* at position s.  Recursive smoothing starts at the first bar that may be *)
(* read, its seed therefore depends on the start of the call.              *)
(*                                                                         *)
(* NaN in a definition stands for "no statement": where the published      *)
(* definition has no value, or where a decision (a zero denominator) is    *)
(* closer than rounding permits to tell.                                   *)
(***************************************************************************)
EXTENDS Cycles

CONSTANTS
  unst,      \* unstable period, by name
  metastock  \* TRUE: Metastock compatibility

a ++ b == Add(a, b)
a -- b == Sub(a, b)
a ** b == Mul(a, b)
a // b == Div(a, b)
N1 == Lit("1")
N2 == Lit("2")
N100 == Lit("100")
MaxN(i, j) == IF i > j THEN i ELSE j
MinN(i, j) == IF i < j THEN i ELSE j
From(s, i) == SubSeq(s, i, Len(s))
Begin(s, lb) == MaxN(s, lb + 1)
\* outputs V(i) for the positions i from b to the end of x
Each(x, b, V(_)) == Tabulate(Len(x) - b + 1, LAMBDA m : V(b + m - 1))
Map2(F(_, _), p, q) == Tabulate(MinN(Len(p), Len(q)), LAMBDA m : F(p[m], q[m]))
Map(F(_), p) == Tabulate(Len(p), LAMBDA m : F(p[m]))

\* a quotient: z where the denominator is zero
Tiny(v) == ~Eq(v, Zero) /\ Lt(Abs(v), Lit("1e-8"))
Over(n, d, z) == IF Eq(d, Zero) THEN z ELSE IF Tiny(d) THEN NaN ELSE n // d

(* Moving averages -----------------------------------------------------------*)
Mean(x, i, p) == Sum(x, i - p + 1, i) // OfInt(p)
Sma(x, s, p) == Each(x, Begin(s, p - 1), LAMBDA i : Mean(x, i, p))

EmaLb(p)  == p - 1 + unst["EMA"]
WlmaLb(p) == p - 1 + unst["WLMA"]
T3Lb(p)   == 6 * (p - 1) + unst["T3"]
\* new = old + k * (value - old)
Follow(k, seed, vs) == Scan(LAMBDA e, v : e ++ (k ** (v -- e)), seed, vs)
\* seeded with the mean of the p bars from position j
FollowMean(x, j, p, k) ==
  LET m == Mean(x, j + p - 1, p) IN <<m>> \o Follow(k, m, From(x, j + p))
\* exponential smoothing with period p, factor k, lookback lb
Smoothed(x, s, p, k, lb) ==
  LET b == Begin(s, lb) IN
  IF b > Len(x) THEN <<>>
  ELSE IF metastock THEN From(<<x[1]>> \o Follow(k, x[1], From(x, 2)), b)
  ELSE From(FollowMean(x, b - lb, p, k), lb - p + 2)
KOf(p) == N2 // OfInt(p + 1)
Ema(x, s, p)  == Smoothed(x, s, p, KOf(p), EmaLb(p))
Wlma(x, s, p) == Smoothed(x, s, p, N1 // OfInt(p), WlmaLb(p))
Dema(x, s, p) ==
  LET lb == EmaLb(p)  b == Begin(s, 2 * lb)
      e1 == Ema(x, b - lb, p)  e2 == Ema(e1, 1, p)
  IN IF b > Len(x) THEN <<>>
     ELSE Map2(LAMBDA u, v : (N2 ** u) -- v, From(e1, lb + 1), e2)
Tema(x, s, p) ==
  LET lb == EmaLb(p)  b == Begin(s, 3 * lb)
      e1 == Ema(x, b - 2 * lb, p)  e2 == Ema(e1, 1, p)  e3 == Ema(e2, 1, p)
  IN IF b > Len(x) THEN <<>>
     ELSE Tabulate(Len(e3), LAMBDA m :
            ((Lit("3") ** e1[2 * lb + m]) -- (Lit("3") ** e2[lb + m])) ++ e3[m])
T3(x, s, p, v) ==
  LET lb == T3Lb(p)  b == Begin(s, lb)  k == KOf(p)
      e1 == FollowMean(x, b - lb, p, k)
      e2 == FollowMean(e1, 1, p, k)
      e3 == FollowMean(e2, 1, p, k)
      e4 == FollowMean(e3, 1, p, k)
      e5 == FollowMean(e4, 1, p, k)
      e6 == FollowMean(e5, 1, p, k)
      v2 == v ** v   v3 == v2 ** v
      c1 == Negate(v3)
      c2 == Lit("3") ** (v2 ++ v3)
      c3 == (Lit("-6") ** v2) -- (Lit("3") ** (v ++ v3))
      c4 == (N1 ++ (Lit("3") ** v)) ++ (v3 ++ (Lit("3") ** v2))
      d == p - 1
  IN IF b > Len(x) THEN <<>>
     ELSE From(Tabulate(Len(e6), LAMBDA m :
            ((c1 ** e6[m]) ++ (c2 ** e5[d + m])) ++ ((c3 ** e4[2 * d + m]) ++ (c4 ** e3[3 * d + m]))),
          unst["T3"] + 1)
Weighted(x, i, p, W(_), total) ==
  Sum(Tabulate(p, LAMBDA k : OfInt(W(k)) ** x[i - p + k]), 1, p) // OfInt(total)
Wma(x, s, p) == Each(x, Begin(s, p - 1), LAMBDA i : Weighted(x, i, p, LAMBDA k : k, (p * (p + 1)) \div 2))
Trima(x, s, p) ==
  LET h == (p + 1) \div 2
      total == IF p % 2 = 1 THEN h * h ELSE h * (h + 1)
  IN Each(x, Begin(s, p - 1), LAMBDA i : Weighted(x, i, p, LAMBDA k : MinN(k, p + 1 - k), total))
\* sums and differences of multiples of 1/1024 are exact
Exact(x) == \A i \in 1..Len(x) : LET v == x[i] ** Lit("1024") IN Eq(OfInt(Trunc(v)), v)
\* Kaufman: the smoothing factor follows the efficiency of the last p moves
Efficiency(x, i, p, exact) ==
  LET way == Sum(Tabulate(p, LAMBDA k : Abs(x[i - p + k] -- x[i - p + k - 1])), 1, p)
      net == x[i] -- x[i - p]
  IN IF ~exact /\ Lt(way, Lit("1e-6") ** MaxF(N1, MaxOf(Map(Abs, x), 1, i))) THEN NaN  \* lost in the rounding of a running sum
     ELSE IF Eq(way, Zero) \/ Le(way, net) THEN N1 ELSE Abs(net) // way
KamaLb(p) == p + unst["KAMA"]
Kama(x, s, p, exact) ==
  LET lb == KamaLb(p)  b == Begin(s, lb)
      slow == N2 // Lit("31")  fast == N2 // Lit("3")
      K(i) == LET c == (Efficiency(x, i, p, exact) ** (fast -- slow)) ++ slow IN c ** c
  IN IF b > Len(x) THEN <<>>
     ELSE LET j == b - lb + p IN   \* position of the first one
          From(Scan(LAMBDA e, i : e ++ (K(i) ** (x[i] -- e)), x[j - 1], Tabulate(Len(x) - j + 1, LAMBDA m : j + m - 1)),
               b - j + 1)
Mesa(x, s, fast, slow) ==
  LET lb == 32 + unst["MAMA"]  b == Begin(s, lb) IN
  IF b > Len(x) THEN <<<<>>, <<>>>> ELSE Mama(x, fast, slow, b - lb, b)
MaLb(p, t) ==
  IF p <= 1 THEN 0
  ELSE CASE t \in {0, 2, 5} -> p - 1 [] t = 1 -> EmaLb(p) [] t = 3 -> 2 * EmaLb(p) [] t = 4 -> 3 * EmaLb(p)
         [] t = 6 -> KamaLb(p) [] t = 7 -> 32 + unst["MAMA"] [] t = 8 -> T3Lb(p) [] t = 9 -> WlmaLb(p)
\* exact: is there no rounding error in x?
MaOf(x, s, p, t, exact) ==
  IF p <= 1 THEN From(x, s)
  ELSE CASE t = 0 -> Sma(x, s, p) [] t = 1 -> Ema(x, s, p) [] t = 2 -> Wma(x, s, p)
         [] t = 3 -> Dema(x, s, p) [] t = 4 -> Tema(x, s, p) [] t = 5 -> Trima(x, s, p)
         [] t = 6 -> Kama(x, s, p, exact) [] t = 7 -> Mesa(x, s, Lit("0.5"), Lit("0.05"))[1]
         [] t = 8 -> T3(x, s, p, Lit("0.7")) [] t = 9 -> Wlma(x, s, p)
Ma(x, s, p, t) == MaOf(x, s, p, t, Exact(x))
MaDerived(x, s, p, t) == MaOf(x, s, p, t, FALSE)
\* a period of its own for every bar
Mavp(x, ps, s, lo, hi, t) ==
  LET b == Begin(s, MaLb(hi, t)) IN
  Each(x, b, LAMBDA i : LET p == MinN(MaxN(Trunc(ps[i]), lo), hi) IN Ma(x, b, p, t)[i - b + 1])

(* Extremes -------------------------------------------------------------------*)
Highest(x, i, p) == MaxOf(x, i - p + 1, i)
Lowest(x, i, p)  == MinOf(x, i - p + 1, i)
Window(x, s, p, V(_)) == Each(x, Begin(s, p - 1), V)
\* bars since the latest extreme of the last p + 1
Since(x, i, p, v) == CHOOSE k \in 0..p : x[i - k] = v /\ \A j \in 0..(k - 1) : x[i - j] # v
AroonUp(h, i, p)   == (N100 ** OfInt(p - Since(h, i, p, Highest(h, i, p + 1)))) // OfInt(p)
AroonDown(l, i, p) == (N100 ** OfInt(p - Since(l, i, p, Lowest(l, i, p + 1)))) // OfInt(p)

(* Ranges, directional movement ------------------------------------------------*)
TrueRange(H, L, C, i) == MaxF(H[i] -- L[i], MaxF(Abs(H[i] -- C[i-1]), Abs(L[i] -- C[i-1])))
\* true ranges of the bars from position j (>= 2) on
Ranges(H, L, C, j) == Each(H, j, LAMBDA i : TrueRange(H, L, C, i))
UpMove(H, i) == H[i] -- H[i-1]
DownMove(L, i) == L[i-1] -- L[i]
PlusMove(H, L, i) == IF Gt(UpMove(H, i), Zero) /\ Gt(UpMove(H, i), DownMove(L, i)) THEN UpMove(H, i) ELSE Zero
MinusMove(H, L, i) == IF Gt(DownMove(L, i), Zero) /\ Gt(DownMove(L, i), UpMove(H, i)) THEN DownMove(L, i) ELSE Zero
PlusMoves(H, L, j)  == Each(H, j, LAMBDA i : PlusMove(H, L, i))
MinusMoves(H, L, j) == Each(H, j, LAMBDA i : MinusMove(H, L, i))
\* Wilder's sums: the first is a plain sum of n - 1, it belongs to element n - 1
WilderSums(v, n) ==
  IF Len(v) < n - 1 THEN <<>>
  ELSE LET w == Sum(v, 1, n - 1) IN
       <<w>> \o Scan(LAMBDA e, x : (e -- (e // OfInt(n))) ++ x, w, From(v, n))
\* Wilder's average of all the elements after the first n, from element n on
WilderMean(v, n) ==
  IF Len(v) < n THEN <<>>
  ELSE LET w == Sum(v, 1, n) // OfInt(n) IN
       <<w>> \o Scan(LAMBDA e, x : ((e ** OfInt(n - 1)) ++ x) // OfInt(n), w, From(v, n + 1))
Dm(M(_, _, _), H, L, s, p, u) ==
  IF p <= 1 THEN M(H, L, Begin(s, 1))
  ELSE LET lb == p + u - 1  b == Begin(s, lb) IN From(WilderSums(M(H, L, b - lb + 1), p), u + 1)
\* sums of movement and range after the first bar: DI's start one bar later
Di(M(_, _, _), H, L, C, s, p, u) ==
  IF p <= 1
  THEN LET b == Begin(s, 1) IN Map2(LAMBDA m, r : Over(m, r, Zero), M(H, L, b), Ranges(H, L, C, b))
  ELSE LET lb == p + u  b == Begin(s, lb)  j == b - lb + 1 IN
       From(Map2(LAMBDA m, r : N100 ** Over(m, r, Zero),
                 WilderSums(M(H, L, j), p), WilderSums(Ranges(H, L, C, j), p)), u + 2)
\* directional index from the second of the sums on; <<>> where it is undefined
DxValues(H, L, C, j, p) ==
  LET P == WilderSums(PlusMoves(H, L, j), p)
      M == WilderSums(MinusMoves(H, L, j), p)
      R == WilderSums(Ranges(H, L, C, j), p)
  IN Tabulate(Len(R) - 1, LAMBDA m :
       LET both == P[m+1] ++ M[m+1] IN
       IF Eq(R[m+1], Zero) \/ Eq(both, Zero) THEN <<>>
       ELSE IF Tiny(R[m+1]) \/ Tiny(both) THEN <<NaN>>
       ELSE <<(N100 ** Abs(P[m+1] -- M[m+1])) // both>>)
Dx(H, L, C, s, p, u) ==
  LET lb == p + u  b == Begin(s, lb) IN
  IF b > Len(H) THEN <<>>
  ELSE LET d == From(DxValues(H, L, C, b - lb + 1, p), u + 1) IN
       Scan(LAMBDA e, v : IF v = <<>> THEN e ELSE v[1], Zero, d)
Adx(H, L, C, s, p) ==
  LET u == unst["ADX"]  lb == 2 * p + u - 1  b == Begin(s, lb) IN
  IF b > Len(H) THEN <<>>
  ELSE LET d == DxValues(H, L, C, b - lb + 1, p)
           seed == Sum(Tabulate(p, LAMBDA m : IF d[m] = <<>> THEN Zero ELSE d[m][1]), 1, p) // OfInt(p)
       IN From(<<seed>> \o Scan(LAMBDA e, v : IF v = <<>> THEN e ELSE ((e ** OfInt(p - 1)) ++ v[1]) // OfInt(p),
                                seed, From(d, p + 1)), u + 1)
Adxr(H, L, C, s, p) ==
  LET lb == 3 * p + unst["ADX"] - 2  b == Begin(s, lb)
      a == Adx(H, L, C, b - (p - 1), p)
  IN IF b > Len(H) THEN <<>> ELSE Map2(LAMBDA u, v : (u ++ v) // N2, From(a, p), a)
Atr(H, L, C, s, p, u) ==
  LET lb == p + u  b == Begin(s, lb) IN
  IF b > Len(H) THEN <<>>
  ELSE IF p <= 1 THEN Ranges(H, L, C, b)
  ELSE From(WilderMean(Ranges(H, L, C, b - lb + 1), p), u + 1)

(* Momentum ----------------------------------------------------------------------*)
Gain(x, i) == MaxF(x[i] -- x[i-1], Zero)
Loss(x, i) == MaxF(x[i-1] -- x[i], Zero)
\* V(gain, loss) of Wilder's averages
Strength(x, s, p, u, V(_, _)) ==
  LET early == metastock
      lb == p + u - (IF early THEN 1 ELSE 0)
      b == Begin(s, lb)
      j == b - lb
      Pairs(k) == Map2(V, WilderMean(Each(x, k, LAMBDA i : Gain(x, i)), p),
                          WilderMean(Each(x, k, LAMBDA i : Loss(x, i)), p))
      \* Metastock: the first value comes from one change less
      first == V(Sum(Tabulate(p - 1, LAMBDA m : Gain(x, j + m)), 1, p - 1) // OfInt(p),
                 Sum(Tabulate(p - 1, LAMBDA m : Loss(x, j + m)), 1, p - 1) // OfInt(p))
  IN IF b > Len(x) THEN <<>>
     ELSE IF early THEN IF u = 0 THEN <<first>> \o Pairs(j + 1) ELSE From(Pairs(j + 1), u)
     ELSE From(Pairs(j + 1), u + 1)
RsiLb(p) == p + unst["RSI"] - (IF metastock THEN 1 ELSE 0)
Rsi(x, s, p) == Strength(x, s, p, unst["RSI"], LAMBDA g, l : N100 ** Over(g, g ++ l, Zero))
Cmo(x, s, p) == Strength(x, s, p, unst["CMO"], LAMBDA g, l : N100 ** Over(g -- l, g ++ l, Zero))

\* raw stochastic from position b on
RawK(H, L, C, b, p) ==
  Each(C, b, LAMBDA i : N100 ** Over(C[i] -- Lowest(L, i, p), Highest(H, i, p) -- Lowest(L, i, p), Zero))
StochF(H, L, C, s, pk, pd, td) ==
  LET lbd == MaLb(pd, td)  b == Begin(s, pk - 1 + lbd)
      k == RawK(H, L, C, b - lbd, pk)
  IN IF b > Len(C) THEN <<<<>>, <<>>>> ELSE <<From(k, lbd + 1), MaDerived(k, 1, pd, td)>>
Stoch(H, L, C, s, pf, pk, tk, pd, td) ==
  LET lbk == MaLb(pk, tk)  lbd == MaLb(pd, td)  b == Begin(s, pf - 1 + lbk + lbd)
      k == MaDerived(RawK(H, L, C, b - lbk - lbd, pf), 1, pk, tk)
  IN IF b > Len(C) THEN <<<<>>, <<>>>> ELSE <<From(k, lbd + 1), MaDerived(k, 1, pd, td)>>
StochRsi(x, s, p, pk, pd, td) ==
  LET lbf == pk - 1 + MaLb(pd, td)  b == Begin(s, RsiLb(p) + lbf)
      r == Rsi(x, b - lbf, p)
      lbd == MaLb(pd, td)
      \* where the index stands still its range is rounding noise, unless it is at its end
      k == Each(r, pk, LAMBDA i :
             LET hi == Highest(r, i, pk)  lo == Lowest(r, i, pk) IN
             IF pk > 1 /\ Eq(hi, lo) /\ ~Eq(hi, Zero) /\ ~Eq(hi, N100) THEN NaN
             ELSE N100 ** Over(r[i] -- lo, hi -- lo, Zero))
  IN IF b > Len(x) THEN <<<<>>, <<>>>> ELSE <<From(k, lbd + 1), MaDerived(k, 1, pd, td)>>

Hist(macd, sig) == <<macd, sig, Map2(LAMBDA u, v : u -- v, macd, sig)>>
MacdOf(fast, slow, sig, lbs) == \* fast, slow aligned; signal line needs lbs more
  LET m == Map2(LAMBDA u, v : u -- v, fast, slow) IN Hist(From(m, lbs + 1), sig)
MacdEma(x, s, pf, kf, ps, ks, pg) ==
  LET lbg == EmaLb(pg)  b == Begin(s, EmaLb(ps) + lbg)  j == b - lbg
      m == Map2(LAMBDA u, v : u -- v, Smoothed(x, j, pf, kf, EmaLb(pf)), Smoothed(x, j, ps, ks, EmaLb(ps)))
  IN IF b > Len(x) THEN <<<<>>, <<>>, <<>>>> ELSE Hist(From(m, lbg + 1), Ema(m, 1, pg))
Macd(x, s, p1, p2, pg) ==
  LET f == MinN(p1, p2)  w == MaxN(p1, p2) IN MacdEma(x, s, f, KOf(f), w, KOf(w), pg)
MacdFix(x, s, pg) == MacdEma(x, s, 12, Lit("0.15"), 26, Lit("0.075"), pg)
MacdExt(x, s, p1, t1, p2, t2, pg, tg) ==
  LET sw == p2 < p1
      pf == IF sw THEN p2 ELSE p1   tf == IF sw THEN t2 ELSE t1
      pw == IF sw THEN p1 ELSE p2   tw == IF sw THEN t1 ELSE t2
      lbg == MaLb(pg, tg)
      b == Begin(s, MaxN(MaLb(pf, tf), MaLb(pw, tw)) + lbg)  j == b - lbg
      m == Map2(LAMBDA u, v : u -- v, Ma(x, j, pf, tf), Ma(x, j, pw, tw))
  IN IF b > Len(x) THEN <<<<>>, <<>>, <<>>>> ELSE Hist(From(m, lbg + 1), MaDerived(m, 1, pg, tg))
Osc(x, s, p1, p2, t, V(_, _)) ==
  LET f == MinN(p1, p2)  w == MaxN(p1, p2)
      bw == Begin(s, MaLb(w, t))  bf == Begin(s, MaLb(f, t))
  IN IF bw > Len(x) THEN <<>> ELSE Map2(V, From(Ma(x, s, f, t), bw - bf + 1), Ma(x, s, w, t))
Trix(x, s, p) ==
  LET lb == EmaLb(p)  b == Begin(s, 3 * lb + 1)
      e == Ema(Ema(Ema(x, b - 1 - 2 * lb, p), 1, p), 1, p)
  IN IF b > Len(x) THEN <<>> ELSE Each(e, 2, LAMBDA i : N100 ** Over(e[i] -- e[i-1], e[i-1], Zero))
Roc(x, s, p, V(_, _)) == Each(x, Begin(s, p), LAMBDA i : V(x[i], x[i-p]))
Ultosc(H, L, C, s, p1, p2, p3) ==
  LET a == MinN(p1, MinN(p2, p3))  c == MaxN(p1, MaxN(p2, p3))  m == p1 + p2 + p3 - a - c
      b == Begin(s, c)
      bp == Each(C, 2, LAMBDA i : C[i] -- MinF(L[i], C[i-1]))   \* element i - 1
      tr == Ranges(H, L, C, 2)
      Part(i, p) == Over(Sum(bp, i - p, i - 1), Sum(tr, i - p, i - 1), Zero)
  IN Each(C, b, LAMBDA i :
       N100 ** ((((Lit("4") ** Part(i, a)) ++ (N2 ** Part(i, m))) ++ Part(i, c)) // Lit("7")))
Typical(H, L, C, i) == ((H[i] ++ L[i]) ++ C[i]) // Lit("3")
TypicalSum(H, L, C, i) == (H[i] ++ L[i]) ++ C[i]
\* money flow: bars without change of the typical price do not count
Mfi(H, L, C, V, s, p) ==
  LET lb == p + unst["MFI"]
      F(i) == LET d == TypicalSum(H, L, C, i) -- TypicalSum(H, L, C, i - 1)
                  flow == Typical(H, L, C, i) ** V[i]
                  \* equal up to rounding, but not equal
                  vague == ~Eq(d, Zero) /\ Near(TypicalSum(H, L, C, i), TypicalSum(H, L, C, i - 1), 9)
              IN IF vague THEN <<NaN, NaN>>
                 ELSE IF Gt(d, Zero) THEN <<flow, Zero>> ELSE IF Lt(d, Zero) THEN <<Zero, flow>> ELSE <<Zero, Zero>>
      fs == Each(C, 2, F)                                       \* element i - 1
      pos == Map(LAMBDA f : f[1], fs)  neg == Map(LAMBDA f : f[2], fs)
  IN Each(C, Begin(s, lb), LAMBDA i :
       LET P == Sum(pos, i - p, i - 1)  all == P ++ Sum(neg, i - p, i - 1) IN
       IF Near(all, N1, 9) THEN NaN
       ELSE IF Lt(all, N1) THEN Zero ELSE (N100 ** P) // all)
Cci(H, L, C, s, p) ==
  LET t == Each(C, 1, LAMBDA i : Typical(H, L, C, i)) IN
  Each(C, Begin(s, p - 1), LAMBDA i :
    LET m == Mean(t, i, p)
        dev == Sum(Tabulate(p, LAMBDA k : Abs(t[i - p + k] -- m)), 1, p) // OfInt(p)
        \* all of the window, or only this bar, at the mean (up to rounding)
        flat == \A k \in 1..p : TypicalSum(H, L, C, i - p + k) = TypicalSum(H, L, C, i)
    IN IF flat THEN NaN ELSE IF Tiny(dev) THEN NaN ELSE (t[i] -- m) // (Lit("0.015") ** dev))
\* gains and losses from open to close
Imi(O, C, s, p) ==
  LET n == p + unst["IMI"]
      up == Each(C, 1, LAMBDA i : MaxF(C[i] -- O[i], Zero))
      dn == Each(C, 1, LAMBDA i : MaxF(O[i] -- C[i], Zero))
  IN Each(C, Begin(s, n - 1), LAMBDA i :
       LET g == Sum(up, i - n + 1, i) IN N100 ** Over(g, g ++ Sum(dn, i - n + 1, i), NaN))

(* Statistics ------------------------------------------------------------------*)
Dev2(x, i, p, m) == Sum(Tabulate(p, LAMBDA k : (x[i - p + k] -- m) ** (x[i - p + k] -- m)), 1, p)
Var(x, i, p) == Dev2(x, i, p, Mean(x, i, p)) // OfInt(p)
\* standard deviations this close to zero are the result of cancellation
StdDev(x, i, p) == LET v == Var(x, i, p)  sq == Mean(Map(LAMBDA u : u ** u, x), i, p) IN
                   IF Lt(v, Lit("1e-9") ** MaxF(N1, sq)) /\ ~Eq(v, Zero) THEN NaN ELSE Fn("sqrt", v)
Bbands(x, s, p, up, dn, t) ==
  LET b == Begin(s, MaxN(MaLb(p, t), p - 1))
      mid == Ma(x, b, p, t)
      sd == Each(x, b, LAMBDA i : StdDev(x, i, p))
  IN IF b > Len(x) THEN <<<<>>, <<>>, <<>>>>
     ELSE <<Map2(LAMBDA m, d : m ++ (up ** d), mid, sd), mid, Map2(LAMBDA m, d : m -- (dn ** d), mid, sd)>>
\* least squares over 0..p-1
Slope(x, i, p) ==
  LET mid == (OfInt(p) -- N1) // N2
      m == Mean(x, i, p)
      num == Sum(Tabulate(p, LAMBDA k : (OfInt(k - 1) -- mid) ** (x[i - p + k] -- m)), 1, p)
      den == Sum(Tabulate(p, LAMBDA k : (OfInt(k - 1) -- mid) ** (OfInt(k - 1) -- mid)), 1, p)
  IN num // den
LineAt(x, i, p, at) == Mean(x, i, p) ++ (Slope(x, i, p) ** (at -- ((OfInt(p) -- N1) // N2)))
Covar(x, y, i, p) ==
  LET mx == Mean(x, i, p)  my == Mean(y, i, p) IN
  Sum(Tabulate(p, LAMBDA k : (x[i - p + k] -- mx) ** (y[i - p + k] -- my)), 1, p)
Square(v) == v ** v
Scale2(x, i, p) == Sum(Tabulate(p, LAMBDA k : Square(x[i - p + k])), 1, p)
\* is the variation of the window lost in rounding?
Lost(v, x, i, p) == Lt(v, Lit("1e-7") ** Scale2(x, i, p))
Correl(x, y, i, p) ==
  LET vx == Covar(x, x, i, p)  vy == Covar(y, y, i, p)
      flat(z) == \A k \in 1..p : z[i - p + k] = z[i]
  IN IF flat(x) \/ flat(y) THEN Zero
     ELSE IF Lost(vx, x, i, p) \/ Lost(vy, y, i, p) THEN NaN
     ELSE Covar(x, y, i, p) // Fn("sqrt", vx ** vy)
Change(x, i) == IF Eq(x[i-1], Zero) THEN Zero ELSE (x[i] -- x[i-1]) // x[i-1]
Beta(x, y, s, p) ==
  LET cx == Each(x, 2, LAMBDA i : Change(x, i))
      cy == Each(y, 2, LAMBDA i : Change(y, i))
      b == Begin(s, p)
      \* changes of x and y so far, squared
      sofar(c, i) == Sum(Tabulate(i - b + p, LAMBDA m : Square(c[b - p + m - 1])), 1, i - b + p)
  IN Each(x, b, LAMBDA i :
       LET v == Covar(cx, cx, i - 1, p) IN
       IF Eq(sofar(cx, i), Zero) THEN Zero
       ELSE IF Lt(v, Lit("1e-6") ** MaxF(N1, MaxF(sofar(cx, i), sofar(cy, i)))) THEN NaN
       ELSE Covar(cx, cy, i - 1, p) // v)

(* Volume ------------------------------------------------------------------------*)
Flow(H, L, C, V, i) ==
  IF Gt(H[i], L[i]) THEN (((C[i] -- L[i]) -- (H[i] -- C[i])) // (H[i] -- L[i])) ** V[i] ELSE Zero
Ad(H, L, C, V, s) == Scan(Add, Zero, Each(C, s, LAMBDA i : Flow(H, L, C, V, i)))
Adosc(H, L, C, V, s, p1, p2) ==
  LET lb == EmaLb(MaxN(p1, p2))  b == Begin(s, lb)
      ad == Ad(H, L, C, V, b - lb)
      E(p) == <<ad[1]>> \o Follow(KOf(p), ad[1], From(ad, 2))
  IN IF b > Len(C) THEN <<>> ELSE From(Map2(LAMBDA u, v : u -- v, E(p1), E(p2)), lb + 1)
Obv(C, V, s) ==
  Scan(Add, V[s], <<Zero>> \o Each(C, s + 1, LAMBDA i :
    IF Gt(C[i], C[i-1]) THEN V[i] ELSE IF Lt(C[i], C[i-1]) THEN Negate(V[i]) ELSE Zero))
\* an index that changes with the price on days the volume satisfies P
VolIndex(C, V, s, P(_, _)) ==
  Scan(Mul, N100, Each(C, Begin(s, 1), LAMBDA i : IF P(V[i], V[i-1]) THEN C[i] // C[i-1] ELSE N1))
Pvt(C, V, s) ==
  Scan(Add, Zero, Each(C, Begin(s, 1), LAMBDA i : V[i] ** ((C[i] // C[i-1]) -- N1)))

(* Parabolic SAR ------------------------------------------------------------------*)
(* afl, afs: <<initial, step, maximum>>; rev: offset on reverse; ext: shorts   *)
(* are reported negative.  start: > 0 long from there, < 0 short, 0 automatic.  *)
Vague(u, v) == ~Eq(u, v) /\ Near(u, v, 10)
SarNext(H, L, afl, afs, rev, h, i) ==
  LET top == MaxF(H[i], h.hi)  bot == MinF(L[i], h.lo)   \* of this bar and the one before
      Step(ep, af, sar, long) ==
        LET n == sar ++ (af ** (ep -- sar)) IN IF long THEN MinF(n, bot) ELSE MaxF(n, top)
  IN IF h.long
     THEN IF Le(L[i], h.sar)
          THEN \* turn short
               LET r0 == MaxF(h.ep, top)  r == r0 ++ (r0 ** rev) IN
               [long |-> FALSE, ep |-> L[i], af |-> afs[1], sar |-> Step(L[i], afs[1], r, FALSE), out |-> r,
                side |-> -1, hi |-> H[i], lo |-> L[i], sure |-> h.sure /\ ~Vague(L[i], h.sar)]
          ELSE LET new == Gt(H[i], h.ep)
                   ep == IF new THEN H[i] ELSE h.ep
                   af == IF new THEN MinF(h.af ++ afl[2], afl[3]) ELSE h.af
               IN [long |-> TRUE, ep |-> ep, af |-> af, sar |-> Step(ep, af, h.sar, TRUE), out |-> h.sar,
                   side |-> 1, hi |-> H[i], lo |-> L[i], sure |-> h.sure /\ ~Vague(L[i], h.sar)]
     ELSE IF Ge(H[i], h.sar)
          THEN \* turn long
               LET r0 == MinF(h.ep, bot)  r == r0 -- (r0 ** rev) IN
               [long |-> TRUE, ep |-> H[i], af |-> afl[1], sar |-> Step(H[i], afl[1], r, TRUE), out |-> r,
                side |-> 1, hi |-> H[i], lo |-> L[i], sure |-> h.sure /\ ~Vague(H[i], h.sar)]
          ELSE LET new == Lt(L[i], h.ep)
                   ep == IF new THEN L[i] ELSE h.ep
                   af == IF new THEN MinF(h.af ++ afs[2], afs[3]) ELSE h.af
               IN [long |-> FALSE, ep |-> ep, af |-> af, sar |-> Step(ep, af, h.sar, FALSE), out |-> h.sar,
                   side |-> -1, hi |-> H[i], lo |-> L[i], sure |-> h.sure /\ ~Vague(H[i], h.sar)]
Limited(a) == LET m == MinF(a[1], a[3]) IN <<m, MinF(a[2], a[3]), a[3]>>
SarRun(H, L, s, start, l0, s0, rev) ==
  LET b == Begin(s, 1)
      afl == Limited(l0)  afs == Limited(s0)
      long == IF Eq(start, Zero) THEN Eq(MinusMove(H, L, b), Zero) ELSE Gt(start, Zero)
      h == [long |-> long, ep |-> IF long THEN H[b] ELSE L[b], af |-> IF long THEN afl[1] ELSE afs[1],
            sar |-> IF Eq(start, Zero) THEN IF long THEN L[b-1] ELSE H[b-1] ELSE Abs(start),
            hi |-> H[b], lo |-> L[b], sure |-> TRUE]
  IN IF b > Len(H) THEN <<>>
     ELSE Scan(LAMBDA g, i : SarNext(H, L, afl, afs, rev, g, i), h, Tabulate(Len(H) - b + 1, LAMBDA m : b + m - 1))
Sar(H, L, s, af, mx) ==
  Map(LAMBDA r : IF r.sure THEN r.out ELSE NaN, SarRun(H, L, s, Zero, <<af, af, mx>>, <<af, af, mx>>, Zero))
SarExt(H, L, s, o) ==
  Map(LAMBDA r : IF ~r.sure THEN NaN ELSE IF r.side < 0 THEN Negate(r.out) ELSE r.out,
      SarRun(H, L, s, o[1], <<o[3], o[4], o[5]>>, <<o[6], o[7], o[8]>>, o[2]))

(* Acceleration bands: high and low spread by the relative range              *)
AccBands(H, L, C, s, p) ==
  LET w(i) == Over(Lit("4") ** (H[i] -- L[i]), H[i] ++ L[i], Zero)
      up == Each(H, 1, LAMBDA i : H[i] ** (N1 ++ w(i)))
      dn == Each(H, 1, LAMBDA i : L[i] ** (N1 -- w(i)))
  IN <<Sma(up, s, p), Sma(C, s, p), Sma(dn, s, p)>>

(***************************************************************************)
(* All of them, by name.  x: the inputs in the order of the call, o: the   *)
(* optional parameters, s: position of the start.  The outputs, one        *)
(* sequence each.  Positions of extremes are left to ExtremeAt.            *)
(***************************************************************************)
IndexOutputs == {"MAXINDEX", "MININDEX", "MINMAXINDEX"}
MathFns == [ACOS |-> "acos", ASIN |-> "asin", ATAN |-> "atan", CEIL |-> "ceil", COS |-> "cos", COSH |-> "cosh",
            EXP |-> "exp", FLOOR |-> "floor", LN |-> "ln", LOG10 |-> "log10", SIN |-> "sin", SINH |-> "sinh",
            SQRT |-> "sqrt", TAN |-> "tan", TANH |-> "tanh"]
HtLb(f) == unst[f] + (IF f \in {"HT_DCPERIOD", "HT_PHASOR"} THEN 32 ELSE 63)
Ht(f, x, s) ==
  LET lb == HtLb(f)  b == Begin(s, lb)  j == b - lb IN
  CASE b > Len(x) -> IF f \in {"HT_PHASOR", "HT_SINE"} THEN <<<<>>, <<>>>> ELSE <<<<>>>>
    [] f = "HT_DCPERIOD" -> Dcperiod(x, j, b)
    [] f = "HT_PHASOR" -> Phasor(x, j, b)
    [] f = "HT_DCPHASE" -> Dcphase(x, j, b)
    [] f = "HT_SINE" -> Sine(x, j, b)
    [] f = "HT_TRENDLINE" -> Trendline(x, j, b)
    [] f = "HT_TRENDMODE" -> Trendmode(x, j, b)

Value(f, x, o, s) ==
  LET X == x[1]  Y == x[2]  Z == x[3]  p == o[1]
      Daily(V(_)) == <<Each(X, s, V)>>
      Wins(V(_)) == <<Window(X, s, p, V)>>
  IN
  CASE f \in DOMAIN MathFns -> Daily(LAMBDA i : Fn(MathFns[f], X[i]))
    [] f = "ADD"  -> Daily(LAMBDA i : X[i] ++ Y[i])
    [] f = "SUB"  -> Daily(LAMBDA i : X[i] -- Y[i])
    [] f = "MULT" -> Daily(LAMBDA i : X[i] ** Y[i])
    [] f = "DIV"  -> Daily(LAMBDA i : X[i] // Y[i])
    [] f = "AVGPRICE" -> Daily(LAMBDA i : (((x[1][i] ++ x[2][i]) ++ x[3][i]) ++ x[4][i]) // Lit("4"))
    [] f = "MEDPRICE" -> Daily(LAMBDA i : (X[i] ++ Y[i]) // N2)
    [] f = "TYPPRICE" -> Daily(LAMBDA i : Typical(X, Y, Z, i))
    [] f = "WCLPRICE" -> Daily(LAMBDA i : ((X[i] ++ Y[i]) ++ (N2 ** Z[i])) // Lit("4"))
    [] f = "BOP" -> Daily(LAMBDA i : IF Le(x[2][i], x[3][i]) THEN Zero
                                    ELSE (x[4][i] -- x[1][i]) // (x[2][i] -- x[3][i]))
    [] f = "SMA"  -> <<Sma(X, s, p)>>
    [] f = "EMA"  -> <<Ema(X, s, p)>>
    [] f = "WLMA" -> <<Wlma(X, s, p)>>
    [] f = "DEMA" -> <<Dema(X, s, p)>>
    [] f = "TEMA" -> <<Tema(X, s, p)>>
    [] f = "T3"   -> <<T3(X, s, p, o[2])>>
    [] f = "WMA"  -> <<Wma(X, s, p)>>
    [] f = "TRIMA" -> <<Trima(X, s, p)>>
    [] f = "KAMA" -> <<Kama(X, s, p, Exact(X))>>
    [] f = "MAMA" -> Mesa(X, s, o[1], o[2])
    [] f = "MA"   -> <<Ma(X, s, p, o[2])>>
    [] f = "MAVP" -> <<Mavp(X, Y, s, o[1], o[2], o[3])>>
    [] f = "MAX"  -> Wins(LAMBDA i : Highest(X, i, p))
    [] f = "MIN"  -> Wins(LAMBDA i : Lowest(X, i, p))
    [] f = "MINMAX" -> Wins(LAMBDA i : Lowest(X, i, p)) \o Wins(LAMBDA i : Highest(X, i, p))
    [] f = "SUM"  -> Wins(LAMBDA i : Sum(X, i - p + 1, i))
    [] f = "MIDPOINT" -> Wins(LAMBDA i : (Highest(X, i, p) ++ Lowest(X, i, p)) // N2)
    [] f = "MIDPRICE" -> Wins(LAMBDA i : (Highest(X, i, p) ++ Lowest(Y, i, p)) // N2)
    [] f = "AROON" -> <<Each(X, Begin(s, p), LAMBDA i : AroonDown(Y, i, p)),
                        Each(X, Begin(s, p), LAMBDA i : AroonUp(X, i, p))>>
    [] f = "AROONOSC" -> <<Each(X, Begin(s, p), LAMBDA i : AroonUp(X, i, p) -- AroonDown(Y, i, p))>>
    [] f = "WILLR" -> Wins(LAMBDA i : Lit("-100") ** Over(Highest(X, i, p) -- Z[i], Highest(X, i, p) -- Lowest(Y, i, p), Zero))
    [] f = "TRANGE" -> <<Ranges(X, Y, Z, Begin(s, 1))>>
    [] f = "ATR"  -> <<Atr(X, Y, Z, s, p, unst["ATR"])>>
    [] f = "NATR" -> LET a == Atr(X, Y, Z, s, p, unst["NATR"])  b == Begin(s, p + unst["NATR"]) IN
                     <<IF p <= 1 THEN a
                       ELSE Tabulate(Len(a), LAMBDA m : N100 ** Over(a[m], Z[b + m - 1], Zero))>>
    [] f = "PLUS_DM"  -> <<Dm(PlusMoves, X, Y, s, p, unst["PLUS_DM"])>>
    [] f = "MINUS_DM" -> <<Dm(MinusMoves, X, Y, s, p, unst["MINUS_DM"])>>
    [] f = "PLUS_DI"  -> <<Di(PlusMoves, X, Y, Z, s, p, unst["PLUS_DI"])>>
    [] f = "MINUS_DI" -> <<Di(MinusMoves, X, Y, Z, s, p, unst["MINUS_DI"])>>
    [] f = "DX"   -> <<Dx(X, Y, Z, s, p, unst["DX"])>>
    [] f = "ADX"  -> <<Adx(X, Y, Z, s, p)>>
    [] f = "ADXR" -> <<Adxr(X, Y, Z, s, p)>>
    [] f = "RSI"  -> <<Rsi(X, s, p)>>
    [] f = "CMO"  -> <<Cmo(X, s, p)>>
    [] f = "STOCHF" -> StochF(X, Y, Z, s, o[1], o[2], o[3])
    [] f = "STOCH"  -> Stoch(X, Y, Z, s, o[1], o[2], o[3], o[4], o[5])
    [] f = "STOCHRSI" -> StochRsi(X, s, o[1], o[2], o[3], o[4])
    [] f = "MACD" -> Macd(X, s, o[1], o[2], o[3])
    [] f = "MACDFIX" -> MacdFix(X, s, p)
    [] f = "MACDEXT" -> MacdExt(X, s, o[1], o[2], o[3], o[4], o[5], o[6])
    [] f = "APO"  -> <<Osc(X, s, o[1], o[2], o[3], LAMBDA u, v : u -- v)>>
    [] f = "PPO"  -> <<Osc(X, s, o[1], o[2], o[3], LAMBDA u, v : N100 ** Over(u -- v, v, Zero))>>
    [] f = "TRIX" -> <<Trix(X, s, p)>>
    [] f = "MOM"  -> <<Roc(X, s, p, LAMBDA u, v : u -- v)>>
    [] f = "ROC"  -> <<Roc(X, s, p, LAMBDA u, v : IF Eq(v, Zero) THEN Zero ELSE N100 ** ((u // v) -- N1))>>
    [] f = "ROCP" -> <<Roc(X, s, p, LAMBDA u, v : IF Eq(v, Zero) THEN Zero ELSE (u -- v) // v)>>
    [] f = "ROCR" -> <<Roc(X, s, p, LAMBDA u, v : IF Eq(v, Zero) THEN Zero ELSE u // v)>>
    [] f = "ROCR100" -> <<Roc(X, s, p, LAMBDA u, v : IF Eq(v, Zero) THEN Zero ELSE N100 ** (u // v))>>
    [] f = "ULTOSC" -> <<Ultosc(X, Y, Z, s, o[1], o[2], o[3])>>
    [] f = "MFI"  -> <<Mfi(X, Y, Z, x[4], s, p)>>
    [] f = "CCI"  -> <<Cci(X, Y, Z, s, p)>>
    [] f = "IMI"  -> <<Imi(X, Y, s, p)>>
    [] f = "VAR"  -> Wins(LAMBDA i : Var(X, i, p))
    [] f = "STDDEV" -> Wins(LAMBDA i : o[2] ** StdDev(X, i, p))
    [] f = "AVGDEV" -> Wins(LAMBDA i : LET m == Mean(X, i, p) IN
                          Sum(Tabulate(p, LAMBDA k : Abs(X[i - p + k] -- m)), 1, p) // OfInt(p))
    [] f = "BBANDS" -> Bbands(X, s, p, o[2], o[3], o[4])
    [] f = "LINEARREG" -> Wins(LAMBDA i : LineAt(X, i, p, OfInt(p - 1)))
    [] f = "LINEARREG_INTERCEPT" -> Wins(LAMBDA i : LineAt(X, i, p, Zero))
    [] f = "LINEARREG_SLOPE" -> Wins(LAMBDA i : Slope(X, i, p))
    [] f = "LINEARREG_ANGLE" -> Wins(LAMBDA i : Deg(Fn("atan", Slope(X, i, p))))
    [] f = "TSF"  -> Wins(LAMBDA i : LineAt(X, i, p, OfInt(p)))
    [] f = "CORREL" -> Wins(LAMBDA i : Correl(X, Y, i, p))
    [] f = "BETA" -> <<Beta(X, Y, s, p)>>
    [] f = "AD"   -> <<Ad(X, Y, Z, x[4], s)>>
    [] f = "ADOSC" -> <<Adosc(X, Y, Z, x[4], s, o[1], o[2])>>
    [] f = "OBV"  -> <<Obv(X, Y, s)>>
    [] f = "NVI"  -> <<VolIndex(X, Y, s, Lt)>>
    [] f = "PVI"  -> <<VolIndex(X, Y, s, Gt)>>
    [] f = "PVT"  -> <<Pvt(X, Y, s)>>
    [] f = "SAR"  -> <<Sar(X, Y, s, o[1], o[2])>>
    [] f = "SAREXT" -> <<SarExt(X, Y, s, o)>>
    [] f = "ACCBANDS" -> AccBands(X, Y, Z, s, p)
    [] f \in {"HT_DCPERIOD", "HT_PHASOR", "HT_DCPHASE", "HT_SINE", "HT_TRENDLINE", "HT_TRENDMODE"} -> Ht(f, X, s)

\* where the extreme of the p bars up to position i may be said to be (from 0)
ExtremeAt(f, k, x, i, p, j) ==
  LET v == IF f = "MAXINDEX" \/ (f = "MINMAXINDEX" /\ k = 2) THEN Highest(x, i, p) ELSE Lowest(x, i, p)
  IN j + 1 \in (i - p + 1)..i /\ x[j + 1] = v
=============================================================================
