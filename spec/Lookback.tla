------------------------------ MODULE Lookback ------------------------------
(***************************************************************************)
(* Number of bars each function needs before its first output.             *)
(* g is the record of library settings (see TaLib): g.unst[i+1] is the     *)
(* unstable period of id i, g.compat the compatibility (1 = Metastock) and *)
(* g.cs[i+1] the candle setting of id i; o is the sequence of optional     *)
(* parameters (all given, defaults already resolved).                      *)
(***************************************************************************)
EXTENDS Catalog

LOCAL MaxI(a, b) == IF a > b THEN a ELSE b
LOCAL MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
UnstOf(g, name) == g.unst[UnstId(name) + 1]

EmaLb(p, g)  == p - 1 + UnstOf(g, "EMA")
WlmaLb(p, g) == p - 1 + UnstOf(g, "WLMA")
T3Lb(p, g)   == 6 * (p - 1) + UnstOf(g, "T3")
MaLb(p, t, g) ==
  IF p <= 1 THEN 0
  ELSE CASE t = 0 -> p - 1                       \* SMA
         [] t = 1 -> EmaLb(p, g)                 \* EMA
         [] t = 2 -> p - 1                       \* WMA
         [] t = 3 -> 2 * EmaLb(p, g)             \* DEMA
         [] t = 4 -> 3 * EmaLb(p, g)             \* TEMA
         [] t = 5 -> p - 1                       \* TRIMA
         [] t = 6 -> p + UnstOf(g, "KAMA")       \* KAMA
         [] t = 7 -> 32 + UnstOf(g, "MAMA")      \* MAMA
         [] t = 8 -> T3Lb(p, g)                  \* T3
         [] t = 9 -> WlmaLb(p, g)                \* WLMA
RsiLb(p, n, g) == p + UnstOf(g, n) - (IF g.compat = 1 THEN 1 ELSE 0)

(* A pattern needs its own bars before the current one (k) and the bars     *)
(* its averages (s) are taken over.                                         *)
CdlLb == [
  CDL2CROWS |-> [s |-> {"BodyLong"}, k |-> 2],
  CDL3BLACKCROWS |-> [s |-> {"ShadowVeryShort"}, k |-> 3],
  CDL3INSIDE |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 2],
  CDL3LINESTRIKE |-> [s |-> {"Near"}, k |-> 3],
  CDL3OUTSIDE |-> [s |-> {}, k |-> 3],
  CDL3STARSINSOUTH |-> [s |-> {"ShadowVeryShort", "ShadowLong", "BodyLong", "BodyShort"}, k |-> 2],
  CDL3WHITESOLDIERS |-> [s |-> {"ShadowVeryShort", "BodyShort", "Far", "Near"}, k |-> 2],
  CDLABANDONEDBABY |-> [s |-> {"BodyDoji", "BodyLong", "BodyShort"}, k |-> 2],
  CDLADVANCEBLOCK |-> [s |-> {"ShadowLong", "ShadowShort", "Far", "Near", "BodyLong"}, k |-> 2],
  CDLBELTHOLD |-> [s |-> {"BodyLong", "ShadowVeryShort"}, k |-> 0],
  CDLBREAKAWAY |-> [s |-> {"BodyLong"}, k |-> 4],
  CDLCLOSINGMARUBOZU |-> [s |-> {"BodyLong", "ShadowVeryShort"}, k |-> 0],
  CDLCONCEALBABYSWALL |-> [s |-> {"ShadowVeryShort"}, k |-> 3],
  CDLCOUNTERATTACK |-> [s |-> {"Equal", "BodyLong"}, k |-> 1],
  CDLDARKCLOUDCOVER |-> [s |-> {"BodyLong"}, k |-> 1],
  CDLDOJI |-> [s |-> {"BodyDoji"}, k |-> 0],
  CDLDOJISTAR |-> [s |-> {"BodyDoji", "BodyLong"}, k |-> 1],
  CDLDRAGONFLYDOJI |-> [s |-> {"BodyDoji", "ShadowVeryShort"}, k |-> 0],
  CDLENGULFING |-> [s |-> {}, k |-> 2],
  CDLEVENINGDOJISTAR |-> [s |-> {"BodyDoji", "BodyLong", "BodyShort"}, k |-> 2],
  CDLEVENINGSTAR |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 2],
  CDLGAPSIDESIDEWHITE |-> [s |-> {"Near", "Equal"}, k |-> 2],
  CDLGRAVESTONEDOJI |-> [s |-> {"BodyDoji", "ShadowVeryShort"}, k |-> 0],
  CDLHAMMER |-> [s |-> {"BodyShort", "ShadowLong", "ShadowVeryShort", "Near"}, k |-> 1],
  CDLHANGINGMAN |-> [s |-> {"BodyShort", "ShadowLong", "ShadowVeryShort", "Near"}, k |-> 1],
  CDLHARAMI |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 1],
  CDLHARAMICROSS |-> [s |-> {"BodyDoji", "BodyLong"}, k |-> 1],
  CDLHIGHWAVE |-> [s |-> {"BodyShort", "ShadowVeryLong"}, k |-> 0],
  CDLHIKKAKE |-> [s |-> {}, k |-> 5],
  CDLHIKKAKEMOD |-> [s |-> {"Near"}, k |-> 5],
  CDLHOMINGPIGEON |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 1],
  CDLIDENTICAL3CROWS |-> [s |-> {"ShadowVeryShort", "Equal"}, k |-> 2],
  CDLINNECK |-> [s |-> {"Equal", "BodyLong"}, k |-> 1],
  CDLINVERTEDHAMMER |-> [s |-> {"BodyShort", "ShadowLong", "ShadowVeryShort"}, k |-> 1],
  CDLKICKING |-> [s |-> {"ShadowVeryShort", "BodyLong"}, k |-> 1],
  CDLKICKINGBYLENGTH |-> [s |-> {"ShadowVeryShort", "BodyLong"}, k |-> 1],
  CDLLADDERBOTTOM |-> [s |-> {"ShadowVeryShort"}, k |-> 4],
  CDLLONGLEGGEDDOJI |-> [s |-> {"BodyDoji", "ShadowLong"}, k |-> 0],
  CDLLONGLINE |-> [s |-> {"BodyLong", "ShadowShort"}, k |-> 0],
  CDLMARUBOZU |-> [s |-> {"BodyLong", "ShadowVeryShort"}, k |-> 0],
  CDLMATCHINGLOW |-> [s |-> {"Equal"}, k |-> 1],
  CDLMATHOLD |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 4],
  CDLMORNINGDOJISTAR |-> [s |-> {"BodyDoji", "BodyLong", "BodyShort"}, k |-> 2],
  CDLMORNINGSTAR |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 2],
  CDLONNECK |-> [s |-> {"Equal", "BodyLong"}, k |-> 1],
  CDLPIERCING |-> [s |-> {"BodyLong"}, k |-> 1],
  CDLRICKSHAWMAN |-> [s |-> {"BodyDoji", "ShadowLong", "Near"}, k |-> 0],
  CDLRISEFALL3METHODS |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 4],
  CDLSEPARATINGLINES |-> [s |-> {"ShadowVeryShort", "BodyLong", "Equal"}, k |-> 1],
  CDLSHOOTINGSTAR |-> [s |-> {"BodyShort", "ShadowLong", "ShadowVeryShort"}, k |-> 1],
  CDLSHORTLINE |-> [s |-> {"BodyShort", "ShadowShort"}, k |-> 0],
  CDLSPINNINGTOP |-> [s |-> {"BodyShort"}, k |-> 0],
  CDLSTALLEDPATTERN |-> [s |-> {"BodyLong", "BodyShort", "ShadowVeryShort", "Near"}, k |-> 2],
  CDLSTICKSANDWICH |-> [s |-> {"Equal"}, k |-> 2],
  CDLTAKURI |-> [s |-> {"BodyDoji", "ShadowVeryShort", "ShadowVeryLong"}, k |-> 0],
  CDLTASUKIGAP |-> [s |-> {"Near"}, k |-> 2],
  CDLTHRUSTING |-> [s |-> {"Equal", "BodyLong"}, k |-> 1],
  CDLTRISTAR |-> [s |-> {"BodyDoji"}, k |-> 2],
  CDLUNIQUE3RIVER |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 2],
  CDLUPSIDEGAP2CROWS |-> [s |-> {"BodyShort", "BodyLong"}, k |-> 2],
  CDLXSIDEGAP3METHODS |-> [s |-> {}, k |-> 2]
]
CandleId(n) == (CHOOSE i \in 1..NCandle : CandleIds[i] = n) - 1
CandleLb(f, g) ==
  LET aps == {g.cs[CandleId(n) + 1].ap : n \in CdlLb[f].s}
      \* the modified Hikkake always looks one bar further back
      low == IF f = "CDLHIKKAKEMOD" THEN {1} ELSE {0}
  IN MaxSet(aps \cup low) + CdlLb[f].k

LookbackOf(f, o, g) ==
  CASE IsCandle(f) -> CandleLb(f, g)
    [] f \in {"ACOS","AD","ADD","ASIN","ATAN","AVGPRICE","BOP","CEIL","COS","COSH","DIV","EXP",
              "FLOOR","LN","LOG10","MEDPRICE","MULT","OBV","SIN","SINH","SQRT","SUB","TAN","TANH",
              "TYPPRICE","WCLPRICE"} -> 0
    [] f \in {"NVI","PVI","PVT","SAR","SAREXT","TRANGE"} -> 1
    [] f \in {"ACCBANDS","AVGDEV","CCI","CORREL","LINEARREG","LINEARREG_ANGLE",
              "LINEARREG_INTERCEPT","LINEARREG_SLOPE","MAX","MAXINDEX","MIDPOINT","MIDPRICE","MIN",
              "MININDEX","MINMAX","MINMAXINDEX","SMA","STDDEV","SUM","TRIMA","TSF","VAR","WILLR",
              "WMA"} -> o[1] - 1
    [] f \in {"AROON","AROONOSC","BETA","MOM","ROC","ROCP","ROCR","ROCR100"} -> o[1]
    [] f \in {"ATR","KAMA","MFI","NATR"} -> o[1] + UnstOf(g, f)
    [] f \in {"DX"} -> o[1] + UnstOf(g, "DX")
    [] f \in {"MINUS_DI","PLUS_DI"} -> IF o[1] > 1 THEN o[1] + UnstOf(g, f) ELSE 1
    [] f \in {"MINUS_DM","PLUS_DM"} -> IF o[1] > 1 THEN o[1] + UnstOf(g, f) - 1 ELSE 1
    [] f = "ADX"  -> 2 * o[1] + UnstOf(g, "ADX") - 1
    [] f = "ADXR" -> 3 * o[1] + UnstOf(g, "ADX") - 2
    [] f = "IMI"  -> o[1] + UnstOf(g, "IMI") - 1
    [] f \in {"RSI","CMO"} -> RsiLb(o[1], f, g)
    [] f \in {"HT_DCPERIOD","HT_PHASOR","MAMA"} -> 32 + UnstOf(g, f)
    [] f \in {"HT_DCPHASE","HT_SINE","HT_TRENDLINE","HT_TRENDMODE"} -> 63 + UnstOf(g, f)
    [] f = "EMA"  -> EmaLb(o[1], g)
    [] f = "WLMA" -> WlmaLb(o[1], g)
    [] f = "DEMA" -> 2 * EmaLb(o[1], g)
    [] f = "TEMA" -> 3 * EmaLb(o[1], g)
    [] f = "TRIX" -> 3 * EmaLb(o[1], g) + 1
    [] f = "T3"   -> T3Lb(o[1], g)
    [] f = "MA"   -> MaLb(o[1], o[2], g)
    [] f = "MAVP" -> MaLb(o[2], o[3], g)
    [] f = "ADOSC" -> EmaLb(MaxI(o[1], o[2]), g)
    [] f \in {"APO","PPO"} -> MaLb(MaxI(o[1], o[2]), o[3], g)
    [] f = "BBANDS" -> MaxI(MaLb(o[1], o[4], g), o[1] - 1)
    [] f = "MACD" -> EmaLb(MaxI(o[1], o[2]), g) + EmaLb(o[3], g)
    [] f = "MACDFIX" -> EmaLb(26, g) + EmaLb(o[1], g)
    [] f = "MACDEXT" -> MaxI(MaLb(o[1], o[2], g), MaLb(o[3], o[4], g)) + MaLb(o[5], o[6], g)
    [] f = "STOCH" -> o[1] - 1 + MaLb(o[2], o[3], g) + MaLb(o[4], o[5], g)
    [] f = "STOCHF" -> o[1] - 1 + MaLb(o[2], o[3], g)
    [] f = "STOCHRSI" -> RsiLb(o[1], "RSI", g) + o[2] - 1 + MaLb(o[3], o[4], g)
    [] f = "ULTOSC" -> MaxI(MaxI(o[1], o[2]), o[3])

(***************************************************************************)
(* The unstable periods a function depends on, and the functions that pass *)
(* a bar through one recursive stage only: an unstable period drops their  *)
(* first outputs and changes nothing else.  (Where one smoothed series is  *)
(* smoothed again, the later stage starts later and takes other values; an *)
(* intraday momentum index sums over all the bars of its lookback.)        *)
(***************************************************************************)
UnstNames == {UnstIds[i] : i \in 1..NUnst}
MaUnst(t) == CASE t \in {1, 3, 4} -> {"EMA"} [] t = 6 -> {"KAMA"} [] t = 7 -> {"MAMA"}
               [] t = 8 -> {"T3"} [] t = 9 -> {"WLMA"} [] OTHER -> {}
UnstOfFn(f, o) ==
  CASE f \in {"DEMA","TEMA","TRIX","MACD","MACDFIX","ADOSC"} -> {"EMA"}
    [] f = "ADXR" -> {"ADX"}
    [] f = "STOCHRSI" -> {"RSI"} \cup MaUnst(o[4])
    [] f = "MA" -> MaUnst(o[2])
    [] f \in {"MAVP","APO","PPO","STOCHF"} -> MaUnst(o[3])
    [] f = "BBANDS" -> MaUnst(o[4])
    [] f = "MACDEXT" -> MaUnst(o[2]) \cup MaUnst(o[4]) \cup MaUnst(o[6])
    [] f = "STOCH" -> MaUnst(o[3]) \cup MaUnst(o[5])
    [] OTHER -> {f} \cap UnstNames
SingleStage(f, o) ==
  f \in {"ADOSC","ADX","ADXR","ATR","CMO","DX","EMA","HT_DCPERIOD","HT_DCPHASE","HT_PHASOR","HT_SINE",
         "HT_TRENDLINE","HT_TRENDMODE","KAMA","MAMA","MFI","MINUS_DI","MINUS_DM","NATR","PLUS_DI",
         "PLUS_DM","RSI","T3","WLMA"} \/ (f = "MA" /\ o[2] \notin {3, 4})
=============================================================================
