------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The 165 functions of the library as documented: group, flags, inputs,   *)
(* outputs, optional parameters with range and default, unstable-period    *)
(* ids and candle settings.  Transcribed once from the documentation of    *)
(* the pinned commit (ta_func_api.xml and the tables printed by            *)
(* tools/dump_catalog.c) and from then on the reference.                   *)
(*   ins:  t 0 = price input (f: 1 open 2 high 4 low 8 close 16 volume),   *)
(*         1 = real series;   outs: t 0 = real, 1 = integer                *)
(*   opts: t 0 = real range, 2 = integer range, 3 = integer list;          *)
(*         real values are decimal strings                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* Unstable-period ids, numbered from 0 as in the public enumeration. *)
UnstIds == << "ADX", "ADXR", "ATR", "CMO", "DX", "EMA", "HT_DCPERIOD", "HT_DCPHASE", "HT_PHASOR", "HT_SINE", "HT_TRENDLINE", "HT_TRENDMODE", "IMI", "KAMA", "MAMA", "MFI", "MINUS_DI", "MINUS_DM", "NATR", "PLUS_DI", "PLUS_DM", "RSI", "STOCHRSI", "T3", "WLMA" >>
NUnst == Len(UnstIds)
UnstId(n) == (CHOOSE i \in 1..NUnst : UnstIds[i] = n) - 1

(* Candle settings, numbered from 0. *)
CandleIds == << "BodyLong", "BodyVeryLong", "BodyShort", "BodyDoji", "ShadowLong", "ShadowVeryLong", "ShadowShort", "ShadowVeryShort", "Near", "Far", "Equal" >>
NCandle == Len(CandleIds)
(* Default settings: range type (0 real body, 1 high-low, 2 shadows),
   averaging period, factor. *)
CandleDefaults == <<
  [rt |-> 0, ap |-> 10, fac |-> "1.0"],  \* BodyLong
  [rt |-> 0, ap |-> 10, fac |-> "3.0"],  \* BodyVeryLong
  [rt |-> 0, ap |-> 10, fac |-> "1.0"],  \* BodyShort
  [rt |-> 1, ap |-> 10, fac |-> "0.1"],  \* BodyDoji
  [rt |-> 0, ap |-> 0,  fac |-> "1.0"],  \* ShadowLong
  [rt |-> 0, ap |-> 0,  fac |-> "2.0"],  \* ShadowVeryLong
  [rt |-> 2, ap |-> 10, fac |-> "1.0"],  \* ShadowShort
  [rt |-> 1, ap |-> 10, fac |-> "0.1"],  \* ShadowVeryShort
  [rt |-> 1, ap |-> 5,  fac |-> "0.2"],  \* Near
  [rt |-> 1, ap |-> 5,  fac |-> "0.6"],  \* Far
  [rt |-> 1, ap |-> 5,  fac |-> "0.05"]  \* Equal
>>

GroupNames == << "Math Operators", "Math Transform", "Overlap Studies",
  "Volatility Indicators", "Momentum Indicators", "Cycle Indicators",
  "Volume Indicators", "Pattern Recognition", "Statistic Functions",
  "Price Transform" >>

FuncNames == <<
  "ACCBANDS", "ACOS", "AD", "ADD", "ADOSC", "ADX",
  "ADXR", "APO", "AROON", "AROONOSC", "ASIN", "ATAN",
  "ATR", "AVGPRICE", "AVGDEV", "BBANDS", "BETA", "BOP",
  "CCI", "CDL2CROWS", "CDL3BLACKCROWS", "CDL3INSIDE", "CDL3LINESTRIKE", "CDL3OUTSIDE",
  "CDL3STARSINSOUTH", "CDL3WHITESOLDIERS", "CDLABANDONEDBABY", "CDLADVANCEBLOCK", "CDLBELTHOLD", "CDLBREAKAWAY",
  "CDLCLOSINGMARUBOZU", "CDLCONCEALBABYSWALL", "CDLCOUNTERATTACK", "CDLDARKCLOUDCOVER", "CDLDOJI", "CDLDOJISTAR",
  "CDLDRAGONFLYDOJI", "CDLENGULFING", "CDLEVENINGDOJISTAR", "CDLEVENINGSTAR", "CDLGAPSIDESIDEWHITE", "CDLGRAVESTONEDOJI",
  "CDLHAMMER", "CDLHANGINGMAN", "CDLHARAMI", "CDLHARAMICROSS", "CDLHIGHWAVE", "CDLHIKKAKE",
  "CDLHIKKAKEMOD", "CDLHOMINGPIGEON", "CDLIDENTICAL3CROWS", "CDLINNECK", "CDLINVERTEDHAMMER", "CDLKICKING",
  "CDLKICKINGBYLENGTH", "CDLLADDERBOTTOM", "CDLLONGLEGGEDDOJI", "CDLLONGLINE", "CDLMARUBOZU", "CDLMATCHINGLOW",
  "CDLMATHOLD", "CDLMORNINGDOJISTAR", "CDLMORNINGSTAR", "CDLONNECK", "CDLPIERCING", "CDLRICKSHAWMAN",
  "CDLRISEFALL3METHODS", "CDLSEPARATINGLINES", "CDLSHOOTINGSTAR", "CDLSHORTLINE", "CDLSPINNINGTOP", "CDLSTALLEDPATTERN",
  "CDLSTICKSANDWICH", "CDLTAKURI", "CDLTASUKIGAP", "CDLTHRUSTING", "CDLTRISTAR", "CDLUNIQUE3RIVER",
  "CDLUPSIDEGAP2CROWS", "CDLXSIDEGAP3METHODS", "CEIL", "CMO", "CORREL", "COS",
  "COSH", "DEMA", "DIV", "DX", "EMA", "EXP",
  "FLOOR", "HT_DCPERIOD", "HT_DCPHASE", "HT_PHASOR", "HT_SINE", "HT_TRENDLINE",
  "HT_TRENDMODE", "IMI", "KAMA", "LINEARREG", "LINEARREG_ANGLE", "LINEARREG_INTERCEPT",
  "LINEARREG_SLOPE", "LN", "LOG10", "MA", "MACD", "MACDEXT",
  "MACDFIX", "MAMA", "MAVP", "MAX", "MAXINDEX", "MEDPRICE",
  "MFI", "MIDPOINT", "MIDPRICE", "MIN", "MININDEX", "MINMAX",
  "MINMAXINDEX", "MINUS_DI", "MINUS_DM", "MOM", "MULT", "NATR",
  "NVI", "OBV", "PLUS_DI", "PLUS_DM", "PPO", "PVI",
  "PVT", "ROC", "ROCP", "ROCR", "ROCR100", "RSI",
  "SAR", "SAREXT", "SIN", "SINH", "SMA", "SQRT",
  "STDDEV", "STOCH", "STOCHF", "STOCHRSI", "SUB", "SUM",
  "T3", "TAN", "TANH", "TEMA", "TRANGE", "TRIMA",
  "TRIX", "TSF", "TYPPRICE", "ULTOSC", "VAR", "WCLPRICE",
  "WILLR", "WLMA", "WMA"
>>

Cat == [
 ACCBANDS |-> [group |-> "Overlap Studies", camel |-> "Accbands", hint |-> "Acceleration Bands", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outRealUpperBand", t |-> 0, f |-> 2048], [n |-> "outRealMiddleBand", t |-> 0, f |-> 1], [n |-> "outRealLowerBand", t |-> 0, f |-> 4096]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 20, sug |-> <<4, 200, 1>>]>>],
 ACOS |-> [group |-> "Math Transform", camel |-> "Acos", hint |-> "Vector Trigonometric ACos", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 AD |-> [group |-> "Volume Indicators", camel |-> "Ad", hint |-> "Chaikin A/D Line", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLCV", t |-> 0, f |-> 30]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 ADD |-> [group |-> "Math Operators", camel |-> "Add", hint |-> "Vector Arithmetic Add", flags |-> 0,
   ins |-> <<[n |-> "inReal0", t |-> 1, f |-> 0], [n |-> "inReal1", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 ADOSC |-> [group |-> "Volume Indicators", camel |-> "AdOsc", hint |-> "Chaikin A/D Oscillator", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLCV", t |-> 0, f |-> 30]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInFastPeriod", t |-> 2, f |-> 0, disp |-> "Fast Period", hint |-> "Number of period for the fast MA", min |-> 2, max |-> 100000, def |-> 3, sug |-> <<4, 200, 1>>],
            [n |-> "optInSlowPeriod", t |-> 2, f |-> 0, disp |-> "Slow Period", hint |-> "Number of period for the slow MA", min |-> 2, max |-> 100000, def |-> 10, sug |-> <<4, 200, 1>>]>>],
 ADX |-> [group |-> "Momentum Indicators", camel |-> "Adx", hint |-> "Average Directional Movement Index", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 ADXR |-> [group |-> "Momentum Indicators", camel |-> "Adxr", hint |-> "Average Directional Movement Index Rating", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 APO |-> [group |-> "Momentum Indicators", camel |-> "Apo", hint |-> "Absolute Price Oscillator", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInFastPeriod", t |-> 2, f |-> 0, disp |-> "Fast Period", hint |-> "Number of period for the fast MA", min |-> 2, max |-> 100000, def |-> 12, sug |-> <<4, 200, 1>>],
            [n |-> "optInSlowPeriod", t |-> 2, f |-> 0, disp |-> "Slow Period", hint |-> "Number of period for the slow MA", min |-> 2, max |-> 100000, def |-> 26, sug |-> <<4, 200, 1>>],
            [n |-> "optInMAType", t |-> 3, f |-> 0, disp |-> "MA Type", hint |-> "Type of Moving Average", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 AROON |-> [group |-> "Momentum Indicators", camel |-> "Aroon", hint |-> "Aroon", flags |-> 0,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outAroonDown", t |-> 0, f |-> 4], [n |-> "outAroonUp", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 AROONOSC |-> [group |-> "Momentum Indicators", camel |-> "AroonOsc", hint |-> "Aroon Oscillator", flags |-> 0,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 ASIN |-> [group |-> "Math Transform", camel |-> "Asin", hint |-> "Vector Trigonometric ASin", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 ATAN |-> [group |-> "Math Transform", camel |-> "Atan", hint |-> "Vector Trigonometric ATan", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 ATR |-> [group |-> "Volatility Indicators", camel |-> "Atr", hint |-> "Average True Range", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 14, sug |-> <<1, 200, 1>>]>>],
 AVGPRICE |-> [group |-> "Price Transform", camel |-> "AvgPrice", hint |-> "Average Price", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 AVGDEV |-> [group |-> "Price Transform", camel |-> "AvgDev", hint |-> "Average Deviation", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 BBANDS |-> [group |-> "Overlap Studies", camel |-> "Bbands", hint |-> "Bollinger Bands", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outRealUpperBand", t |-> 0, f |-> 2048], [n |-> "outRealMiddleBand", t |-> 0, f |-> 1], [n |-> "outRealLowerBand", t |-> 0, f |-> 4096]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 5, sug |-> <<4, 200, 1>>],
            [n |-> "optInNbDevUp", t |-> 0, f |-> 0, disp |-> "Deviations up", hint |-> "Deviation multiplier for upper band", min |-> "-3e37", max |-> "3e37", def |-> "2.0", prec |-> 2, sug |-> <<"-2.0", "2.0", "0.2">>],
            [n |-> "optInNbDevDn", t |-> 0, f |-> 0, disp |-> "Deviations down", hint |-> "Deviation multiplier for lower band", min |-> "-3e37", max |-> "3e37", def |-> "2.0", prec |-> 2, sug |-> <<"-2.0", "2.0", "0.2">>],
            [n |-> "optInMAType", t |-> 3, f |-> 0, disp |-> "MA Type", hint |-> "Type of Moving Average", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 BETA |-> [group |-> "Statistic Functions", camel |-> "Beta", hint |-> "Beta", flags |-> 0,
   ins |-> <<[n |-> "inReal0", t |-> 1, f |-> 0], [n |-> "inReal1", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 5, sug |-> <<1, 200, 1>>]>>],
 BOP |-> [group |-> "Momentum Indicators", camel |-> "Bop", hint |-> "Balance Of Power", flags |-> 0,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 CCI |-> [group |-> "Momentum Indicators", camel |-> "Cci", hint |-> "Commodity Channel Index", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 CDL2CROWS |-> [group |-> "Pattern Recognition", camel |-> "Cdl2Crows", hint |-> "Two Crows", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDL3BLACKCROWS |-> [group |-> "Pattern Recognition", camel |-> "Cdl3BlackCrows", hint |-> "Three Black Crows", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDL3INSIDE |-> [group |-> "Pattern Recognition", camel |-> "Cdl3Inside", hint |-> "Three Inside Up/Down", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDL3LINESTRIKE |-> [group |-> "Pattern Recognition", camel |-> "Cdl3LineStrike", hint |-> "Three-Line Strike ", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDL3OUTSIDE |-> [group |-> "Pattern Recognition", camel |-> "Cdl3Outside", hint |-> "Three Outside Up/Down", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDL3STARSINSOUTH |-> [group |-> "Pattern Recognition", camel |-> "Cdl3StarsInSouth", hint |-> "Three Stars In The South", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDL3WHITESOLDIERS |-> [group |-> "Pattern Recognition", camel |-> "Cdl3WhiteSoldiers", hint |-> "Three Advancing White Soldiers", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLABANDONEDBABY |-> [group |-> "Pattern Recognition", camel |-> "CdlAbandonedBaby", hint |-> "Abandoned Baby", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInPenetration", t |-> 0, f |-> 0, disp |-> "Penetration", hint |-> "Percentage of penetration of a candle within another candle", min |-> "0.0", max |-> "3e37", def |-> "0.3", prec |-> 0, sug |-> <<"0.0", "0.0", "0.0">>]>>],
 CDLADVANCEBLOCK |-> [group |-> "Pattern Recognition", camel |-> "CdlAdvanceBlock", hint |-> "Advance Block", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLBELTHOLD |-> [group |-> "Pattern Recognition", camel |-> "CdlBeltHold", hint |-> "Belt-hold", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLBREAKAWAY |-> [group |-> "Pattern Recognition", camel |-> "CdlBreakaway", hint |-> "Breakaway", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLCLOSINGMARUBOZU |-> [group |-> "Pattern Recognition", camel |-> "CdlClosingMarubozu", hint |-> "Closing Marubozu", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLCONCEALBABYSWALL |-> [group |-> "Pattern Recognition", camel |-> "CdlConcealBabysWall", hint |-> "Concealing Baby Swallow", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLCOUNTERATTACK |-> [group |-> "Pattern Recognition", camel |-> "CdlCounterAttack", hint |-> "Counterattack", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLDARKCLOUDCOVER |-> [group |-> "Pattern Recognition", camel |-> "CdlDarkCloudCover", hint |-> "Dark Cloud Cover", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInPenetration", t |-> 0, f |-> 0, disp |-> "Penetration", hint |-> "Percentage of penetration of a candle within another candle", min |-> "0.0", max |-> "3e37", def |-> "0.5", prec |-> 0, sug |-> <<"0.0", "0.0", "0.0">>]>>],
 CDLDOJI |-> [group |-> "Pattern Recognition", camel |-> "CdlDoji", hint |-> "Doji", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLDOJISTAR |-> [group |-> "Pattern Recognition", camel |-> "CdlDojiStar", hint |-> "Doji Star", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLDRAGONFLYDOJI |-> [group |-> "Pattern Recognition", camel |-> "CdlDragonflyDoji", hint |-> "Dragonfly Doji", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLENGULFING |-> [group |-> "Pattern Recognition", camel |-> "CdlEngulfing", hint |-> "Engulfing Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLEVENINGDOJISTAR |-> [group |-> "Pattern Recognition", camel |-> "CdlEveningDojiStar", hint |-> "Evening Doji Star", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInPenetration", t |-> 0, f |-> 0, disp |-> "Penetration", hint |-> "Percentage of penetration of a candle within another candle", min |-> "0.0", max |-> "3e37", def |-> "0.3", prec |-> 0, sug |-> <<"0.0", "0.0", "0.0">>]>>],
 CDLEVENINGSTAR |-> [group |-> "Pattern Recognition", camel |-> "CdlEveningStar", hint |-> "Evening Star", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInPenetration", t |-> 0, f |-> 0, disp |-> "Penetration", hint |-> "Percentage of penetration of a candle within another candle", min |-> "0.0", max |-> "3e37", def |-> "0.3", prec |-> 0, sug |-> <<"0.0", "0.0", "0.0">>]>>],
 CDLGAPSIDESIDEWHITE |-> [group |-> "Pattern Recognition", camel |-> "CdlGapSideSideWhite", hint |-> "Up/Down-gap side-by-side white lines", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLGRAVESTONEDOJI |-> [group |-> "Pattern Recognition", camel |-> "CdlGravestoneDoji", hint |-> "Gravestone Doji", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHAMMER |-> [group |-> "Pattern Recognition", camel |-> "CdlHammer", hint |-> "Hammer", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHANGINGMAN |-> [group |-> "Pattern Recognition", camel |-> "CdlHangingMan", hint |-> "Hanging Man", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHARAMI |-> [group |-> "Pattern Recognition", camel |-> "CdlHarami", hint |-> "Harami Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHARAMICROSS |-> [group |-> "Pattern Recognition", camel |-> "CdlHaramiCross", hint |-> "Harami Cross Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHIGHWAVE |-> [group |-> "Pattern Recognition", camel |-> "CdlHignWave", hint |-> "High-Wave Candle", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHIKKAKE |-> [group |-> "Pattern Recognition", camel |-> "CdlHikkake", hint |-> "Hikkake Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHIKKAKEMOD |-> [group |-> "Pattern Recognition", camel |-> "CdlHikkakeMod", hint |-> "Modified Hikkake Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLHOMINGPIGEON |-> [group |-> "Pattern Recognition", camel |-> "CdlHomingPigeon", hint |-> "Homing Pigeon", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLIDENTICAL3CROWS |-> [group |-> "Pattern Recognition", camel |-> "CdlIdentical3Crows", hint |-> "Identical Three Crows", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLINNECK |-> [group |-> "Pattern Recognition", camel |-> "CdlInNeck", hint |-> "In-Neck Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLINVERTEDHAMMER |-> [group |-> "Pattern Recognition", camel |-> "CdlInvertedHammer", hint |-> "Inverted Hammer", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLKICKING |-> [group |-> "Pattern Recognition", camel |-> "CdlKicking", hint |-> "Kicking", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLKICKINGBYLENGTH |-> [group |-> "Pattern Recognition", camel |-> "CdlKickingByLength", hint |-> "Kicking - bull/bear determined by the longer marubozu", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLLADDERBOTTOM |-> [group |-> "Pattern Recognition", camel |-> "CdlLadderBottom", hint |-> "Ladder Bottom", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLLONGLEGGEDDOJI |-> [group |-> "Pattern Recognition", camel |-> "CdlLongLeggedDoji", hint |-> "Long Legged Doji", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLLONGLINE |-> [group |-> "Pattern Recognition", camel |-> "CdlLongLine", hint |-> "Long Line Candle", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLMARUBOZU |-> [group |-> "Pattern Recognition", camel |-> "CdlMarubozu", hint |-> "Marubozu", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLMATCHINGLOW |-> [group |-> "Pattern Recognition", camel |-> "CdlMatchingLow", hint |-> "Matching Low", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLMATHOLD |-> [group |-> "Pattern Recognition", camel |-> "CdlMatHold", hint |-> "Mat Hold", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInPenetration", t |-> 0, f |-> 0, disp |-> "Penetration", hint |-> "Percentage of penetration of a candle within another candle", min |-> "0.0", max |-> "3e37", def |-> "0.5", prec |-> 0, sug |-> <<"0.0", "0.0", "0.0">>]>>],
 CDLMORNINGDOJISTAR |-> [group |-> "Pattern Recognition", camel |-> "CdlMorningDojiStar", hint |-> "Morning Doji Star", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInPenetration", t |-> 0, f |-> 0, disp |-> "Penetration", hint |-> "Percentage of penetration of a candle within another candle", min |-> "0.0", max |-> "3e37", def |-> "0.3", prec |-> 0, sug |-> <<"0.0", "0.0", "0.0">>]>>],
 CDLMORNINGSTAR |-> [group |-> "Pattern Recognition", camel |-> "CdlMorningStar", hint |-> "Morning Star", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInPenetration", t |-> 0, f |-> 0, disp |-> "Penetration", hint |-> "Percentage of penetration of a candle within another candle", min |-> "0.0", max |-> "3e37", def |-> "0.3", prec |-> 0, sug |-> <<"0.0", "0.0", "0.0">>]>>],
 CDLONNECK |-> [group |-> "Pattern Recognition", camel |-> "CdlOnNeck", hint |-> "On-Neck Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLPIERCING |-> [group |-> "Pattern Recognition", camel |-> "CdlPiercing", hint |-> "Piercing Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLRICKSHAWMAN |-> [group |-> "Pattern Recognition", camel |-> "CdlRickshawMan", hint |-> "Rickshaw Man", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLRISEFALL3METHODS |-> [group |-> "Pattern Recognition", camel |-> "CdlRiseFall3Methods", hint |-> "Rising/Falling Three Methods", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLSEPARATINGLINES |-> [group |-> "Pattern Recognition", camel |-> "CdlSeperatingLines", hint |-> "Separating Lines", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLSHOOTINGSTAR |-> [group |-> "Pattern Recognition", camel |-> "CdlShootingStar", hint |-> "Shooting Star", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLSHORTLINE |-> [group |-> "Pattern Recognition", camel |-> "CdlShortLine", hint |-> "Short Line Candle", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLSPINNINGTOP |-> [group |-> "Pattern Recognition", camel |-> "CdlSpinningTop", hint |-> "Spinning Top", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLSTALLEDPATTERN |-> [group |-> "Pattern Recognition", camel |-> "CdlStalledPattern", hint |-> "Stalled Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLSTICKSANDWICH |-> [group |-> "Pattern Recognition", camel |-> "CdlStickSandwhich", hint |-> "Stick Sandwich", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLTAKURI |-> [group |-> "Pattern Recognition", camel |-> "CdlTakuri", hint |-> "Takuri (Dragonfly Doji with very long lower shadow)", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLTASUKIGAP |-> [group |-> "Pattern Recognition", camel |-> "CdlTasukiGap", hint |-> "Tasuki Gap", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLTHRUSTING |-> [group |-> "Pattern Recognition", camel |-> "CdlThrusting", hint |-> "Thrusting Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLTRISTAR |-> [group |-> "Pattern Recognition", camel |-> "CdlTristar", hint |-> "Tristar Pattern", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLUNIQUE3RIVER |-> [group |-> "Pattern Recognition", camel |-> "CdlUnique3River", hint |-> "Unique 3 River", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLUPSIDEGAP2CROWS |-> [group |-> "Pattern Recognition", camel |-> "CdlUpsideGap2Crows", hint |-> "Upside Gap Two Crows", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CDLXSIDEGAP3METHODS |-> [group |-> "Pattern Recognition", camel |-> "CdlXSideGap3Methods", hint |-> "Upside/Downside Gap Three Methods", flags |-> 268435456,
   ins |-> <<[n |-> "inPriceOHLC", t |-> 0, f |-> 15]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 CEIL |-> [group |-> "Math Transform", camel |-> "Ceil", hint |-> "Vector Ceil", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 CMO |-> [group |-> "Momentum Indicators", camel |-> "Cmo", hint |-> "Chande Momentum Oscillator", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 CORREL |-> [group |-> "Statistic Functions", camel |-> "Correl", hint |-> "Pearson's Correlation Coefficient (r)", flags |-> 0,
   ins |-> <<[n |-> "inReal0", t |-> 1, f |-> 0], [n |-> "inReal1", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 COS |-> [group |-> "Math Transform", camel |-> "Cos", hint |-> "Vector Trigonometric Cos", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 COSH |-> [group |-> "Math Transform", camel |-> "Cosh", hint |-> "Vector Trigonometric Cosh", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 DEMA |-> [group |-> "Overlap Studies", camel |-> "Dema", hint |-> "Double Exponential Moving Average", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 DIV |-> [group |-> "Math Operators", camel |-> "Div", hint |-> "Vector Arithmetic Div", flags |-> 0,
   ins |-> <<[n |-> "inReal0", t |-> 1, f |-> 0], [n |-> "inReal1", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 DX |-> [group |-> "Momentum Indicators", camel |-> "Dx", hint |-> "Directional Movement Index", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 EMA |-> [group |-> "Overlap Studies", camel |-> "Ema", hint |-> "Exponential Moving Average", flags |-> 150994944,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 EXP |-> [group |-> "Math Transform", camel |-> "Exp", hint |-> "Vector Arithmetic Exp", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 FLOOR |-> [group |-> "Math Transform", camel |-> "Floor", hint |-> "Vector Floor", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 HT_DCPERIOD |-> [group |-> "Cycle Indicators", camel |-> "HtDcPeriod", hint |-> "Hilbert Transform - Dominant Cycle Period", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 HT_DCPHASE |-> [group |-> "Cycle Indicators", camel |-> "HtDcPhase", hint |-> "Hilbert Transform - Dominant Cycle Phase", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 HT_PHASOR |-> [group |-> "Cycle Indicators", camel |-> "HtPhasor", hint |-> "Hilbert Transform - Phasor Components", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outInPhase", t |-> 0, f |-> 1], [n |-> "outQuadrature", t |-> 0, f |-> 4]>>,
   opts |-> <<>>],
 HT_SINE |-> [group |-> "Cycle Indicators", camel |-> "HtSine", hint |-> "Hilbert Transform - SineWave", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outSine", t |-> 0, f |-> 1], [n |-> "outLeadSine", t |-> 0, f |-> 4]>>,
   opts |-> <<>>],
 HT_TRENDLINE |-> [group |-> "Overlap Studies", camel |-> "HtTrendline", hint |-> "Hilbert Transform - Instantaneous Trendline", flags |-> 150994944,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 HT_TRENDMODE |-> [group |-> "Cycle Indicators", camel |-> "HtTrendMode", hint |-> "Hilbert Transform - Trend vs Cycle Mode", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<>>],
 IMI |-> [group |-> "Momentum Indicators", camel |-> "Imi", hint |-> "Intraday Momentum Index", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceOC", t |-> 0, f |-> 9]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 KAMA |-> [group |-> "Overlap Studies", camel |-> "Kama", hint |-> "Kaufman Adaptive Moving Average", flags |-> 150994944,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 LINEARREG |-> [group |-> "Statistic Functions", camel |-> "LinearReg", hint |-> "Linear Regression", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 LINEARREG_ANGLE |-> [group |-> "Statistic Functions", camel |-> "LinearRegAngle", hint |-> "Linear Regression Angle", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 LINEARREG_INTERCEPT |-> [group |-> "Statistic Functions", camel |-> "LinearRegIntercept", hint |-> "Linear Regression Intercept", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 LINEARREG_SLOPE |-> [group |-> "Statistic Functions", camel |-> "LinearRegSlope", hint |-> "Linear Regression Slope", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 LN |-> [group |-> "Math Transform", camel |-> "Ln", hint |-> "Vector Log Natural", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 LOG10 |-> [group |-> "Math Transform", camel |-> "Log10", hint |-> "Vector Log10", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 MA |-> [group |-> "Overlap Studies", camel |-> "MovingAverage", hint |-> "Moving average", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>],
            [n |-> "optInMAType", t |-> 3, f |-> 0, disp |-> "MA Type", hint |-> "Type of Moving Average", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 MACD |-> [group |-> "Momentum Indicators", camel |-> "Macd", hint |-> "Moving Average Convergence/Divergence", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outMACD", t |-> 0, f |-> 1], [n |-> "outMACDSignal", t |-> 0, f |-> 4], [n |-> "outMACDHist", t |-> 0, f |-> 16]>>,
   opts |-> <<[n |-> "optInFastPeriod", t |-> 2, f |-> 0, disp |-> "Fast Period", hint |-> "Number of period for the fast MA", min |-> 2, max |-> 100000, def |-> 12, sug |-> <<4, 200, 1>>],
            [n |-> "optInSlowPeriod", t |-> 2, f |-> 0, disp |-> "Slow Period", hint |-> "Number of period for the slow MA", min |-> 2, max |-> 100000, def |-> 26, sug |-> <<4, 200, 1>>],
            [n |-> "optInSignalPeriod", t |-> 2, f |-> 0, disp |-> "Signal Period", hint |-> "Smoothing for the signal line (nb of period)", min |-> 1, max |-> 100000, def |-> 9, sug |-> <<1, 200, 1>>]>>],
 MACDEXT |-> [group |-> "Momentum Indicators", camel |-> "MacdExt", hint |-> "MACD with controllable MA type", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outMACD", t |-> 0, f |-> 1], [n |-> "outMACDSignal", t |-> 0, f |-> 4], [n |-> "outMACDHist", t |-> 0, f |-> 16]>>,
   opts |-> <<[n |-> "optInFastPeriod", t |-> 2, f |-> 0, disp |-> "Fast Period", hint |-> "Number of period for the fast MA", min |-> 2, max |-> 100000, def |-> 12, sug |-> <<4, 200, 1>>],
            [n |-> "optInFastMAType", t |-> 3, f |-> 0, disp |-> "Fast MA", hint |-> "Type of Moving Average for fast MA", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>],
            [n |-> "optInSlowPeriod", t |-> 2, f |-> 0, disp |-> "Slow Period", hint |-> "Number of period for the slow MA", min |-> 2, max |-> 100000, def |-> 26, sug |-> <<4, 200, 1>>],
            [n |-> "optInSlowMAType", t |-> 3, f |-> 0, disp |-> "Slow MA", hint |-> "Type of Moving Average for slow MA", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>],
            [n |-> "optInSignalPeriod", t |-> 2, f |-> 0, disp |-> "Signal Period", hint |-> "Smoothing for the signal line (nb of period)", min |-> 1, max |-> 100000, def |-> 9, sug |-> <<1, 200, 1>>],
            [n |-> "optInSignalMAType", t |-> 3, f |-> 0, disp |-> "Signal MA", hint |-> "Type of Moving Average for signal line", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 MACDFIX |-> [group |-> "Momentum Indicators", camel |-> "MacdFix", hint |-> "Moving Average Convergence/Divergence Fix 12/26", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outMACD", t |-> 0, f |-> 1], [n |-> "outMACDSignal", t |-> 0, f |-> 4], [n |-> "outMACDHist", t |-> 0, f |-> 16]>>,
   opts |-> <<[n |-> "optInSignalPeriod", t |-> 2, f |-> 0, disp |-> "Signal Period", hint |-> "Smoothing for the signal line (nb of period)", min |-> 1, max |-> 100000, def |-> 9, sug |-> <<1, 200, 1>>]>>],
 MAMA |-> [group |-> "Overlap Studies", camel |-> "Mama", hint |-> "MESA Adaptive Moving Average", flags |-> 150994944,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outMAMA", t |-> 0, f |-> 1], [n |-> "outFAMA", t |-> 0, f |-> 4]>>,
   opts |-> <<[n |-> "optInFastLimit", t |-> 0, f |-> 0, disp |-> "Fast Limit", hint |-> "Upper limit use in the adaptive algorithm", min |-> "0.01", max |-> "0.99", def |-> "0.5", prec |-> 2, sug |-> <<"0.21", "0.8", "0.01">>],
            [n |-> "optInSlowLimit", t |-> 0, f |-> 0, disp |-> "Slow Limit", hint |-> "Lower limit use in the adaptive algorithm", min |-> "0.01", max |-> "0.99", def |-> "0.05", prec |-> 2, sug |-> <<"0.01", "0.6", "0.01">>]>>],
 MAVP |-> [group |-> "Overlap Studies", camel |-> "MovingAverageVariablePeriod", hint |-> "Moving average with variable period", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0], [n |-> "inPeriods", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInMinPeriod", t |-> 2, f |-> 0, disp |-> "Minimum Period", hint |-> "Value less than minimum will be changed to Minimum period", min |-> 2, max |-> 100000, def |-> 2, sug |-> <<4, 200, 1>>],
            [n |-> "optInMaxPeriod", t |-> 2, f |-> 0, disp |-> "Maximum Period", hint |-> "Value higher than maximum will be changed to Maximum period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>],
            [n |-> "optInMAType", t |-> 3, f |-> 0, disp |-> "MA Type", hint |-> "Type of Moving Average", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 MAX |-> [group |-> "Math Operators", camel |-> "Max", hint |-> "Highest value over a specified period", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>]>>],
 MAXINDEX |-> [group |-> "Math Operators", camel |-> "MaxIndex", hint |-> "Index of highest value over a specified period", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>]>>],
 MEDPRICE |-> [group |-> "Price Transform", camel |-> "MedPrice", hint |-> "Median Price", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 MFI |-> [group |-> "Momentum Indicators", camel |-> "Mfi", hint |-> "Money Flow Index", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLCV", t |-> 0, f |-> 30]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 MIDPOINT |-> [group |-> "Overlap Studies", camel |-> "MidPoint", hint |-> "MidPoint over period", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 MIDPRICE |-> [group |-> "Overlap Studies", camel |-> "MidPrice", hint |-> "Midpoint Price over period", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 MIN |-> [group |-> "Math Operators", camel |-> "Min", hint |-> "Lowest value over a specified period", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>]>>],
 MININDEX |-> [group |-> "Math Operators", camel |-> "MinIndex", hint |-> "Index of lowest value over a specified period", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outInteger", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>]>>],
 MINMAX |-> [group |-> "Math Operators", camel |-> "MinMax", hint |-> "Lowest and highest values over a specified period", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outMin", t |-> 0, f |-> 1], [n |-> "outMax", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>]>>],
 MINMAXINDEX |-> [group |-> "Math Operators", camel |-> "MinMaxIndex", hint |-> "Indexes of lowest and highest values over a specified period", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outMinIdx", t |-> 1, f |-> 1], [n |-> "outMaxIdx", t |-> 1, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>]>>],
 MINUS_DI |-> [group |-> "Momentum Indicators", camel |-> "MinusDI", hint |-> "Minus Directional Indicator", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 14, sug |-> <<1, 200, 1>>]>>],
 MINUS_DM |-> [group |-> "Momentum Indicators", camel |-> "MinusDM", hint |-> "Minus Directional Movement", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 14, sug |-> <<1, 200, 1>>]>>],
 MOM |-> [group |-> "Momentum Indicators", camel |-> "Mom", hint |-> "Momentum", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 10, sug |-> <<1, 200, 1>>]>>],
 MULT |-> [group |-> "Math Operators", camel |-> "Mult", hint |-> "Vector Arithmetic Mult", flags |-> 0,
   ins |-> <<[n |-> "inReal0", t |-> 1, f |-> 0], [n |-> "inReal1", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 NATR |-> [group |-> "Volatility Indicators", camel |-> "Natr", hint |-> "Normalized Average True Range", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 14, sug |-> <<1, 200, 1>>]>>],
 NVI |-> [group |-> "Volume Indicators", camel |-> "Nvi", hint |-> "Negative Volume Index", flags |-> 0,
   ins |-> <<[n |-> "inPriceCV", t |-> 0, f |-> 24]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 OBV |-> [group |-> "Volume Indicators", camel |-> "Obv", hint |-> "On Balance Volume", flags |-> 0,
   ins |-> <<[n |-> "inPriceCV", t |-> 0, f |-> 24]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 PLUS_DI |-> [group |-> "Momentum Indicators", camel |-> "PlusDI", hint |-> "Plus Directional Indicator", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 14, sug |-> <<1, 200, 1>>]>>],
 PLUS_DM |-> [group |-> "Momentum Indicators", camel |-> "PlusDM", hint |-> "Plus Directional Movement", flags |-> 134217728,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 14, sug |-> <<1, 200, 1>>]>>],
 PPO |-> [group |-> "Momentum Indicators", camel |-> "Ppo", hint |-> "Percentage Price Oscillator", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInFastPeriod", t |-> 2, f |-> 0, disp |-> "Fast Period", hint |-> "Number of period for the fast MA", min |-> 2, max |-> 100000, def |-> 12, sug |-> <<4, 200, 1>>],
            [n |-> "optInSlowPeriod", t |-> 2, f |-> 0, disp |-> "Slow Period", hint |-> "Number of period for the slow MA", min |-> 2, max |-> 100000, def |-> 26, sug |-> <<4, 200, 1>>],
            [n |-> "optInMAType", t |-> 3, f |-> 0, disp |-> "MA Type", hint |-> "Type of Moving Average", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 PVI |-> [group |-> "Volume Indicators", camel |-> "Pvi", hint |-> "Positive Volume Index", flags |-> 0,
   ins |-> <<[n |-> "inPriceCV", t |-> 0, f |-> 24]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 PVT |-> [group |-> "Volume Indicators", camel |-> "Pvt", hint |-> "Price Volume Trend", flags |-> 0,
   ins |-> <<[n |-> "inPriceCV", t |-> 0, f |-> 24]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 ROC |-> [group |-> "Momentum Indicators", camel |-> "Roc", hint |-> "Rate of change : ((price/prevPrice)-1)*100", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 10, sug |-> <<1, 200, 1>>]>>],
 ROCP |-> [group |-> "Momentum Indicators", camel |-> "RocP", hint |-> "Rate of change Percentage: (price-prevPrice)/prevPrice", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 10, sug |-> <<1, 200, 1>>]>>],
 ROCR |-> [group |-> "Momentum Indicators", camel |-> "RocR", hint |-> "Rate of change ratio: (price/prevPrice)", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 10, sug |-> <<1, 200, 1>>]>>],
 ROCR100 |-> [group |-> "Momentum Indicators", camel |-> "RocR100", hint |-> "Rate of change ratio 100 scale: (price/prevPrice)*100", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 10, sug |-> <<1, 200, 1>>]>>],
 RSI |-> [group |-> "Momentum Indicators", camel |-> "Rsi", hint |-> "Relative Strength Index", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 SAR |-> [group |-> "Overlap Studies", camel |-> "Sar", hint |-> "Parabolic SAR", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInAcceleration", t |-> 0, f |-> 0, disp |-> "Acceleration Factor", hint |-> "Acceleration Factor used up to the Maximum value", min |-> "0.0", max |-> "3e37", def |-> "0.02", prec |-> 4, sug |-> <<"0.01", "0.2", "0.01">>],
            [n |-> "optInMaximum", t |-> 0, f |-> 0, disp |-> "AF Maximum", hint |-> "Acceleration Factor Maximum value", min |-> "0.0", max |-> "3e37", def |-> "0.2", prec |-> 4, sug |-> <<"0.2", "0.4", "0.01">>]>>],
 SAREXT |-> [group |-> "Overlap Studies", camel |-> "SarExt", hint |-> "Parabolic SAR - Extended", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceHL", t |-> 0, f |-> 6]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInStartValue", t |-> 0, f |-> 0, disp |-> "Start Value", hint |-> "Start value and direction. 0 for Auto, >0 for Long, <0 for Short", min |-> "-3e37", max |-> "3e37", def |-> "0.0", prec |-> 4, sug |-> <<"0.0", "0.0", "0.0">>],
            [n |-> "optInOffsetOnReverse", t |-> 0, f |-> 0, disp |-> "Offset on Reverse", hint |-> "Percent offset added/removed to initial stop on short/long reversal", min |-> "0.0", max |-> "3e37", def |-> "0.0", prec |-> 4, sug |-> <<"0.01", "0.15", "0.01">>],
            [n |-> "optInAccelerationInitLong", t |-> 0, f |-> 0, disp |-> "AF Init Long", hint |-> "Acceleration Factor initial value for the Long direction", min |-> "0.0", max |-> "3e37", def |-> "0.02", prec |-> 4, sug |-> <<"0.01", "0.19", "0.01">>],
            [n |-> "optInAccelerationLong", t |-> 0, f |-> 0, disp |-> "AF Long", hint |-> "Acceleration Factor for the Long direction", min |-> "0.0", max |-> "3e37", def |-> "0.02", prec |-> 4, sug |-> <<"0.01", "0.2", "0.01">>],
            [n |-> "optInAccelerationMaxLong", t |-> 0, f |-> 0, disp |-> "AF Max Long", hint |-> "Acceleration Factor maximum value for the Long direction", min |-> "0.0", max |-> "3e37", def |-> "0.2", prec |-> 4, sug |-> <<"0.2", "0.4", "0.01">>],
            [n |-> "optInAccelerationInitShort", t |-> 0, f |-> 0, disp |-> "AF Init Short", hint |-> "Acceleration Factor initial value for the Short direction", min |-> "0.0", max |-> "3e37", def |-> "0.02", prec |-> 4, sug |-> <<"0.01", "0.19", "0.01">>],
            [n |-> "optInAccelerationShort", t |-> 0, f |-> 0, disp |-> "AF Short", hint |-> "Acceleration Factor for the Short direction", min |-> "0.0", max |-> "3e37", def |-> "0.02", prec |-> 4, sug |-> <<"0.01", "0.2", "0.01">>],
            [n |-> "optInAccelerationMaxShort", t |-> 0, f |-> 0, disp |-> "AF Max Short", hint |-> "Acceleration Factor maximum value for the Short direction", min |-> "0.0", max |-> "3e37", def |-> "0.2", prec |-> 4, sug |-> <<"0.2", "0.4", "0.01">>]>>],
 SIN |-> [group |-> "Math Transform", camel |-> "Sin", hint |-> "Vector Trigonometric Sin", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 SINH |-> [group |-> "Math Transform", camel |-> "Sinh", hint |-> "Vector Trigonometric Sinh", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 SMA |-> [group |-> "Overlap Studies", camel |-> "Sma", hint |-> "Simple Moving Average", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 SQRT |-> [group |-> "Math Transform", camel |-> "Sqrt", hint |-> "Vector Square Root", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 STDDEV |-> [group |-> "Statistic Functions", camel |-> "StdDev", hint |-> "Standard Deviation", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 5, sug |-> <<4, 200, 1>>],
            [n |-> "optInNbDev", t |-> 0, f |-> 0, disp |-> "Deviations", hint |-> "Nb of deviations", min |-> "-3e37", max |-> "3e37", def |-> "1.0", prec |-> 2, sug |-> <<"-2.0", "2.0", "0.2">>]>>],
 STOCH |-> [group |-> "Momentum Indicators", camel |-> "Stoch", hint |-> "Stochastic", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outSlowK", t |-> 0, f |-> 4], [n |-> "outSlowD", t |-> 0, f |-> 4]>>,
   opts |-> <<[n |-> "optInFastK_Period", t |-> 2, f |-> 0, disp |-> "Fast-K Period", hint |-> "Time period for building the Fast-K line", min |-> 1, max |-> 100000, def |-> 5, sug |-> <<1, 200, 1>>],
            [n |-> "optInSlowK_Period", t |-> 2, f |-> 0, disp |-> "Slow-K Period", hint |-> "Smoothing for making the Slow-K line. Usually set to 3", min |-> 1, max |-> 100000, def |-> 3, sug |-> <<1, 200, 1>>],
            [n |-> "optInSlowK_MAType", t |-> 3, f |-> 0, disp |-> "Slow-K MA", hint |-> "Type of Moving Average for Slow-K", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>],
            [n |-> "optInSlowD_Period", t |-> 2, f |-> 0, disp |-> "Slow-D Period", hint |-> "Smoothing for making the Slow-D line", min |-> 1, max |-> 100000, def |-> 3, sug |-> <<1, 200, 1>>],
            [n |-> "optInSlowD_MAType", t |-> 3, f |-> 0, disp |-> "Slow-D MA", hint |-> "Type of Moving Average for Slow-D", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 STOCHF |-> [group |-> "Momentum Indicators", camel |-> "StochF", hint |-> "Stochastic Fast", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outFastK", t |-> 0, f |-> 1], [n |-> "outFastD", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInFastK_Period", t |-> 2, f |-> 0, disp |-> "Fast-K Period", hint |-> "Time period for building the Fast-K line", min |-> 1, max |-> 100000, def |-> 5, sug |-> <<1, 200, 1>>],
            [n |-> "optInFastD_Period", t |-> 2, f |-> 0, disp |-> "Fast-D Period", hint |-> "Smoothing for making the Fast-D line. Usually set to 3", min |-> 1, max |-> 100000, def |-> 3, sug |-> <<1, 200, 1>>],
            [n |-> "optInFastD_MAType", t |-> 3, f |-> 0, disp |-> "Fast-D MA", hint |-> "Type of Moving Average for Fast-D", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 STOCHRSI |-> [group |-> "Momentum Indicators", camel |-> "StochRsi", hint |-> "Stochastic Relative Strength Index", flags |-> 134217728,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outFastK", t |-> 0, f |-> 1], [n |-> "outFastD", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>],
            [n |-> "optInFastK_Period", t |-> 2, f |-> 0, disp |-> "Fast-K Period", hint |-> "Time period for building the Fast-K line", min |-> 1, max |-> 100000, def |-> 5, sug |-> <<1, 200, 1>>],
            [n |-> "optInFastD_Period", t |-> 2, f |-> 0, disp |-> "Fast-D Period", hint |-> "Smoothing for making the Fast-D line. Usually set to 3", min |-> 1, max |-> 100000, def |-> 3, sug |-> <<1, 200, 1>>],
            [n |-> "optInFastD_MAType", t |-> 3, f |-> 0, disp |-> "Fast-D MA", hint |-> "Type of Moving Average for Fast-D", min |-> 0, max |-> 9, def |-> 0, list |-> <<<<0, "SMA">>, <<1, "EMA">>, <<2, "WMA">>, <<3, "DEMA">>, <<4, "TEMA">>, <<5, "TRIMA">>, <<6, "KAMA">>, <<7, "MAMA">>, <<8, "T3">>, <<9, "WLMA">>>>]>>],
 SUB |-> [group |-> "Math Operators", camel |-> "Sub", hint |-> "Vector Arithmetic Substraction", flags |-> 0,
   ins |-> <<[n |-> "inReal0", t |-> 1, f |-> 0], [n |-> "inReal1", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 SUM |-> [group |-> "Math Operators", camel |-> "Sum", hint |-> "Summation", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 30, sug |-> <<4, 200, 1>>]>>],
 T3 |-> [group |-> "Overlap Studies", camel |-> "T3", hint |-> "Triple Exponential Moving Average (T3)", flags |-> 150994944,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 5, sug |-> <<1, 200, 1>>],
            [n |-> "optInVFactor", t |-> 0, f |-> 0, disp |-> "Volume Factor", hint |-> "Volume Factor", min |-> "0.0", max |-> "1.0", def |-> "0.7", prec |-> 2, sug |-> <<"0.01", "1.0", "0.05">>]>>],
 TAN |-> [group |-> "Math Transform", camel |-> "Tan", hint |-> "Vector Trigonometric Tan", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 TANH |-> [group |-> "Math Transform", camel |-> "Tanh", hint |-> "Vector Trigonometric Tanh", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 TEMA |-> [group |-> "Overlap Studies", camel |-> "Tema", hint |-> "Triple Exponential Moving Average", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 TRANGE |-> [group |-> "Volatility Indicators", camel |-> "TrueRange", hint |-> "True Range", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 TRIMA |-> [group |-> "Overlap Studies", camel |-> "Trima", hint |-> "Triangular Moving Average", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 TRIX |-> [group |-> "Momentum Indicators", camel |-> "Trix", hint |-> "1-day Rate-Of-Change (ROC) of a Triple Smooth EMA", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 TSF |-> [group |-> "Statistic Functions", camel |-> "Tsf", hint |-> "Time Series Forecast", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 TYPPRICE |-> [group |-> "Price Transform", camel |-> "TypPrice", hint |-> "Typical Price", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 ULTOSC |-> [group |-> "Momentum Indicators", camel |-> "UltOsc", hint |-> "Ultimate Oscillator", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod1", t |-> 2, f |-> 0, disp |-> "First Period", hint |-> "Number of bars for 1st period.", min |-> 1, max |-> 100000, def |-> 7, sug |-> <<1, 200, 1>>],
            [n |-> "optInTimePeriod2", t |-> 2, f |-> 0, disp |-> "Second Period", hint |-> "Number of bars fro 2nd period", min |-> 1, max |-> 100000, def |-> 14, sug |-> <<1, 200, 1>>],
            [n |-> "optInTimePeriod3", t |-> 2, f |-> 0, disp |-> "Third Period", hint |-> "Number of bars for 3rd period", min |-> 1, max |-> 100000, def |-> 28, sug |-> <<1, 200, 1>>]>>],
 VAR |-> [group |-> "Statistic Functions", camel |-> "Variance", hint |-> "Variance", flags |-> 0,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 5, sug |-> <<1, 200, 1>>],
            [n |-> "optInNbDev", t |-> 0, f |-> 0, disp |-> "Deviations", hint |-> "Nb of deviations", min |-> "-3e37", max |-> "3e37", def |-> "1.0", prec |-> 2, sug |-> <<"-2.0", "2.0", "0.2">>]>>],
 WCLPRICE |-> [group |-> "Price Transform", camel |-> "WclPrice", hint |-> "Weighted Close Price", flags |-> 16777216,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<>>],
 WILLR |-> [group |-> "Momentum Indicators", camel |-> "WillR", hint |-> "Williams' %R", flags |-> 0,
   ins |-> <<[n |-> "inPriceHLC", t |-> 0, f |-> 14]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 2, max |-> 100000, def |-> 14, sug |-> <<4, 200, 1>>]>>],
 WLMA |-> [group |-> "Overlap Studies", camel |-> "Wlma", hint |-> "Wilders Moving Average", flags |-> 150994944,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>],
 WMA |-> [group |-> "Overlap Studies", camel |-> "Wma", hint |-> "Weighted Moving Average", flags |-> 16777216,
   ins |-> <<[n |-> "inReal", t |-> 1, f |-> 0]>>,
   outs |-> <<[n |-> "outReal", t |-> 0, f |-> 1]>>,
   opts |-> <<[n |-> "optInTimePeriod", t |-> 2, f |-> 0, disp |-> "Time Period", hint |-> "Number of period", min |-> 1, max |-> 100000, def |-> 30, sug |-> <<1, 200, 1>>]>>]
]

Funcs == {FuncNames[i] : i \in 1..Len(FuncNames)}
NOpt(f) == Len(Cat[f].opts)
NOut(f) == Len(Cat[f].outs)
OptIsReal(f, k) == Cat[f].opts[k].t \in {0, 1}
IsCandle(f) == Cat[f].group = "Pattern Recognition"

(* Number of series of a function: a price input stands for one series per
   flag, in the order open, high, low, close, volume. *)
Bit(n, b) == (n \div b) % 2
SeriesOf(in) == IF in.t = 0
                THEN Bit(in.f,1) + Bit(in.f,2) + Bit(in.f,4) + Bit(in.f,8) + Bit(in.f,16)
                ELSE 1
RECURSIVE NSeriesFrom(_, _)
NSeriesFrom(ins, k) == IF k > Len(ins) THEN 0
                       ELSE SeriesOf(ins[k]) + NSeriesFrom(ins, k+1)
NSeries(f) == NSeriesFrom(Cat[f].ins, 1)
=============================================================================
