------------------------------ MODULE Candles ------------------------------
(***************************************************************************)
(* What the 61 candlestick functions report.                               *)
(*                                                                         *)
(* Allowed(f, i) is the set of outputs f may give for bar i (bars are      *)
(* counted from 0).  It has one element except where a comparison with an  *)
(* average is closer than the rounding of that average: then the answer    *)
(* is up to the order of the additions, and both are allowed.              *)
(*                                                                         *)
(* Comparisons are therefore three-valued: 0 no, 1 yes, 2 undecided.  A    *)
(* quantity is a pair <<value, exact>>: prices are exact, and so is what   *)
(* is computed from numbers short enough for the result not to be rounded; *)
(* exact quantities always compare decidedly, also when they are equal.    *)
(***************************************************************************)
EXTENDS Flt

CONSTANTS
  O, H, L, C,     \* the columns of a series
  cs,             \* candle settings, by name
  pen             \* optional parameter "penetration"

(* Three-valued logic -------------------------------------------------------*)
a && b == IF a = 0 THEN 0 ELSE LET c == b IN IF c = 0 THEN 0 ELSE IF a = 1 THEN c ELSE 2
a || b == IF a = 1 THEN 1 ELSE LET c == b IN IF c = 1 THEN 1 ELSE IF a = 0 THEN c ELSE 2
Is(p)  == IF p THEN 1 ELSE 0

(* Quantities ----------------------------------------------------------------*)
Raw(x)   == <<x, TRUE>>
Short(x) == Single(x) = x
Inexact(v, a, b) == <<v, a[2] /\ b[2] /\ Short(a[1]) /\ Short(b[1]) /\ Short(v)>>
a \oplus b  == Inexact(Add(a[1], b[1]), a, b)
a \ominus b == Inexact(Sub(a[1], b[1]), a, b)
a \otimes b == Inexact(Mul(a[1], b[1]), a, b)
Half(a)  == <<Mul(a[1], Lit("0.5")), a[2]>>
Dist(a, b) == Inexact(Abs(Sub(a[1], b[1])), a, b)
Max2(a, b) == IF Gt(b[1], a[1]) THEN b ELSE a
Min2(a, b) == IF Lt(b[1], a[1]) THEN b ELSE a
\* digits to which quantities have to differ for a comparison to be decided
Tie == 9
Sign(a, b) == IF a[2] /\ b[2] THEN IF Lt(a[1], b[1]) THEN -1 ELSE IF Eq(a[1], b[1]) THEN 0 ELSE 1
              ELSE IF Near(a[1], b[1], Tie) THEN 2
              ELSE IF Lt(a[1], b[1]) THEN -1 ELSE 1
Cond(s, p) == IF s = 2 THEN 2 ELSE Is(p)
a \prec b   == LET s == Sign(a, b) IN Cond(s, s = -1)
a \preceq b == LET s == Sign(a, b) IN Cond(s, s <= 0)
a \succ b   == LET s == Sign(a, b) IN Cond(s, s = 1)
a \succeq b == LET s == Sign(a, b) IN Cond(s, s >= 0)

(* Candles ---------------------------------------------------------------------*)
Op(i) == Raw(O[i+1])
Hi(i) == Raw(H[i+1])
Lo(i) == Raw(L[i+1])
Cl(i) == Raw(C[i+1])
Color(i) == IF Ge(C[i+1], O[i+1]) THEN 1 ELSE -1         \* 1 white, -1 black
White(i) == Is(Color(i) = 1)
Black(i) == Is(Color(i) = -1)
Top(i)    == Max2(Op(i), Cl(i))      \* of the real body
Bottom(i) == Min2(Op(i), Cl(i))
Body(i)   == Dist(Cl(i), Op(i))
Upper(i)  == Hi(i) \ominus Top(i)    \* shadows
Lower(i)  == Bottom(i) \ominus Lo(i)
Range(i)  == Hi(i) \ominus Lo(i)
BodyGapUp(i, j)   == Bottom(i) \succ Top(j)
BodyGapDown(i, j) == Top(i) \prec Bottom(j)
GapUp(i, j)       == Lo(i) \succ Hi(j)
GapDown(i, j)     == Hi(i) \prec Lo(j)
Within(x, lo, hi) == (x \succeq lo) && (x \preceq hi)

(* The average a setting prescribes for bar i: of the bars before it, or of *)
(* the bar itself when the setting averages over no bar.                    *)
RangeOf(rt, i) == CASE rt = 0 -> Body(i) [] rt = 1 -> Range(i) [] rt = 2 -> Upper(i) \oplus Lower(i)
RECURSIVE RangeSum(_, _, _)
RangeSum(rt, i, n) == IF n = 1 THEN RangeOf(rt, i) ELSE RangeSum(rt, i-1, n-1) \oplus RangeOf(rt, i)
Avg(name, i) ==
  LET s == cs[name]
      r == IF s.ap = 0 THEN RangeOf(s.rt, i)
           ELSE LET t == RangeSum(s.rt, i-1, s.ap)  v == Div(t[1], OfInt(s.ap)) IN
                <<v, t[2] /\ s.ap \in {1, 2, 4, 8, 16, 32} /\ Short(v)>>
      p == Raw(s.fac) \otimes r
  IN IF s.rt = 2 THEN Half(p) ELSE p

Long(i)      == Body(i) \succ Avg("BodyLong", i)
Small(i)     == Body(i) \prec Avg("BodyShort", i)
NotLonger(i) == Body(i) \preceq Avg("BodyShort", i)
NotShort(i)  == Body(i) \succ Avg("BodyShort", i)
Doji(i)      == Body(i) \preceq Avg("BodyDoji", i)
NoUpper(i)   == Upper(i) \prec Avg("ShadowVeryShort", i)     \* very short
NoLower(i)   == Lower(i) \prec Avg("ShadowVeryShort", i)
HasUpper(i)  == Upper(i) \succ Avg("ShadowVeryShort", i)
HasLower(i)  == Lower(i) \succ Avg("ShadowVeryShort", i)
ShortUpper(i) == Upper(i) \prec Avg("ShadowShort", i)
ShortLower(i) == Lower(i) \prec Avg("ShadowShort", i)
LongUpper(i) == Upper(i) \succ Avg("ShadowLong", i)
LongLower(i) == Lower(i) \succ Avg("ShadowLong", i)
\* x is the value y to within "equal", or "near" (as of bar j)
Same(x, y, name, j) == Within(x, y \ominus Avg(name, j), y \oplus Avg(name, j))
Penetration == Raw(pen)
\* closes well within the body of the white (black) candle j
DeepBelow(i, j, p) == Cl(i) \prec (Cl(j) \ominus (Body(j) \otimes p))
DeepAbove(i, j, p) == Cl(i) \succ (Cl(j) \oplus (Body(j) \otimes p))
OpensInside(i, j, name) == (Op(i) \succ Op(j)) && (Op(i) \preceq (Cl(j) \oplus Avg(name, j)))
Opposite(i, j) == Is(Color(i) = -Color(j))
Alike(i, j)    == Is(Color(i) = Color(j))

(* Patterns ------------------------------------------------------------------*)
\* reports v when p holds
When(p, v) == IF p = 1 THEN {v} ELSE IF p = 0 THEN {0} ELSE {0, v}
\* when p holds what q says, else nothing
Given(p, q) == IF p = 0 THEN {0} ELSE IF p = 1 THEN q ELSE {0} \cup q
\* reports v when p holds, else what q says
Else(p, v, q) == IF p = 1 THEN {v} ELSE IF p = 0 THEN q ELSE {v} \cup q
Bull(p) == When(p, 100)
Bear(p) == When(p, -100)
Of(i, p) == When(p, 100 * Color(i))          \* in the sense of the colour of candle i

TwoCrows(i) == Bear(White(i-2) && Long(i-2) && Black(i-1) && BodyGapUp(i-1, i-2) && Black(i)
  && (Op(i) \prec Op(i-1)) && (Op(i) \succ Cl(i-1)) && (Cl(i) \succ Op(i-2)) && (Cl(i) \prec Cl(i-2)))
ThreeBlackCrows(i) == Bear(White(i-3) && Black(i-2) && NoLower(i-2) && Black(i-1) && NoLower(i-1)
  && Black(i) && NoLower(i)
  && (Op(i-1) \prec Op(i-2)) && (Op(i-1) \succ Cl(i-2)) && (Op(i) \prec Op(i-1)) && (Op(i) \succ Cl(i-1))
  && (Hi(i-3) \succ Cl(i-2)) && (Cl(i-2) \succ Cl(i-1)) && (Cl(i-1) \succ Cl(i)))
ThreeInside(i) == When(Long(i-2) && NotLonger(i-1) && (Top(i-1) \prec Top(i-2)) && (Bottom(i-1) \succ Bottom(i-2))
  && (   (White(i-2) && Black(i) && (Cl(i) \prec Op(i-2)))
      || (Black(i-2) && White(i) && (Cl(i) \succ Op(i-2)))), -100 * Color(i-2))
ThreeLineStrike(i) ==
  LET opens(j) == Within(Op(j), Bottom(j-1) \ominus Avg("Near", j-1), Top(j-1) \oplus Avg("Near", j-1))
  IN Of(i-1, Alike(i-3, i-2) && Alike(i-2, i-1) && Opposite(i, i-1) && opens(i-2) && opens(i-1)
       && (   (White(i-1) && (Cl(i-1) \succ Cl(i-2)) && (Cl(i-2) \succ Cl(i-3)) && (Op(i) \succ Cl(i-1)) && (Cl(i) \prec Op(i-3)))
           || (Black(i-1) && (Cl(i-1) \prec Cl(i-2)) && (Cl(i-2) \prec Cl(i-3)) && (Op(i) \prec Cl(i-1)) && (Cl(i) \succ Op(i-3)))))
ThreeOutside(i) == Of(i-1,
     (White(i-1) && Black(i-2) && (Cl(i-1) \succ Op(i-2)) && (Op(i-1) \prec Cl(i-2)) && (Cl(i) \succ Cl(i-1)))
  || (Black(i-1) && White(i-2) && (Op(i-1) \succ Cl(i-2)) && (Cl(i-1) \prec Op(i-2)) && (Cl(i) \prec Cl(i-1))))
ThreeStarsInSouth(i) == Bull(Black(i-2) && Black(i-1) && Black(i) && Long(i-2) && LongLower(i-2)
  && (Body(i-1) \prec Body(i-2)) && (Op(i-1) \succ Cl(i-2)) && (Op(i-1) \preceq Hi(i-2))
  && (Lo(i-1) \prec Cl(i-2)) && (Lo(i-1) \succeq Lo(i-2)) && HasLower(i-1)
  && Small(i) && NoLower(i) && NoUpper(i) && (Lo(i) \succ Lo(i-1)) && (Hi(i) \prec Hi(i-1)))
ThreeWhiteSoldiers(i) ==
  LET notFarShorter(j) == Body(j) \succ (Body(j-1) \ominus Avg("Far", j-1))
  IN Bull(White(i-2) && NoUpper(i-2) && White(i-1) && NoUpper(i-1) && White(i) && NoUpper(i)
       && (Cl(i) \succ Cl(i-1)) && (Cl(i-1) \succ Cl(i-2)) && OpensInside(i-1, i-2, "Near") && OpensInside(i, i-1, "Near")
       && notFarShorter(i-1) && notFarShorter(i) && NotShort(i))
AbandonedBaby(i) == Of(i, Long(i-2) && Doji(i-1) && NotShort(i)
  && (   (White(i-2) && Black(i) && DeepBelow(i, i-2, Penetration) && GapUp(i-1, i-2) && GapDown(i, i-1))
      || (Black(i-2) && White(i) && DeepAbove(i, i-2, Penetration) && GapDown(i-1, i-2) && GapUp(i, i-1))))
AdvanceBlock(i) ==
  LET farShorter(j) == Body(j) \prec (Body(j-1) \ominus Avg("Far", j-1))
      notShortUpper(j) == Upper(j) \succ Avg("ShadowShort", j)
  IN Bear(White(i-2) && White(i-1) && White(i) && (Cl(i) \succ Cl(i-1)) && (Cl(i-1) \succ Cl(i-2))
       && OpensInside(i-1, i-2, "Near") && OpensInside(i, i-1, "Near") && Long(i-2) && ShortUpper(i-2)
       && (   (farShorter(i-1) && (Body(i) \prec (Body(i-1) \oplus Avg("Near", i-1))))
           || farShorter(i)
           || ((Body(i) \prec Body(i-1)) && (Body(i-1) \prec Body(i-2)) && (notShortUpper(i) || notShortUpper(i-1)))
           || ((Body(i) \prec Body(i-1)) && LongUpper(i))))
BeltHold(i) == Of(i, Long(i) && ((White(i) && NoLower(i)) || (Black(i) && NoUpper(i))))
Breakaway(i) == Of(i, Long(i-4) && Alike(i-4, i-3) && Alike(i-3, i-1) && Opposite(i-1, i)
  && (   (Black(i-4) && BodyGapDown(i-3, i-4) && (Hi(i-2) \prec Hi(i-3)) && (Lo(i-2) \prec Lo(i-3))
          && (Hi(i-1) \prec Hi(i-2)) && (Lo(i-1) \prec Lo(i-2)) && (Cl(i) \succ Op(i-3)) && (Cl(i) \prec Cl(i-4)))
      || (White(i-4) && BodyGapUp(i-3, i-4) && (Hi(i-2) \succ Hi(i-3)) && (Lo(i-2) \succ Lo(i-3))
          && (Hi(i-1) \succ Hi(i-2)) && (Lo(i-1) \succ Lo(i-2)) && (Cl(i) \prec Op(i-3)) && (Cl(i) \succ Cl(i-4)))))
ClosingMarubozu(i) == Of(i, Long(i) && ((White(i) && NoUpper(i)) || (Black(i) && NoLower(i))))
ConcealBabySwallow(i) == Bull(Black(i-3) && Black(i-2) && Black(i-1) && Black(i)
  && NoLower(i-3) && NoUpper(i-3) && NoLower(i-2) && NoUpper(i-2) && BodyGapDown(i-1, i-2) && HasUpper(i-1)
  && (Hi(i-1) \succ Cl(i-2)) && (Hi(i) \succ Hi(i-1)) && (Lo(i) \prec Lo(i-1)))
Counterattack(i) == Of(i, Opposite(i-1, i) && Long(i-1) && Long(i) && Same(Cl(i), Cl(i-1), "Equal", i-1))
DarkCloudCover(i) == Bear(White(i-1) && Long(i-1) && Black(i) && (Op(i) \succ Hi(i-1)) && (Cl(i) \succ Op(i-1))
  && DeepBelow(i, i-1, Penetration))
DojiStar(i) == When(Long(i-1) && Doji(i)
  && ((White(i-1) && BodyGapUp(i, i-1)) || (Black(i-1) && BodyGapDown(i, i-1))), -100 * Color(i-1))
DragonflyDoji(i) == Bull(Doji(i) && NoUpper(i) && HasLower(i))
Engulfing(i) ==
  LET strict == ~Eq(O[i+1], C[i]) /\ ~Eq(C[i+1], O[i])     \* neither end matches
      around == \/ Color(i) = 1 /\ Color(i-1) = -1
                   /\ (Ge(C[i+1], O[i]) /\ Le(O[i+1], C[i]) /\ (Lt(O[i+1], C[i]) \/ Gt(C[i+1], O[i])))
                \/ Color(i) = -1 /\ Color(i-1) = 1
                   /\ (Ge(O[i+1], C[i]) /\ Le(C[i+1], O[i]) /\ (Lt(C[i+1], O[i]) \/ Gt(O[i+1], C[i])))
  IN {IF around THEN Color(i) * (IF strict THEN 100 ELSE 80) ELSE 0}
EveningDojiStar(i) == Bear(Long(i-2) && White(i-2) && Doji(i-1) && BodyGapUp(i-1, i-2) && NotShort(i) && Black(i)
  && DeepBelow(i, i-2, Penetration))
EveningStar(i) == Bear(Long(i-2) && White(i-2) && NotLonger(i-1) && BodyGapUp(i-1, i-2) && NotShort(i) && Black(i)
  && DeepBelow(i, i-2, Penetration))
MorningDojiStar(i) == Bull(Long(i-2) && Black(i-2) && Doji(i-1) && BodyGapDown(i-1, i-2) && NotShort(i) && White(i)
  && DeepAbove(i, i-2, Penetration))
MorningStar(i) == Bull(Long(i-2) && Black(i-2) && NotLonger(i-1) && BodyGapDown(i-1, i-2) && NotShort(i) && White(i)
  && DeepAbove(i, i-2, Penetration))
GapSideSideWhite(i) == When(((BodyGapUp(i-1, i-2) && BodyGapUp(i, i-2)) || (BodyGapDown(i-1, i-2) && BodyGapDown(i, i-2)))
  && White(i-1) && White(i) && Same(Body(i), Body(i-1), "Near", i-1) && Same(Op(i), Op(i-1), "Equal", i-1),
  IF BodyGapUp(i-1, i-2) = 1 THEN 100 ELSE -100)
GravestoneDoji(i) == Bull(Doji(i) && NoLower(i) && HasUpper(i))
Hammer(i)     == Bull(Small(i) && LongLower(i) && NoUpper(i) && (Bottom(i) \preceq (Lo(i-1) \oplus Avg("Near", i-1))))
HangingMan(i) == Bear(Small(i) && LongLower(i) && NoUpper(i) && (Bottom(i) \succeq (Hi(i-1) \ominus Avg("Near", i-1))))
Inside(i, p) == Given(Long(i-1) && p,
  Else((Top(i) \prec Top(i-1)) && (Bottom(i) \succ Bottom(i-1)), -100 * Color(i-1),
       When((Top(i) \preceq Top(i-1)) && (Bottom(i) \succeq Bottom(i-1)), -80 * Color(i-1))))
Harami(i)      == Inside(i, NotLonger(i))
HaramiCross(i) == Inside(i, Doji(i))
HighWave(i) == Of(i, Small(i) && (Upper(i) \succ Avg("ShadowVeryLong", i)) && (Lower(i) \succ Avg("ShadowVeryLong", i)))
HomingPigeon(i) == Bull(Black(i-1) && Black(i) && Long(i-1) && NotLonger(i) && (Op(i) \prec Op(i-1)) && (Cl(i) \succ Cl(i-1)))
Identical3Crows(i) == Bear(Black(i-2) && NoLower(i-2) && Black(i-1) && NoLower(i-1) && Black(i) && NoLower(i)
  && (Cl(i-2) \succ Cl(i-1)) && (Cl(i-1) \succ Cl(i)) && Same(Op(i-1), Cl(i-2), "Equal", i-2) && Same(Op(i), Cl(i-1), "Equal", i-1))
Necked(i) == Black(i-1) && Long(i-1) && White(i) && (Op(i) \prec Lo(i-1))
InNeck(i) == Bear(Necked(i) && Within(Cl(i), Cl(i-1), Cl(i-1) \oplus Avg("Equal", i-1)))
OnNeck(i) == Bear(Necked(i) && Same(Cl(i), Lo(i-1), "Equal", i-1))
Thrusting(i) == Bear(Necked(i) && (Cl(i) \succ (Cl(i-1) \oplus Avg("Equal", i-1)))
  && (Cl(i) \preceq (Cl(i-1) \oplus Half(Body(i-1)))))
Piercing(i) == Bull(Necked(i) && Long(i) && (Cl(i) \prec Op(i-1)) && (Cl(i) \succ (Cl(i-1) \oplus Half(Body(i-1)))))
InvertedHammer(i) == Bull(Small(i) && LongUpper(i) && NoLower(i) && BodyGapDown(i, i-1))
ShootingStar(i)   == Bear(Small(i) && LongUpper(i) && NoLower(i) && BodyGapUp(i, i-1))
IsMarubozu(i) == Long(i) && NoUpper(i) && NoLower(i)
Kicks(i) == Opposite(i-1, i) && IsMarubozu(i-1) && IsMarubozu(i)
  && ((Black(i-1) && GapUp(i, i-1)) || (White(i-1) && GapDown(i, i-1)))
Kicking(i) == Of(i, Kicks(i))
KickingByLength(i) ==
  LET longer == Body(i) \succ Body(i-1) IN
  IF longer = 1 THEN Of(i, Kicks(i)) ELSE IF longer = 0 THEN Of(i-1, Kicks(i)) ELSE Of(i, Kicks(i)) \cup Of(i-1, Kicks(i))
LadderBottom(i) == Bull(Black(i-4) && Black(i-3) && Black(i-2) && (Op(i-4) \succ Op(i-3)) && (Op(i-3) \succ Op(i-2))
  && (Cl(i-4) \succ Cl(i-3)) && (Cl(i-3) \succ Cl(i-2)) && Black(i-1) && HasUpper(i-1) && White(i)
  && (Op(i) \succ Op(i-1)) && (Cl(i) \succ Hi(i-1)))
LongLeggedDoji(i) == Bull(Doji(i) && (LongLower(i) || LongUpper(i)))
LongLine(i)  == Of(i, Long(i) && ShortUpper(i) && ShortLower(i))
ShortLine(i) == Of(i, Small(i) && ShortUpper(i) && ShortLower(i))
Marubozu(i)  == Of(i, IsMarubozu(i))
MatchingLow(i) == Bull(Black(i-1) && Black(i) && Same(Cl(i), Cl(i-1), "Equal", i-1))
MatHold(i) ==
  LET limit == Cl(i-4) \ominus (Body(i-4) \otimes Penetration) IN
  Bull(Long(i-4) && Small(i-3) && Small(i-2) && Small(i-1) && White(i-4) && Black(i-3) && White(i)
    && BodyGapUp(i-3, i-4) && (Bottom(i-2) \prec Cl(i-4)) && (Bottom(i-1) \prec Cl(i-4))
    && (Bottom(i-2) \succ limit) && (Bottom(i-1) \succ limit)
    && (Top(i-2) \prec Op(i-3)) && (Top(i-1) \prec Top(i-2)) && (Op(i) \succ Cl(i-1))
    && (Cl(i) \succ Hi(i-3)) && (Cl(i) \succ Hi(i-2)) && (Cl(i) \succ Hi(i-1)))
RickshawMan(i) ==
  LET middle == Lo(i) \oplus Half(Range(i)) IN
  Bull(Doji(i) && LongLower(i) && LongUpper(i)
    && (Bottom(i) \preceq (middle \oplus Avg("Near", i))) && (Top(i) \succeq (middle \ominus Avg("Near", i))))
RiseFall3Methods(i) ==
  LET holds(j) == (Bottom(j) \prec Hi(i-4)) && (Top(j) \succ Lo(i-4))
      \* x is before y in the direction of the first candle
      before(x, y) == IF Color(i-4) = 1 THEN x \prec y ELSE y \prec x
  IN Of(i-4, Long(i-4) && Small(i-3) && Small(i-2) && Small(i-1) && Long(i)
       && Opposite(i-4, i-3) && Alike(i-3, i-2) && Alike(i-2, i-1) && Opposite(i-1, i)
       && holds(i-3) && holds(i-2) && holds(i-1) && before(Cl(i-2), Cl(i-3)) && before(Cl(i-1), Cl(i-2))
       && before(Cl(i-1), Op(i)) && before(Cl(i-4), Cl(i)))
SeparatingLines(i) == Of(i, Opposite(i-1, i) && Same(Op(i), Op(i-1), "Equal", i-1) && Long(i)
  && ((White(i) && NoLower(i)) || (Black(i) && NoUpper(i))))
SpinningTop(i) == Of(i, Small(i) && (Upper(i) \succ Body(i)) && (Lower(i) \succ Body(i)))
StalledPattern(i) == Bear(White(i-2) && White(i-1) && White(i) && (Cl(i) \succ Cl(i-1)) && (Cl(i-1) \succ Cl(i-2))
  && Long(i-2) && Long(i-1) && NoUpper(i-1) && OpensInside(i-1, i-2, "Near") && Small(i)
  && (Op(i) \succeq ((Cl(i-1) \ominus Body(i)) \ominus Avg("Near", i-1))))
StickSandwich(i) == Bull(Black(i-2) && White(i-1) && Black(i) && (Lo(i-1) \succ Cl(i-2)) && Same(Cl(i), Cl(i-2), "Equal", i-2))
Takuri(i) == Bull(Doji(i) && NoUpper(i) && (Lower(i) \succ Avg("ShadowVeryLong", i)))
TasukiGap(i) ==
  LET alike == Dist(Body(i-1), Body(i)) \prec Avg("Near", i-1) IN
  Of(i-1, (BodyGapUp(i-1, i-2) && White(i-1) && Black(i) && (Op(i) \prec Cl(i-1)) && (Op(i) \succ Op(i-1))
           && (Cl(i) \prec Op(i-1)) && (Cl(i) \succ Top(i-2)) && alike)
       || (BodyGapDown(i-1, i-2) && Black(i-1) && White(i) && (Op(i) \prec Op(i-1)) && (Op(i) \succ Cl(i-1))
           && (Cl(i) \succ Op(i-1)) && (Cl(i) \prec Bottom(i-2)) && alike))
\* all three are measured with the average as of the first
Tristar(i) ==
  LET doji(j) == Body(j) \preceq Avg("BodyDoji", i-2) IN
  Given(doji(i-2) && doji(i-1) && doji(i),
    Else(BodyGapDown(i-1, i-2) && (Bottom(i) \succ Bottom(i-1)), 100,
         Bear(BodyGapUp(i-1, i-2) && (Top(i) \prec Top(i-1)))))
Unique3River(i) == Bull(Long(i-2) && Black(i-2) && Black(i-1) && (Cl(i-1) \succ Cl(i-2)) && (Op(i-1) \preceq Op(i-2))
  && (Lo(i-1) \prec Lo(i-2)) && Small(i) && White(i) && (Op(i) \succ Lo(i-1)))
UpsideGap2Crows(i) == Bear(White(i-2) && Long(i-2) && Black(i-1) && NotLonger(i-1) && BodyGapUp(i-1, i-2) && Black(i)
  && (Op(i) \succ Op(i-1)) && (Cl(i) \prec Cl(i-1)) && (Cl(i) \succ Cl(i-2)))
XSideGap3Methods(i) == Of(i-2, Alike(i-2, i-1) && Opposite(i-1, i) && (Op(i) \prec Top(i-1)) && (Op(i) \succ Bottom(i-1))
  && (Cl(i) \prec Top(i-2)) && (Cl(i) \succ Bottom(i-2))
  && ((White(i-2) && BodyGapUp(i-1, i-2)) || (Black(i-2) && BodyGapDown(i-1, i-2))))

(* Hikkake: a pattern is confirmed by a close beyond its second last bar   *)
(* within three bars, once, unless another pattern comes first.  m says    *)
(* whether the modified pattern is meant.                                  *)
InsideBar(i) == (Hi(i) \prec Hi(i-1)) && (Lo(i) \succ Lo(i-1))
Falls(i) == (Hi(i) \prec Hi(i-1)) && (Lo(i) \prec Lo(i-1))
Rises(i) == (Hi(i) \succ Hi(i-1)) && (Lo(i) \succ Lo(i-1))
HikkakeUp(m, i)   == InsideBar(i-1) && Falls(i)
  && IF m THEN InsideBar(i-2) && (Cl(i-2) \preceq (Lo(i-2) \oplus Avg("Near", i-2))) ELSE 1
HikkakeDown(m, i) == InsideBar(i-1) && Rises(i)
  && IF m THEN InsideBar(i-2) && (Cl(i-2) \succeq (Hi(i-2) \ominus Avg("Near", i-2))) ELSE 1
Hikkake1(m, i) == Else(HikkakeUp(m, i), 100, Bear(HikkakeDown(m, i)))
\* the pattern v of bar j is confirmed by bar i
Confirms(i, j, v) == IF v > 0 THEN Cl(i) \succ Hi(j-1) ELSE Cl(i) \prec Lo(j-1)
\* pairs <<output for bar i, pattern waiting for confirmation>>; a pattern is <<v, j>>, or <<0, 0>>
RECURSIVE HikkakeStates(_, _, _)
HikkakeStates(m, i, n) ==
  LET before == IF n = 0 THEN {<<0, 0>>} ELSE {p[2] : p \in HikkakeStates(m, i-1, n-1)}
      new == Hikkake1(m, i)
  IN {<<v, <<v, i>>>> : v \in new \ {0}}
     \cup IF 0 \notin new THEN {}
          ELSE {IF w[1] # 0 /\ i <= w[2] + 3 /\ Confirms(i, w[2], w[1]) = 1
                THEN <<2 * w[1], <<0, 0>>>> ELSE <<0, w>> : w \in before}
HikkakeAny(m, i) == {p[1] : p \in HikkakeStates(m, i, 3)}

Allowed(f, i) ==
  CASE f = "CDL2CROWS" -> TwoCrows(i)
    [] f = "CDL3BLACKCROWS" -> ThreeBlackCrows(i)
    [] f = "CDL3INSIDE" -> ThreeInside(i)
    [] f = "CDL3LINESTRIKE" -> ThreeLineStrike(i)
    [] f = "CDL3OUTSIDE" -> ThreeOutside(i)
    [] f = "CDL3STARSINSOUTH" -> ThreeStarsInSouth(i)
    [] f = "CDL3WHITESOLDIERS" -> ThreeWhiteSoldiers(i)
    [] f = "CDLABANDONEDBABY" -> AbandonedBaby(i)
    [] f = "CDLADVANCEBLOCK" -> AdvanceBlock(i)
    [] f = "CDLBELTHOLD" -> BeltHold(i)
    [] f = "CDLBREAKAWAY" -> Breakaway(i)
    [] f = "CDLCLOSINGMARUBOZU" -> ClosingMarubozu(i)
    [] f = "CDLCONCEALBABYSWALL" -> ConcealBabySwallow(i)
    [] f = "CDLCOUNTERATTACK" -> Counterattack(i)
    [] f = "CDLDARKCLOUDCOVER" -> DarkCloudCover(i)
    [] f = "CDLDOJI" -> Bull(Doji(i))
    [] f = "CDLDOJISTAR" -> DojiStar(i)
    [] f = "CDLDRAGONFLYDOJI" -> DragonflyDoji(i)
    [] f = "CDLENGULFING" -> Engulfing(i)
    [] f = "CDLEVENINGDOJISTAR" -> EveningDojiStar(i)
    [] f = "CDLEVENINGSTAR" -> EveningStar(i)
    [] f = "CDLGAPSIDESIDEWHITE" -> GapSideSideWhite(i)
    [] f = "CDLGRAVESTONEDOJI" -> GravestoneDoji(i)
    [] f = "CDLHAMMER" -> Hammer(i)
    [] f = "CDLHANGINGMAN" -> HangingMan(i)
    [] f = "CDLHARAMI" -> Harami(i)
    [] f = "CDLHARAMICROSS" -> HaramiCross(i)
    [] f = "CDLHIGHWAVE" -> HighWave(i)
    [] f = "CDLHIKKAKE" -> HikkakeAny(FALSE, i)
    [] f = "CDLHIKKAKEMOD" -> HikkakeAny(TRUE, i)
    [] f = "CDLHOMINGPIGEON" -> HomingPigeon(i)
    [] f = "CDLIDENTICAL3CROWS" -> Identical3Crows(i)
    [] f = "CDLINNECK" -> InNeck(i)
    [] f = "CDLINVERTEDHAMMER" -> InvertedHammer(i)
    [] f = "CDLKICKING" -> Kicking(i)
    [] f = "CDLKICKINGBYLENGTH" -> KickingByLength(i)
    [] f = "CDLLADDERBOTTOM" -> LadderBottom(i)
    [] f = "CDLLONGLEGGEDDOJI" -> LongLeggedDoji(i)
    [] f = "CDLLONGLINE" -> LongLine(i)
    [] f = "CDLMARUBOZU" -> Marubozu(i)
    [] f = "CDLMATCHINGLOW" -> MatchingLow(i)
    [] f = "CDLMATHOLD" -> MatHold(i)
    [] f = "CDLMORNINGDOJISTAR" -> MorningDojiStar(i)
    [] f = "CDLMORNINGSTAR" -> MorningStar(i)
    [] f = "CDLONNECK" -> OnNeck(i)
    [] f = "CDLPIERCING" -> Piercing(i)
    [] f = "CDLRICKSHAWMAN" -> RickshawMan(i)
    [] f = "CDLRISEFALL3METHODS" -> RiseFall3Methods(i)
    [] f = "CDLSEPARATINGLINES" -> SeparatingLines(i)
    [] f = "CDLSHOOTINGSTAR" -> ShootingStar(i)
    [] f = "CDLSHORTLINE" -> ShortLine(i)
    [] f = "CDLSPINNINGTOP" -> SpinningTop(i)
    [] f = "CDLSTALLEDPATTERN" -> StalledPattern(i)
    [] f = "CDLSTICKSANDWICH" -> StickSandwich(i)
    [] f = "CDLTAKURI" -> Takuri(i)
    [] f = "CDLTASUKIGAP" -> TasukiGap(i)
    [] f = "CDLTHRUSTING" -> Thrusting(i)
    [] f = "CDLTRISTAR" -> Tristar(i)
    [] f = "CDLUNIQUE3RIVER" -> Unique3River(i)
    [] f = "CDLUPSIDEGAP2CROWS" -> UpsideGap2Crows(i)
    [] f = "CDLXSIDEGAP3METHODS" -> XSideGap3Methods(i)
=============================================================================
