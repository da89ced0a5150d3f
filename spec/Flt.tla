-------------------------------- MODULE Flt --------------------------------
(***************************************************************************)
(* IEEE 754 binary64 numbers for TLC.                                      *)
(*                                                                         *)
(* A floating-point number is the pair <<hi, lo>> of the two (signed)      *)
(* 32-bit halves of its bit pattern, so that numbers are ordinary TLA+     *)
(* values: they can be compared, stored in states and read from traces.    *)
(* The operators below are the operations of the IEEE standard (round to   *)
(* nearest even); TLC evaluates them with the Java methods of the same     *)
(* name in Flt.java, exactly as it does for the arithmetic of Integers.    *)
(* Operators with a TLA+ definition are overridden for speed only.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Float == Int \X Int                      \* <<hi, lo>>

(* Constants and conversions ---------------------------------------------*)
Lit(s)       == CHOOSE x \in Float : TRUE   \* decimal literal, "0.015"
OfInt(n)     == CHOOSE x \in Float : TRUE
Dec(h)       == CHOOSE x \in Seq(Float) : TRUE  \* hex string, 16 digits each
Trunc(x)     == CHOOSE n \in Int : TRUE         \* toward zero; NaN, big: 0
NaN          == CHOOSE x \in Float : TRUE
Zero         == <<0, 0>>

(* Arithmetic -------------------------------------------------------------*)
Add(a, b)    == CHOOSE x \in Float : TRUE
Sub(a, b)    == CHOOSE x \in Float : TRUE
Mul(a, b)    == CHOOSE x \in Float : TRUE
Div(a, b)    == CHOOSE x \in Float : TRUE
Negate(a)      == CHOOSE x \in Float : TRUE
Abs(a)       == CHOOSE x \in Float : TRUE
Fn(name, a)  == CHOOSE x \in Float : TRUE   \* "sqrt", "exp", "sin", ...
MaxF(a, b)   == CHOOSE x \in Float : TRUE
MinF(a, b)   == CHOOSE x \in Float : TRUE
Single(a)    == CHOOSE x \in Float : TRUE   \* rounded to binary32

(* Comparison (IEEE: false when a NaN is involved) -------------------------*)
Lt(a, b)     == CHOOSE x \in BOOLEAN : TRUE
Le(a, b)     == CHOOSE x \in BOOLEAN : TRUE
Eq(a, b)     == CHOOSE x \in BOOLEAN : TRUE
Gt(a, b)     == Lt(b, a)
Ge(a, b)     == Le(b, a)
IsNaN(a)     == ~Eq(a, a)
IsFinite(a)  == CHOOSE x \in BOOLEAN : TRUE

(* |a-b| <= 10^-k * max(1, |a|, |b|), or the same infinity, or both NaN.    *)
Near(a, b, k) == CHOOSE x \in BOOLEAN : TRUE
(* |a-b| <= 10^-k * max(s, |a|, |b|) for the magnitude s                    *)
NearS(a, b, k, s) == CHOOSE x \in BOOLEAN : TRUE
(* -1, 0, 1: a below, (almost) equal to, above b; 0 when |a-b| <= 10^-k *   *)
(* max(|a|,|b|) although a and b differ ... also 0 when they are equal.     *)
Cmp(a, b, k) == CHOOSE x \in -1..1 : TRUE

(* Sequences ----------------------------------------------------------------*)
(* <<F(1), ..., F(n)>>; empty for n < 1                                      *)
Tabulate(n, F(_)) == [i \in 1..n |-> F(i)]
RECURSIVE Scan(_, _, _)
(* <<Op(base,s[1]), Op(Op(base,s[1]),s[2]), ...>>                            *)
Scan(Op(_, _), base, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET v == Op(base, Head(s)) IN <<v>> \o Scan(Op, v, Tail(s))

RECURSIVE Sum(_, _, _)
(* s[i] + ... + s[j], from left to right; Zero when i > j                    *)
Sum(s, i, j) == IF j < i THEN Zero ELSE Add(Sum(s, i, j-1), s[j])

RECURSIVE MaxOf(_, _, _), MinOf(_, _, _)
MaxOf(s, i, j) == IF i = j THEN s[i] ELSE MaxF(MaxOf(s, i, j-1), s[j])
MinOf(s, i, j) == IF i = j THEN s[i] ELSE MinF(MinOf(s, i, j-1), s[j])

(* Element-wise agreement of two sequences; the second is shifted: the       *)
(* result is the least i in 1..n with ~Near(a[ai+i], b[bi+i], k), or 0.      *)
RECURSIVE Differ(_, _, _, _, _, _)
Differ(a, ai, b, bi, n, k) ==
  IF n = 0 THEN 0
  ELSE LET d == Differ(a, ai, b, bi, n-1, k)
       IN IF d # 0 THEN d
          ELSE IF Near(a[ai+n], b[bi+n], k) THEN 0 ELSE n
(* The same, to the precision of the largest of the n elements of b.         *)
DifferS(a, ai, b, bi, n, k) ==
  LET s == MaxOf([m \in 1..n |-> Abs(b[bi+m])], 1, n) IN
  IF \A m \in 1..n : NearS(a[ai+m], b[bi+m], k, MaxF(s, OfInt(1))) THEN 0
  ELSE CHOOSE m \in 1..n : ~NearS(a[ai+m], b[bi+m], k, MaxF(s, OfInt(1)))
(* Agreement with a definition that is silent about some elements (NaN):      *)
(* the least i with b[i] a number and ~Near(a[i], b[i], k), or 0.             *)
Deviates(a, b, k) ==
  LET bad == {m \in 1..Len(b) : ~IsNaN(b[m]) /\ ~Near(a[m], b[m], k)} IN
  IF bad = {} THEN 0 ELSE CHOOSE m \in bad : \A m2 \in bad : m <= m2
=============================================================================
