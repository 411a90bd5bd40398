-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Numbers of the specification.  TLC's integers have 32 bits and it has   *)
(* no reals, while finmlkit computes on int64 nanoseconds and on binary64; *)
(* every binary64 value is a rational, so here a number is written as a    *)
(* string: "n", or "n/d" in lowest terms, or one of "nan", "inf", "-inf".  *)
(* The operators below are evaluated by java/Rat.java with BigInteger, so  *)
(* +, -, *, /, <, <= and floor are exact at any size; the bodies given     *)
(* here are never evaluated.  RSqrt is exact on perfect squares and        *)
(* correctly rounded to 40 digits otherwise; RLn, RExp, RSin, RCos, RAtan  *)
(* are within two units in the last place of binary64.  An operation on "nan"  *)
(* is "nan" and a comparison with it is FALSE, as in IEEE 754; x/0 is      *)
(* "inf", "-inf" or "nan".  MCRat checks these operators against           *)
(* arithmetic on pairs of TLC integers.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

R(a) == "overridden"            \* an integer (or number) as a number
RFrac(n, d) == "overridden"     \* n/d
RAdd(a, b) == "overridden"
RSub(a, b) == "overridden"
RMul(a, b) == "overridden"
RDiv(a, b) == "overridden"
RLt(a, b) == FALSE
RLe(a, b) == FALSE
REq(a, b) == FALSE              \* numeric equality; "nan" equals nothing
RFloor(a) == "overridden"
RInt(a) == 0                    \* floor(a) as a TLC integer
RIsNaN(a) == FALSE
RIsFinite(a) == FALSE
RSum(s) == "overridden"         \* sum of a sequence
RDot(s, t) == "overridden"      \* sum of s[i] * t[i]
RSqrt(a) == "overridden"
RLn(a) == "overridden"
RExp(a) == "overridden"
RSin(a) == "overridden"
RCos(a) == "overridden"
RAtan(a) == "overridden"
RCut(a) == "overridden"         \* a to 60 significant digits, once its denominator has 400 bits (keeps recursions small)
\* |a - b| <= abs + rel * max(|a|, |b|); "nan" is close to "nan", and an infinity to itself
RClose(a, b, rel, abs) == FALSE

R0 == "0"
R1 == "1"
NaN == "nan"
RNeg(a) == RSub(R0, a)
RAbs(a) == IF RLt(a, R0) THEN RNeg(a) ELSE a
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RCeil(a) == RNeg(RFloor(RNeg(a)))
RSq(a) == RMul(a, a)
RSign(a) == IF RIsNaN(a) THEN a ELSE IF RLt(a, R0) THEN "-1" ELSE IF RLt(R0, a) THEN R1 ELSE R0

\* round half to even, as numpy's round does
RRound(a) == LET f == RFloor(a)
                 d == RSub(a, f)
             IN  IF RLt(d, "1/2") THEN f
                 ELSE IF RLt("1/2", d) THEN RAdd(f, R1)
                 ELSE IF REq(RMul("2", RFloor(RDiv(f, "2"))), f) THEN f ELSE RAdd(f, R1)

RECURSIVE RMaxSeq(_), RMinSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], RMaxSeq(Tail(s)))
RMinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], RMinSeq(Tail(s)))
RMean(s) == RDiv(RSum(s), R(Len(s)))

\* the sequence of numbers in ascending order
RSortSeq(s) == SortSeq(s, LAMBDA a, b : RLt(a, b))
RMedian(s) == LET t == RSortSeq(s)
                  n == Len(t)
              IN  IF n % 2 = 1 THEN t[(n + 1) \div 2]
                  ELSE RDiv(RAdd(t[n \div 2], t[n \div 2 + 1]), "2")
\* linearly interpolated quantile, as numpy's percentile
RQuantile(s, p) == LET t == RSortSeq(s)
                       h == RMul(p, R(Len(s) - 1))
                       k == RInt(h) + 1
                   IN  IF k >= Len(s) THEN t[Len(s)]
                       ELSE RAdd(t[k], RMul(RSub(h, RFloor(h)), RSub(t[k + 1], t[k])))
=============================================================================
