------------------------------- MODULE MCRat -------------------------------
(* Cross-check of the overridden operators of Rat with arithmetic on pairs of TLC integers. *)
EXTENDS Rat
CONSTANT N
VARIABLES a, b, c, d
Init == a \in -N..N /\ c \in -N..N /\ b \in 1..N /\ d \in 1..N
Next == UNCHANGED <<a, b, c, d>>
X == RFrac(R(a), R(b))
Y == RFrac(R(c), R(d))
Same(x, n, m) == x = RFrac(n, m)
Inv == /\ Same(RAdd(X, Y), a * d + c * b, b * d)
       /\ Same(RSub(X, Y), a * d - c * b, b * d)
       /\ Same(RMul(X, Y), a * c, b * d)
       /\ c # 0 => Same(RDiv(X, Y), a * d, b * c)
       /\ c = 0 => RDiv(X, Y) = IF a > 0 THEN "inf" ELSE IF a < 0 THEN "-inf" ELSE "nan"
       /\ RLt(X, Y) <=> a * d < c * b
       /\ RLe(X, Y) <=> a * d <= c * b
       /\ REq(X, Y) <=> a * d = c * b
       /\ RInt(X) * b <= a /\ a < (RInt(X) + 1) * b
       /\ RFloor(X) = R(RInt(X))
       /\ RSqrt(RSq(X)) = RAbs(X)
       /\ RClose(RExp(RLn(RFrac(b, d))), RFrac(b, d), "1/10000000000000", "0")
       /\ RClose(RAdd(RSq(RSin(X)), RSq(RCos(X))), "1", "0", "1/10000000000000")
       /\ RClose(X, Y, "0", "1/4") <=> 4 * (IF a * d >= c * b THEN a * d - c * b ELSE c * b - a * d) <= b * d
       /\ RSum(<<X, Y, X>>) = RAdd(X, RAdd(X, Y))
       /\ RDot(<<X, Y>>, <<Y, X>>) = RMul("2", RMul(X, Y))
       /\ RIsNaN(RAdd("nan", X)) /\ ~RLe("nan", X) /\ ~RIsNaN(X)
       /\ RMedian(<<X, Y, "0">>) = RMax(RMin(X, Y), RMin(RMax(X, Y), "0"))
=============================================================================
