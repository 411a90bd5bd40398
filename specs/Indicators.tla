----------------------------- MODULE Indicators -----------------------------
(***************************************************************************)
(* What the feature transforms compute (finmlkit/feature/transforms.py and *)
(* feature/core): for each of them, the value at a bar as a function of    *)
(* the bars up to and including it.                                        *)
(*                                                                         *)
(*   Ind(t, k, X, T)  the output columns of transform t with parameters k  *)
(*                    on input columns X (a sequence of columns) over bars *)
(*                    closed at the nanosecond times T                     *)
(*                                                                         *)
(* A column is a sequence of numbers (Rat), one for each bar; "nan" stands *)
(* for undefined: too few bars, or a quotient by zero, or a missing input  *)
(* in the window.  Open marks a value the definition leaves open.           *)
(***************************************************************************)
EXTENDS Rat, SequencesExt, FiniteSets

Open == "any"
Pi == "884279719003555/281474976710656"
Bil == "1000000000"
Undef(x) == RIsNaN(x)
AnyNaN(s) == \E j \in DOMAIN s : Undef(s[j])
Win(s, i, w) == SubSeq(s, i - w + 1, i)
Map(F(_), s) == [j \in 1..Len(s) |-> F(s[j])]
Fill(v, n) == [j \in 1..n |-> v]
\* F of the last w values, undefined until there are w of them and when one is missing
Roll(F(_), s, w) == [i \in 1..Len(s) |-> IF i < w \/ AnyNaN(Win(s, i, w)) THEN NaN ELSE F(Win(s, i, w))]
Shift(s, p) == [i \in 1..Len(s) |-> IF i <= p THEN NaN ELSE s[i - p]]
\* the states of a recursion that starts in st and reads s
Scan(F(_, _), st, s) == FoldLeft(LAMBDA acc, x : Append(acc, F(acc[Len(acc)], x)), <<st>>, s)
DivOr(a, b, z) == IF REq(b, R0) THEN z ELSE RDiv(a, b)
Sq(s) == Map(RSq, s)
Dev(s) == LET m == RMean(s) IN Map(LAMBDA x : RSub(x, m), s)
VarOf(s, ddof) == IF Len(s) <= ddof THEN NaN ELSE RDiv(RSum(Sq(Dev(s))), R(Len(s) - ddof))
StdOf(s, ddof) == RSqrt(VarOf(s, ddof))
Valid(s) == SelectSeq(s, LAMBDA x : ~Undef(x))
Idx(n) == [j \in 1..n |-> j]

(*------------------------------- returns --------------------------------*)
Ratio(a, b, log) == IF log THEN RLn(RDiv(a, b)) ELSE RSub(RDiv(a, b), R1)
Returns(x, p, log) == [i \in 1..Len(x) |-> IF i <= p THEN NaN ELSE Ratio(x[i], x[i - p], log)]
Growth(x, p) == [i \in 1..Len(x) |-> IF i <= p \/ ~RLt(R0, x[i - p]) THEN NaN ELSE RDiv(RSub(x[i], x[i - p]), x[i - p])]
\* the last bar closed at least w nanoseconds before bar i, 0 if there is none
Before(T, i, w) == LET B == {j \in 1..i - 1 : RLe(T[j], RSub(T[i], w))} IN IF B = {} THEN 0 ELSE CHOOSE j \in B : \A m \in B : m <= j
TimeReturns(x, T, w, log) == [i \in 1..Len(x) |-> LET j == Before(T, i, w) IN IF j = 0 THEN NaN ELSE Ratio(x[i], x[j], log)]

(*------------------------------- momentum -------------------------------*)
Diffs(x) == [i \in 1..Len(x) |-> IF i = 1 THEN NaN ELSE RSub(x[i], x[i - 1])]
Up(d) == RMax(d, R0)
Dn(d) == RMax(RNeg(d), R0)
\* Wilder's smoothing of s[2..]: the mean of the first w, then ((w - 1) * last + x) / w
Wilder(s, w) == LET n == Len(s)
                    first == RMean(SubSeq(s, 2, w + 1))
                    tail == Scan(LAMBDA a, x : RCut(RDiv(RAdd(RMul(a, R(w - 1)), x), R(w))), first, SubSeq(s, w + 2, n))
                IN  IF n <= w THEN Fill(NaN, n) ELSE Fill(NaN, w) \o tail
Rsi(x, w) == LET d == Diffs(x)
                 g == Wilder(Map(Up, d), w)
                 l == Wilder(Map(Dn, d), w)
             IN  [i \in 1..Len(x) |-> IF i <= w THEN NaN
                                      ELSE IF REq(l[i], R0) THEN "100"
                                      ELSE RSub("100", RDiv("100", RAdd(R1, RDiv(g[i], l[i]))))]
StochK(h, l, c, w) == [i \in 1..Len(c) |-> IF i < w \/ AnyNaN(Win(l, i, w)) \/ AnyNaN(Win(h, i, w)) THEN NaN
                        ELSE LET lo == RMinSeq(Win(l, i, w))
                                 hi == RMaxSeq(Win(h, i, w))
                             IN  DivOr(RMul("100", RSub(c[i], lo)), RSub(hi, lo), NaN)]
ZOf(s, ddof) == LET sd == StdOf(s, ddof) IN DivOr(RSub(s[Len(s)], RMean(s)), sd, NaN)
Burst(s) == LET m == RMedian(s) IN IF RLt(R0, m) THEN RDiv(s[Len(s)], m) ELSE NaN
VwapDist(c, v, w, log) ==
    Tail(Scan(LAMBDA last, i : IF i < w \/ AnyNaN(Win(v, i, w)) \/ AnyNaN(Win(c, i, w)) THEN NaN
                               ELSE LET vs == RSum(Win(v, i, w))
                                        vw == RDiv(RDot(Win(c, i, w), Win(v, i, w)), vs)
                                    IN  IF RLt(R0, vs) THEN Ratio(c[i], vw, log) ELSE last,
              NaN, Idx(Len(c))))

(*--------------------------- trend, direction ---------------------------*)
TrueRange(h, l, c) == [i \in 1..Len(h) |-> IF Undef(h[i]) \/ Undef(l[i]) THEN NaN
                         ELSE IF i = 1 THEN RSub(h[i], l[i])
                         ELSE IF Undef(c[i - 1]) THEN NaN
                         ELSE RMax(RSub(h[i], l[i]), RMax(RAbs(RSub(h[i], c[i - 1])), RAbs(RSub(l[i], c[i - 1]))))]
Adx(h, l, c, w) ==
    LET n == Len(h)
        tr == TrueRange(h, l, c)
        up == [i \in 1..n |-> IF i = 1 THEN R0 ELSE RSub(h[i], h[i - 1])]
        dn == [i \in 1..n |-> IF i = 1 THEN R0 ELSE RSub(l[i - 1], l[i])]
        pd == [i \in 1..n |-> IF RLt(dn[i], up[i]) /\ RLt(R0, up[i]) THEN up[i] ELSE R0]
        md == [i \in 1..n |-> IF RLt(up[i], dn[i]) /\ RLt(R0, dn[i]) THEN dn[i] ELSE R0]
        Smooth(s) == IF n < w + 1 THEN Fill(R0, n)
                     ELSE Fill(R0, w) \o Scan(LAMBDA a, x : RCut(RAdd(RSub(a, RDiv(a, R(w))), x)), RSum(SubSeq(s, 2, w + 1)), SubSeq(s, w + 2, n))
        st == Smooth(tr)  sp == Smooth(pd)  sm == Smooth(md)
        pdi == [i \in 1..n |-> DivOr(RMul("100", sp[i]), st[i], R0)]
        mdi == [i \in 1..n |-> DivOr(RMul("100", sm[i]), st[i], R0)]
        dx == [i \in 1..n |-> RCut(DivOr(RMul("100", RAbs(RSub(pdi[i], mdi[i]))), RAdd(pdi[i], mdi[i]), R0))]
    IN  IF n < 2 * w THEN Fill(R0, n)
        ELSE Fill(R0, 2 * w - 1) \o Scan(LAMBDA a, x : RCut(RDiv(RAdd(RMul(a, R(w - 1)), x), R(w))),
                                         RMean(SubSeq(dx, w + 1, 2 * w)), SubSeq(dx, 2 * w + 1, n))
\* least squares line through (0, s[1]), (1, s[2]), ...
Slope(s) == LET n == Len(s)
                X == Dev([j \in 1..n |-> R(j - 1)])
            IN  RDiv(RDot(X, Dev(s)), RSum(Sq(X)))
TrendAngle(s) == RDiv(RMul("180", RAtan(Slope(Map(RLn, s)))), Pi)
\* length of the run of equal signs that ends in each bar; the first bar has no run
RunLengths(x) == LET st == Scan(LAMBDA a, i : [sg |-> RSign(x[i]),
                                               n |-> IF Undef(x[i]) \/ RSign(x[i]) = R0 THEN 0
                                                     ELSE IF a.sg = RSign(x[i]) THEN a.n + 1 ELSE 1],
                                [sg |-> NaN, n |-> 0], [j \in 1..(Len(x) - 1) |-> j + 1])
                 IN  [i \in 1..Len(x) |-> R(st[i].n)]

(*------------------------------- averages -------------------------------*)
\* pandas' exponential weights: a step of time multiplies the earlier weights by 1 - 2 / (span + 1)
Ewm(x, span) ==
    LET b == RSub(R1, RDiv("2", R(span + 1)))
        st == Scan(LAMBDA a, v : [w |-> RCut(RAdd(RMul(b, a.w), IF Undef(v) THEN R0 ELSE R1)),
                                  w2 |-> RCut(RAdd(RMul(RSq(b), a.w2), IF Undef(v) THEN R0 ELSE R1)),
                                  s |-> RCut(RAdd(RMul(b, a.s), IF Undef(v) THEN R0 ELSE v)),
                                  q |-> RCut(RAdd(RMul(b, a.q), IF Undef(v) THEN R0 ELSE RSq(v)))],
                   [w |-> R0, w2 |-> R0, s |-> R0, q |-> R0], x)
    IN  Tail(st)
EwmMean(x, span) == LET e == Ewm(x, span)
                    IN  Tail(Scan(LAMBDA last, i : DivOr(e[i].s, e[i].w, last), NaN, Idx(Len(x))))
\* variance of weighted observations, corrected for their number
WVar(w, w2, s, q) == LET m == RDiv(s, w)
                         d == RSub(w, RDiv(w2, w))
                     IN  RDiv(RSub(q, RMul(w, RSq(m))), d)
EwmStd(x, span) == LET e == Ewm(x, span)
                   IN  [i \in 1..Len(x) |-> IF Len(Valid(SubSeq(x, 1, i))) < 2 THEN NaN
                                            ELSE RSqrt(RMax(R0, WVar(e[i].w, e[i].w2, e[i].s, e[i].q)))]
\* the same with weights that decay with time: a bar that ends dt seconds after the last one enters with weight
\* 1 - exp(-dt / h), and scales the earlier ones by exp(-dt / h); the first bar has no weight
Decays(T, h) == [i \in 1..Len(T) |-> IF i = 1 THEN R1 ELSE RExp(RDiv(RNeg(RDiv(RSub(T[i], T[i - 1]), Bil)), h))]
TimeEwm(x, T, h) ==
    LET e == Decays(T, h)
    IN  Tail(Scan(LAMBDA a, i : LET al == IF Undef(x[i]) THEN R0 ELSE RSub(R1, e[i])
                                    v == IF Undef(x[i]) THEN R0 ELSE x[i]
                                IN  [w |-> RCut(RAdd(RMul(e[i], a.w), al)), w2 |-> RCut(RAdd(RMul(RSq(e[i]), a.w2), RSq(al))),
                                     s |-> RCut(RAdd(RMul(e[i], a.s), RMul(al, v))), q |-> RCut(RAdd(RMul(e[i], a.q), RMul(al, RSq(v))))],
                  [w |-> R0, w2 |-> R0, s |-> R0, q |-> R0], Idx(Len(x))))
Floor12(v) == RMax(v, "1/1000000000000")
\* with one observation the deviation is at its floor
Seen(x, T, i) == {j \in 2..i : ~Undef(x[j]) /\ ~REq(T[j], T[j - 1])}
TimeEwmStd(x, T, h) == LET e == TimeEwm(x, T, h)
                       IN  [i \in 1..Len(x) |-> IF Seen(x, T, i) = {} THEN NaN
                                                ELSE IF Cardinality(Seen(x, T, i)) = 1 THEN "1/1000000000000"
                                                ELSE Floor12(RSqrt(RMax(R0, WVar(e[i].w, e[i].w2, e[i].s, e[i].q))))]
TimeEwmRms(x, T, h) == LET e == TimeEwm(x, T, h)
                       IN  [i \in 1..Len(x) |-> IF Seen(x, T, i) = {} THEN NaN ELSE Floor12(RSqrt(RDiv(e[i].q, e[i].w)))]

(*------------------------------ volatility ------------------------------*)
Rms(s, sample) == LET v == Valid(s) IN IF Len(v) < 2 THEN NaN ELSE RSqrt(RDiv(RSum(Sq(v)), R(IF sample THEN Len(v) - 1 ELSE Len(v))))
RealizedVol(x, w, sample) == [i \in 1..Len(x) |-> IF i < w THEN NaN ELSE Rms(Win(x, i, w), sample)]
PercentB(s, k) == LET sd == StdOf(s, 1)
                      lo == RSub(RMean(s), RMul(k, sd))
                  IN  DivOr(RSub(s[Len(s)], lo), RMul(RMul("2", k), sd), NaN)
Parkinson(h, l) == [i \in 1..Len(h) |-> RDiv(RSq(RLn(RDiv(h[i], l[i]))), RMul("4", RLn("2")))]
Atr(h, l, c, w, ema, norm) ==
    LET n == Len(h)
        tr == TrueRange(h, l, c)
        MeanOf(s) == IF Valid(s) = <<>> THEN NaN ELSE RMean(Valid(s))
        sm == [i \in 1..n |-> IF i < w \/ (Undef(h[i]) /\ Undef(l[i]) /\ Undef(c[i])) THEN NaN ELSE MeanOf(Win(tr, i, w))]
        em == IF n < w THEN Fill(NaN, n)
              ELSE Fill(NaN, w - 1) \o Scan(LAMBDA a, x : RCut(RDiv(RAdd(RMul(a, R(w - 1)), x), R(w))), MeanOf(SubSeq(tr, 1, w)), SubSeq(tr, w + 1, n))
        a == IF ema THEN em ELSE sm
        mid == [i \in 1..n |-> RDiv(RAdd(h[i], l[i]), "2")]
    IN  [i \in 1..n |-> IF ~norm THEN a[i] ELSE IF Undef(mid[i]) \/ ~RLt(R0, mid[i]) THEN NaN ELSE RDiv(a[i], mid[i])]
\* variance of one-bar returns over a quarter of the variance of four-bar returns, both of the last w bars;
\* of the returns known within the window: the four-bar returns begin at bar 5
VarOfValid(s, ddof) == VarOf(Valid(s), ddof)
VarianceRatio(p, w, ddof, log) ==
    LET n == Len(p)
        Known(i) == ~Undef(p[i]) /\ ~Undef(p[i - 1]) /\ RLt(R0, p[i - 1]) /\ (log => RLt(R0, p[i]))
        r == [i \in 1..n |-> IF i = 1 THEN NaN ELSE IF Known(i) THEN Ratio(p[i], p[i - 1], log) ELSE NaN]
        q == [i \in 1..n |-> IF i < 5 THEN NaN ELSE RSum(Win(r, i, 4))]
    IN  [i \in 1..n |-> IF i < w THEN NaN
                        ELSE LET a == VarOfValid(Win(r, i, w), ddof)
                                 b == VarOfValid(Win(q, i, w), ddof)
                             IN  IF REq(b, R0) THEN (IF log \/ Len(Valid(Win(q, i, w))) > 2 THEN Open ELSE NaN) ELSE RDiv(RMul("4", a), b)]
BiPower(x, w) == LET F(s) == RMul(RDiv(Pi, "2"), RSum([j \in 1..w |-> RMul(RAbs(s[j]), RAbs(s[j + 1]))])) IN Roll(F, x, w + 1)
Kurt(s) == LET d == Sq(Dev(s))
               m2 == RMean(d)
           IN  IF REq(m2, R0) THEN NaN ELSE RSub(RDiv(RMean(Sq(d)), RSq(m2)), "3")
\* Hurst exponent by aggregated variance: slope of log deviation of k-step increments on log k, k = 1, 2, 4, 8
SlopeXY(x, y) == RDiv(RDot(Dev(x), Dev(y)), RSum(Sq(Dev(x))))
Hurst(s) == LET y == Tail(Scan(RAdd, R0, s))
                ks == SelectSeq(<<1, 2, 4, 8>>, LAMBDA k : k < Len(y))
                tau == [j \in 1..Len(ks) |-> StdOf([m \in 1..Len(y) - ks[j] |-> RSub(y[m + ks[j]], y[m])], 0)]
            IN  IF ks = <<>> \/ \E j \in DOMAIN tau : REq(tau[j], R0) THEN NaN
                ELSE SlopeXY([j \in 1..Len(ks) |-> RLn(R(ks[j]))], Map(RLn, tau))

(*---------------------------- volume and flow ---------------------------*)
Eps == "1/1000000000000"
FlowAcc(v, w, r) == [i \in 1..Len(v) |-> IF i < w \/ r >= w \/ AnyNaN(Win(v, i, w)) THEN NaN
                       ELSE RLn(RDiv(RAdd(RSum(Win(v, i, r)), Eps), RAdd(RSum(SubSeq(v, i - w + 1, i - r)), Eps)))]
Vpin(b, s, w) == [i \in 1..Len(b) |-> IF i < w \/ AnyNaN(Win(b, i, w)) \/ AnyNaN(Win(s, i, w)) THEN NaN
                    ELSE LET x == Win(b, i, w)
                             y == Win(s, i, w)
                         IN  DivOr(RSum([j \in 1..w |-> RAbs(RSub(x[j], y[j]))]), RAdd(RSum(x), RSum(y)), NaN)]
Corr(x, y) == LET dx == Dev(x)
                  dy == Dev(y)
              IN  DivOr(RDot(dx, dy), RMul(RSqrt(RSum(Sq(dx))), RSqrt(RSum(Sq(dy)))), NaN)
\* of the bars in the window whose return and volume are known, at a bar where they are
PriceVolumeCorr(p, v, w) ==
    LET r == [i \in 1..Len(p) |-> IF i = 1 \/ Undef(p[i]) \/ Undef(p[i - 1]) \/ REq(p[i - 1], R0) THEN NaN ELSE RSub(RDiv(p[i], p[i - 1]), R1)]
        ok(j) == ~Undef(r[j]) /\ ~Undef(v[j])
        At(s, i) == LET js == SelectSeq([j \in 1..w |-> i - w + j], ok) IN [m \in 1..Len(js) |-> s[js[m]]]
    IN  [i \in 1..Len(p) |-> IF i <= w \/ ~ok(i) \/ Len(At(r, i)) < 2 THEN NaN ELSE Corr(At(r, i), At(v, i))]
\* the code answers +1 or -1 there without looking (a known finding): prices that rise in every step, and volumes that
\* rise in every step or fall in every step
Rising(s) == \A j \in 1..Len(s) - 1 : Undef(s[j]) \/ Undef(s[j + 1]) \/ RLt(s[j], s[j + 1])
Shortcut(p, v, w, i) == i > w /\ (i \in 5..10 \/ w = 4) /\ Rising(Win(p, i - 1, w - 1)) /\ (Rising(Win(v, i - 1, w - 1)) \/ Rising(Reverse(Win(v, i - 1, w - 1))))

(*-------------------------------- clocks --------------------------------*)
Sec(ns) == RFloor(RDiv(ns, Bil))
Mod(a, m) == RSub(a, RMul(m, RFloor(RDiv(a, m))))
Bit(b) == IF b THEN R1 ELSE R0
DayOf(ns) == RFloor(RDiv(ns, "86400000000000"))
Clock(ns) == LET s == Mod(Sec(ns), "86400")
                 h == RInt(RDiv(s, "3600"))
                 m == RInt(RDiv(Mod(s, "3600"), "60"))
                 day == Mod(RAdd(RFloor(RDiv(Sec(ns), "86400")), "3"), "7")   \* 1970-01-01 was a Thursday; Monday = 0
                 a == RDiv(RMul(RMul("2", Pi), s), "86400")
                 b == RDiv(RMul(RMul("2", Pi), day), "7")
             IN  <<RSin(a), RCos(a), RSin(b), RCos(b), Bit(h < 8), Bit(h >= 7 /\ h < 15), Bit(h >= 13 /\ h < 21),
                   Bit(h \in {0, 7, 13} /\ m = 0), Bit(m = 0)>>
TimeCues(T) == LET c == [i \in 1..Len(T) |-> Clock(T[i])] IN [f \in 1..9 |-> [i \in 1..Len(T) |-> c[i][f]]]
Durations(T, p) == [i \in 1..Len(T) |-> IF i <= p THEN NaN ELSE RDiv(RSub(T[i], T[i - p]), Bil)]
BarsPerHour(T, w) == [i \in 1..Len(T) |-> RDiv(RMul("3600", R(Cardinality({j \in 1..i : RLe(RSub(T[i], T[j]), RMul(w, Bil))}))), w)]
\* at a bar that closes at midnight: the distance of the (first) close at midnight from the last close of the day before
Gap(x, T) == [i \in 1..Len(x) |-> LET B == {j \in 1..i - 1 : REq(DayOf(T[j]), RSub(DayOf(T[i]), R1)) /\ ~Undef(x[j])}
                                  IN  IF ~REq(Mod(T[i], "86400000000000"), R0) \/ B = {} THEN NaN
                                      ELSE LET p == x[CHOOSE j \in B : \A m \in B : m <= j]
                                               f == CHOOSE j \in 1..i : REq(T[j], T[i]) /\ \A m \in 1..j - 1 : ~REq(T[m], T[i])
                                           IN  RDiv(RSub(x[f], p), p)]
\* breaks of the range of the day's first four bars, on days whose first bar is in the minute of midnight
DayBars(T, i) == SetToSortSeq({j \in 1..i : REq(DayOf(T[j]), DayOf(T[i]))}, LAMBDA a, b : a < b)
Orb(h, l, c, T, long) ==
    [i \in 1..Len(c) |-> LET d == DayBars(T, i)
                             o == SubSeq(d, 1, 4)
                             hs == Valid([j \in 1..4 |-> h[o[j]]])
                             ls == Valid([j \in 1..4 |-> l[o[j]]])
                         IN  IF Len(d) < 5 \/ ~RLt(Mod(T[d[1]], "86400000000000"), "60000000000") THEN R0
                             ELSE IF long THEN Bit(hs # <<>> /\ RLt(RMaxSeq(hs), c[i]))
                             ELSE Bit(ls # <<>> /\ RLt(c[i], RMinSeq(ls)))]
Candle(o, h, l, c, v) ==
    LET n == Len(o)
        rg == [i \in 1..n |-> RAdd(RSub(h[i], l[i]), Eps)]
        known(i) == ~Undef(o[i]) /\ ~Undef(c[i])
    IN  <<[i \in 1..n |-> IF known(i) THEN RDiv(RSub(h[i], RMax(o[i], c[i])), rg[i]) ELSE NaN],
          [i \in 1..n |-> IF known(i) THEN RDiv(RSub(RMin(o[i], c[i]), l[i]), rg[i]) ELSE NaN],
          [i \in 1..n |-> RDiv(RAbs(RSub(c[i], o[i])), rg[i])],
          [i \in 1..n |-> RDiv(RSub(v[i], o[i]), o[i])]>>

(*---------------------------- structural break --------------------------*)
\* the one-sided Chu-Stinchcombe-White statistic at the last of the log prices y: the largest standardised departure from an
\* earlier level, less its critical value (Homm and Breitung 2011).  The first level of y and the last one before are not used.
CswExcess(y, up) ==
    LET m == Len(y)
        sg == TLCEval(RSqrt(RDiv(RSum([j \in 1..m - 1 |-> RSq(RSub(y[j + 1], y[j]))]), R(m - 2))))
        Dist(j) == IF up THEN RSub(y[m], y[j]) ELSE RSub(y[j], y[m])
        S == TLCEval([j \in 2..m - 2 |-> RDiv(RMax(R0, Dist(j)), RMul(sg, RSqrt(R(m - j))))])
        Crit(j) == RSqrt(RAdd("23/5", RLn(R(m - j))))
        best == CHOOSE j \in DOMAIN S : \A q \in DOMAIN S : RLe(S[q], S[j]) /\ (q < j => S[q] # S[j])
    IN  IF m < 4 \/ REq(sg, R0) THEN "-1/1000000"
        ELSE IF RLt(R0, S[best]) /\ \E q \in DOMAIN S \ {best} : RClose(S[q], S[best], "1/1000000000", "0") THEN Open
        ELSE RMin("10", RMax("-10", RSub(S[best], Crit(best))))
CusumTest(x, w, warm, maxage) ==
    LET win == IF w < warm + 2 THEN warm + 2 ELSE w
        y == TLCEval(Map(RLn, x))
        Score(up) == [i \in 1..Len(x) |-> IF i <= warm THEN NaN ELSE CswExcess(SubSeq(y, IF i - win < 1 THEN 1 ELSE i - win, i), up)]
        Flag(s) == Map(LAMBDA v : IF v = Open THEN Open ELSE IF Undef(v) THEN R0 ELSE IF RLt(RAbs(v), "1/100000000") THEN Open ELSE IF RLt(R0, v) THEN R1 ELSE R0, s)
        \* bars since the last break, or since the first bar
        Age(f) == LET st == Tail(Scan(LAMBDA a, v : IF v = R1 THEN 0 ELSE IF v = Open \/ a = -2 THEN -2 ELSE a + 1, -1, f))
                  IN  Map(LAMBDA a : IF a = -2 THEN Open ELSE R(IF a > maxage THEN maxage ELSE a), st)
        up == TLCEval(Score(TRUE))  dn == TLCEval(Score(FALSE))
        fu == TLCEval(Flag(up))     fd == TLCEval(Flag(dn))
    IN  <<up, dn, fu, fd, Age(fu), Age(fd)>>

(*------------------------------ the catalogue ---------------------------*)
Ind(t, k, X, T) ==
    CASE t = "Identity" -> <<X[1]>>
      [] t = "Lag" -> <<Shift(X[1], k.periods)>>
      [] t = "Return" -> <<Returns(X[1], k.periods, k.is_log)>>
      [] t = "ReturnT" -> <<TimeReturns(X[1], T, k.window, k.is_log)>>
      [] t = "ROC" -> <<Map(LAMBDA x : RMul("100", x), Returns(X[1], k.periods, FALSE))>>
      [] t = "PctChange" -> <<Growth(X[1], k.window)>>
      [] t = "RSIWilder" -> <<Rsi(X[1], k.window)>>
      [] t = "StochK" -> <<StochK(X[1], X[2], X[3], k.length)>>
      [] t = "ZScore" -> <<LET F(s) == ZOf(s, k.ddof) IN Roll(F, X[1], k.window)>>
      [] t = "BurstRatio" -> <<Roll(Burst, X[1], k.window)>>
      [] t = "VWAPDistance" -> <<VwapDist(X[1], X[2], k.periods, k.is_log)>>
      [] t = "TrendSlope" -> <<Roll(TrendAngle, X[1], k.window)>>
      [] t = "ADX" -> <<Adx(X[1], X[2], X[3], k.length)>>
      [] t = "MeanReversionZScore" -> <<LET F(s) == ZOf(s, 1) IN Roll(F, X[1], k.window)>>
      [] t = "DirRunLen" -> <<RunLengths(X[1])>>
      [] t = "SMA" -> <<Roll(RMean, X[1], k.window)>>
      [] t = "EWMA" -> <<EwmMean(X[1], k.span)>>
      [] t = "ewms" -> <<EwmStd(X[1], k.span)>>
      [] t = "EWMST" -> <<TimeEwmStd(X[1], T, RDiv(k.half_life, Bil))>>
      [] t = "ewmst_mean0" -> <<TimeEwmRms(X[1], T, RDiv(k.half_life, Bil))>>
      [] t = "RealizedVolatility" -> <<RealizedVol(X[1], k.window, k.is_sample)>>
      [] t = "BollingerPercentB" -> <<LET F(s) == PercentB(s, k.num_std) IN Roll(F, X[1], k.window)>>
      [] t = "ParkinsonRange" -> <<Parkinson(X[1], X[2])>>
      [] t = "ATR" -> <<Atr(X[1], X[2], X[3], k.window, k.ema_based, k.normalize)>>
      [] t = "VarianceRatio14" -> <<VarianceRatio(X[1], k.window, k.ddof, k.ret_type = "log")>>
      [] t = "BiPowerVariation" -> <<BiPower(X[1], k.window)>>
      [] t = "KurtosisTransform" -> <<Roll(Kurt, X[1], k.window)>>
      [] t = "HurstExponent" -> <<Roll(Hurst, X[1], k.window)>>
      [] t = "FlowAcceleration" -> <<FlowAcc(X[1], k.window, k.recent_periods)>>
      [] t = "VPIN" -> <<Vpin(X[1], X[2], k.window)>>
      [] t = "PriceVolumeCorrelation" -> <<PriceVolumeCorr(X[1], X[2], k.window)>>
      [] t = "TimeCues" -> TimeCues(T)
      [] t = "BarDuration" -> <<Durations(T, k.periods)>>
      [] t = "BarDurationEWMA" -> <<EwmMean(Durations(T, 1), k.span)>>
      [] t = "BarRate" -> <<BarsPerHour(T, RDiv(k.window, Bil))>>
      [] t = "DailyGap" -> <<Gap(X[1], T)>>
      [] t = "ORBBreak" -> <<Orb(X[1], X[2], X[3], T, TRUE), Orb(X[1], X[2], X[3], T, FALSE)>>
      [] t = "CUSUMTest" -> CusumTest(X[1], k.window_size, k.warmup_period, k.max_age)
      [] t = "CandleShape" -> Candle(X[1], X[2], X[3], X[4], X[5])
=============================================================================
