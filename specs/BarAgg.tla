------------------------------- MODULE BarAgg -------------------------------
(***************************************************************************)
(* What a bar says about its trades (finmlkit/bar/base.py).  The trades of *)
(* a data set are consumed in order; cl is the sequence of close indices   *)
(* (cl[1] anchors the first bar, bar k holds trades cl[k]+1 .. cl[k+1]).   *)
(* Take adds the next trade to the accumulators of the open bar; Close     *)
(* emits the bar's row; both steps appear for every trade and every bar,   *)
(* so an empty bar is a Close without Take.                                *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt

VARIABLES tr,    \* all trades: sequence of [px, vol, side]
          cl,    \* close indices, counted from 0
          par,   \* [theta: typical size for each bar, mult, tick, factor]
          b,     \* number of the open bar, 1..; b = Len(cl) when all are closed
          j,     \* index of the last trade consumed
          a      \* accumulators of the open bar
vars == <<tr, cl, par, b, j, a>>

Zero == [n |-> 0, sizes |-> <<>>, pxs |-> <<>>, vol |-> R0, dol |-> R0,
         tb |-> 0, ts |-> 0, vb |-> R0, vs |-> R0, db |-> R0, ds |-> R0,
         spsum |-> R0, spmax |-> R0,
         ct |-> 0, ctmin |-> 0, ctmax |-> 0, cv |-> R0, cvmin |-> R0, cvmax |-> R0, cd |-> R0, cdmin |-> R0, cdmax |-> R0,
         lv |-> <<>>]
NBars == Len(cl) - 1

Px(i) == tr[i + 1].px
Vol(i) == tr[i + 1].vol
Side(i) == tr[i + 1].side

\* price in ticks
Level(p) == RInt(RRound(RDiv(p, par.tick)))

\* the bid/ask bounce seen when trade i and its predecessor have different sides
Bounce(i) == IF i > 0 /\ Side(i) # Side(i - 1) THEN RAbs(RSub(Px(i), Px(i - 1))) ELSE R0

Signed(s, buy, sell, none) == IF s = "1" THEN buy ELSE IF s = "-1" THEN sell ELSE none

\* extremes of a cumulative imbalance run over directional trades only and start with the first of them
Ext(first, f(_, _), old, new) == IF first THEN new ELSE f(old, new)
IMin(x, y) == IF x < y THEN x ELSE y
IMax(x, y) == IF x < y THEN y ELSE x

AddTrade(x, i) ==
    LET v == Vol(i)
        s == Side(i)
        d == RMul(Px(i), v)
        sided == s \in {"1", "-1"}
        first == x.tb + x.ts = 0
        ct == x.ct + Signed(s, 1, -1, 0)
        cv == RAdd(x.cv, Signed(s, v, RNeg(v), R0))
        cd == RAdd(x.cd, Signed(s, d, RNeg(d), R0))
        sp == Bounce(i)
    IN  [x EXCEPT !.n = @ + 1, !.sizes = Append(@, v), !.pxs = Append(@, Px(i)),
                  !.vol = RAdd(@, v), !.dol = RAdd(@, d),
                  !.tb = @ + Signed(s, 1, 0, 0), !.ts = @ + Signed(s, 0, 1, 0),
                  !.vb = RAdd(@, Signed(s, v, R0, R0)), !.vs = RAdd(@, Signed(s, R0, v, R0)),
                  !.db = RAdd(@, Signed(s, d, R0, R0)), !.ds = RAdd(@, Signed(s, R0, d, R0)),
                  !.spsum = RAdd(@, sp), !.spmax = RMax(@, sp),
                  !.ct = ct, !.cv = cv, !.cd = cd,
                  !.ctmin = IF ~sided THEN @ ELSE Ext(first, IMin, @, ct), !.ctmax = IF ~sided THEN @ ELSE Ext(first, IMax, @, ct),
                  !.cvmin = IF ~sided THEN @ ELSE Ext(first, RMin, @, cv), !.cvmax = IF ~sided THEN @ ELSE Ext(first, RMax, @, cv),
                  !.cdmin = IF ~sided THEN @ ELSE Ext(first, RMin, @, cd), !.cdmax = IF ~sided THEN @ ELSE Ext(first, RMax, @, cd),
                  !.lv = Append(@, <<Level(Px(i)), s, v>>)]

Init0 == b = 1 /\ j = cl[1] /\ a = Zero
Take == /\ b <= NBars /\ j < cl[b + 1]
        /\ a' = AddTrade(a, j + 1) /\ j' = j + 1 /\ UNCHANGED <<tr, cl, par, b>>
Close == /\ b <= NBars /\ j = cl[b + 1]
         /\ b' = b + 1 /\ a' = Zero /\ UNCHANGED <<tr, cl, par, j>>

\* ---------------------------------------------------------------- the row of the open bar, as it is closed
Ohlcv == IF a.n = 0
         THEN [open |-> Px(j), high |-> Px(j), low |-> Px(j), close |-> Px(j), volume |-> R0, vwap |-> R0,
               trades |-> R0, median |-> R0]
         ELSE [open |-> a.pxs[1], high |-> RMaxSeq(a.pxs), low |-> RMinSeq(a.pxs), close |-> a.pxs[a.n],
               volume |-> a.vol, vwap |-> IF RLt(R0, a.vol) THEN RDiv(a.dol, a.vol) ELSE R0,
               trades |-> R(a.n), median |-> RMedian(a.sizes)]

Directional ==
    [ticks_buy |-> R(a.tb), ticks_sell |-> R(a.ts), volume_buy |-> a.vb, volume_sell |-> a.vs,
     dollars_buy |-> a.db, dollars_sell |-> a.ds,
     mean_spread |-> IF a.tb + a.ts = 0 THEN R0 ELSE RDiv(a.spsum, R(a.tb + a.ts)), max_spread |-> a.spmax,
     cum_ticks_min |-> R(a.ctmin), cum_ticks_max |-> R(a.ctmax),
     cum_volume_min |-> a.cvmin, cum_volume_max |-> a.cvmax,
     cum_dollars_min |-> a.cdmin, cum_dollars_max |-> a.cdmax]

Select(s, T(_)) == SelectSeq(s, T)
Gini(xs) == LET t == RSum(xs) IN RSub(R1, RDiv(RDot(xs, xs), RSq(t)))
TradeSize ==
    LET theta == par.theta[b]
        block == RMul(theta, par.mult)
        big == SelectSeq(a.sizes, LAMBDA v : RLt(block, v))
        Log1p(x) == RLn(RAdd(R1, x))
    IN  IF a.n = 0 \/ REq(theta, R0)
        THEN [mean_size_rel |-> NaN, size_95_rel |-> NaN, pct_block |-> NaN, size_gini |-> NaN]
        ELSE [mean_size_rel |-> Log1p(RDiv(RMean(a.sizes), block)),
              size_95_rel |-> Log1p(RDiv(RQuantile(a.sizes, "19/20"), block)),
              pct_block |-> IF REq(a.vol, R0) THEN NaN ELSE RDiv(RSum(big), a.vol),
              size_gini |-> IF REq(a.vol, R0) THEN NaN ELSE IF a.n = 1 THEN R0 ELSE Gini(a.sizes)]

\* the footprint: every price level between the bar's low and high, in ticks
LoLevel == Level(Ohlcv.low)
HiLevel == Level(Ohlcv.high)
NLev == HiLevel - LoLevel + 1
At(k, s) == SelectSeq(a.lv, LAMBDA x : x[1] = LoLevel + k - 1 /\ x[2] = s)
VolAt(k, s) == LET q == At(k, s) IN RSum([i \in 1..Len(q) |-> q[i][3]])
Footprint ==
    LET buy == [k \in 1..NLev |-> VolAt(k, "1")]
        sell == [k \in 1..NLev |-> VolAt(k, "-1")]
        tot == [k \in 1..NLev |-> RAdd(buy[k], sell[k])]
        \* diagonal comparison: the ask of a level against the bid one level below
        bi == [k \in 1..NLev |-> k > 1 /\ RLt(RMul(sell[k - 1], par.factor), buy[k])]
        si == [k \in 1..NLev |-> k < NLev /\ RLt(RMul(buy[k + 1], par.factor), sell[k])]
        sign == [k \in 1..NLev |-> IF bi[k] THEN 1 ELSE IF si[k] THEN -1 ELSE 0]
        \* length of the run of equal signs that ends at level k
        run[k \in 1..NLev] == IF sign[k] = 0 THEN 0 ELSE IF k > 1 /\ sign[k - 1] = sign[k] THEN run[k - 1] + 1 ELSE 1
        longest == CHOOSE k \in 1..NLev : /\ \A i \in 1..NLev : run[i] <= run[k]
                                          /\ \A i \in 1..k - 1 : run[i] < run[k]
        cot == CHOOSE k \in 1..NLev : /\ \A i \in 1..NLev : RLe(tot[i], tot[k])
                                      /\ \A i \in 1..k - 1 : RLt(tot[i], tot[k])
        sum == RSum(tot)
    IN  [levels |-> [k \in 1..NLev |-> R(LoLevel + k - 1)],
         buy |-> buy, sell |-> sell,
         buy_ticks |-> [k \in 1..NLev |-> R(Len(At(k, "1")))], sell_ticks |-> [k \in 1..NLev |-> R(Len(At(k, "-1")))],
         buy_imb |-> [k \in 1..NLev |-> IF bi[k] THEN R1 ELSE R0], sell_imb |-> [k \in 1..NLev |-> IF si[k] THEN R1 ELSE R0],
         buy_imb_sum |-> R(Cardinality({k \in 1..NLev : bi[k]})), sell_imb_sum |-> R(Cardinality({k \in 1..NLev : si[k]})),
         run |-> R(run[longest] * sign[longest]), cot |-> R(LoLevel + cot - 1),
         gini |-> IF RLt(R0, sum) THEN RSub(R1, RDiv(RDot(tot, tot), RSq(sum))) ELSE R0]

\* ---------------------------------------------------------------- properties of the design
OhlcvSane == (b <= NBars /\ j = cl[b + 1]) =>
    LET o == Ohlcv IN
    /\ RLe(o.low, o.open) /\ RLe(o.low, o.close) /\ RLe(o.open, o.high) /\ RLe(o.close, o.high)
    /\ (a.n > 0 /\ RLt(R0, o.volume)) => RLe(o.low, o.vwap) /\ RLe(o.vwap, o.high)
DirectionalSane == (b <= NBars /\ j = cl[b + 1]) =>
    LET d == Directional IN
    /\ a.tb + a.ts <= a.n /\ RLe(RAdd(d.volume_buy, d.volume_sell), Ohlcv.volume)
    /\ (\A i \in 1..Len(tr) : tr[i].side # "0") => REq(RAdd(d.volume_buy, d.volume_sell), Ohlcv.volume)
    /\ a.ctmin <= a.ct /\ a.ct <= a.ctmax /\ a.ct = a.tb - a.ts
    /\ REq(a.cv, RSub(a.vb, a.vs)) /\ REq(a.cd, RSub(a.db, a.ds)) /\ RLe(a.cdmin, a.cd) /\ RLe(a.cd, a.cdmax)
    /\ RLe(d.mean_spread, IF a.n = 0 THEN R0 ELSE RMul(d.max_spread, R(a.n)))
FootprintSane == (b <= NBars /\ j = cl[b + 1]) =>
    LET f == Footprint IN
    /\ REq(RSum(f.buy), a.vb) /\ REq(RSum(f.sell), a.vs)
    /\ REq(RSum(f.buy_ticks), R(a.tb)) /\ REq(RSum(f.sell_ticks), R(a.ts))
    /\ RLe(R0, f.gini) /\ RLt(f.gini, R1)
    \* an edge level is never imbalanced towards the outside
    /\ f.buy_imb[1] = R0 /\ f.sell_imb[NLev] = R0
TradeSizeSane == (b <= NBars /\ j = cl[b + 1]) =>
    LET t == TradeSize IN
    ~RIsNaN(t.pct_block) => /\ RLe(R0, t.pct_block) /\ RLe(t.pct_block, R1) /\ RLe(R0, t.size_gini) /\ RLt(t.size_gini, R1)
=============================================================================
