----------------------------- MODULE BarStore -----------------------------
(***************************************************************************)
(* Stored time bars (finmlkit/bar/io.py AddTimeBarH5, TimeBarReader): the  *)
(* trades of a month are aggregated to one-second bars once, or again on   *)
(* request; any range of seconds can be read back and resampled.           *)
(* Times are integers in quarter seconds from a midnight, labels of bars   *)
(* in seconds; prices and amounts are integers.  A bar labelled L holds    *)
(* the trades after second L-1 and up to second L.                         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt
VARIABLES trades,  \* month -> sequence of [t, p, q], chronological
          bars     \* month -> sequence of rows, as of the month's last processing
bvars == <<trades, bars>>
Nil == [k \in {} |-> <<>>]
Init0 == trades = Nil /\ bars = Nil
Day == 86400

\* ---------------------------------------------------------------- one second bars
Floor4(t) == t \div 4                       \* TLC's \div rounds down
Ceil4(t) == -((-t) \div 4)
Last0(s) == s[Len(s)]
Row(tr, L) ==
    LET in == SelectSeq(tr, LAMBDA r : 4 * (L - 1) < r.t /\ r.t <= 4 * L)
        ps == [i \in 1..Len(in) |-> R(in[i].p)]
        qs == [i \in 1..Len(in) |-> R(in[i].q)]
        before == SelectSeq(tr, LAMBDA r : r.t <= 4 * (L - 1))
        c == R(Last0(before).p)
    IN IF in = <<>>
       THEN [at |-> L, o |-> c, h |-> c, l |-> c, c |-> c, v |-> R0, n |-> 0, w |-> R0, m |-> R0]
       ELSE [at |-> L, o |-> ps[1], h |-> RMaxSeq(ps), l |-> RMinSeq(ps), c |-> Last0(ps), v |-> RSum(qs), n |-> Len(in),
             w |-> RDiv(RDot(ps, qs), RSum(qs)), m |-> RMedian(qs)]
\* from the second the first trade falls in to the one after the last trade's
SecondBars(tr) == LET a == Floor4(tr[1].t)
                      z == Ceil4(Last0(tr).t)
                  IN [i \in 1..(z + 1 - a) |-> Row(tr, a + i)]

\* ---------------------------------------------------------------- actions
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SaveTrades(k, tr) == trades' = Put(trades, k, tr) /\ UNCHANGED bars
\* answers whether bars were made
Process(k, over) ==
    /\ k \in DOMAIN trades
    /\ bars' = IF k \in DOMAIN bars /\ ~over THEN bars ELSE Put(bars, k, SecondBars(trades[k]))
    /\ UNCHANGED trades
Makes(k, over) == k \in DOMAIN trades /\ (k \notin DOMAIN bars \/ over)
RECURSIVE Made(_, _, _)
Made(f, ks, over) == IF ks = <<>> THEN f
                     ELSE Made(IF ks[1] \in DOMAIN f /\ ~over THEN f ELSE Put(f, ks[1], SecondBars(trades[ks[1]])), Tail(ks), over)
ProcessAll(ks, over) == (\A i \in 1..Len(ks) : ks[i] \in DOMAIN trades) /\ bars' = Made(bars, ks, over) /\ UNCHANGED trades

\* ---------------------------------------------------------------- reading
\* months: the months of the file in ascending order
Labels == UNION {{r.at : r \in Range(bars[k])} : k \in DOMAIN bars}
\* a second that two months tell of (the empty one after a month's last trade): the one with trades, else the later month's
Best(months, L) ==
    LET all == FlattenSeq([i \in 1..Len(months) |-> SelectSeq(bars[months[i]], LAMBDA r : r.at = L)])
        traded == SelectSeq(all, LAMBDA r : r.n > 0)
    IN IF traded = <<>> THEN Last0(all) ELSE Last0(traded)
\* bounds are sequences of at most one time; a midnight as end stands for its whole day
IsMidnight(t) == t % (4 * Day) = 0
EndOf(hi) == IF IsMidnight(hi[1]) THEN hi[1] + 4 * Day - 1 ELSE hi[1]
Shown(lo, hi) == {L \in Labels : (lo = <<>> \/ lo[1] <= 4 * L) /\ (hi = <<>> \/ 4 * L <= EndOf(hi))}
Asc(S) == SetToSortSeq(S, <)
Seconds(months, lo, hi) == LET ls == Asc(Shown(lo, hi)) IN [i \in 1..Len(ls) |-> Best(months, ls[i])]

\* the weighted (lower) median of the per-second medians, weights: number of trades
WMedian(s) == LET o == SortSeq(s, LAMBDA a, b : RLt(a.m, b.m))
                  tot == RSum([i \in 1..Len(s) |-> R(s[i].n)])
                  Cum(i) == RSum([j \in 1..i |-> R(o[j].n)])
              IN o[CHOOSE i \in 1..Len(s) : RLe(RDiv(tot, "2"), Cum(i)) /\ \A j \in 1..(i - 1) : ~RLe(RDiv(tot, "2"), Cum(j))].m
Merge(s, at) ==
    LET F(f) == [i \in 1..Len(s) |-> s[i][f]]
        n == [i \in 1..Len(s) |-> s[i].n]
        v == RSum(F("v"))
    IN [at |-> at, o |-> s[1].o, h |-> RMaxSeq(F("h")), l |-> RMinSeq(F("l")), c |-> Last0(s).c, v |-> v,
        n |-> FoldLeft(+, 0, n), w |-> RDiv(RDot(F("w"), F("v")), v), m |-> WMedian(s)]
\* tf: seconds, a divisor of a day
Resampled(months, lo, hi, tf) ==
    LET s == Seconds(months, lo, hi)
        Slot(r) == r.at \div tf
        slots == Asc({Slot(s[i]) : i \in 1..Len(s)})
        all == [j \in 1..Len(slots) |-> Merge(SelectSeq(s, LAMBDA r : Slot(r) = slots[j]), slots[j] * tf)]
        newest == CHOOSE L \in Labels : \A M \in Labels : M <= L
        day == hi[1] \div 4
    \* of whole days up to a day, that day is left out unless the data reach its end
    IN IF tf = Day /\ hi # <<>> /\ IsMidnight(hi[1]) /\ newest < day + Day - 1 THEN SelectSeq(all, LAMBDA r : r.at < day) ELSE all

\* ---------------------------------------------------------------- design checks
Total(s) == FoldLeft(+, 0, [i \in 1..Len(s) |-> s[i].n])
Once(months) == LET s == Seconds(months, <<>>, <<>>) IN \A i, j \in 1..Len(s) : i # j => s[i].at # s[j].at
\* every trade but one on the very first grid point of a month is in exactly one bar
Counted(months) == Total(Seconds(months, <<>>, <<>>)) =
    FoldLeft(+, 0, [i \in 1..Len(months) |-> LET b == bars[months[i]] IN FoldLeft(+, 0, [j \in 1..Len(b) |-> b[j].n])])
Conserves(months, tf) == LET s == Seconds(months, <<>>, <<>>)
                             q == Resampled(months, <<>>, <<>>, tf)
                         IN /\ Total(s) = Total(q)
                            /\ REq(RSum([i \in 1..Len(s) |-> s[i].v]), RSum([i \in 1..Len(q) |-> q[i].v]))
                            /\ \A i \in 1..Len(q) : RLe(q[i].l, q[i].o) /\ RLe(q[i].o, q[i].h) /\ RLe(q[i].l, q[i].c) /\ RLe(q[i].c, q[i].h)
=============================================================================
