------------------------------ MODULE BarIndex ------------------------------
(***************************************************************************)
(* Bar formation of finmlkit/bar (logic.py, kit.py): trades are consumed   *)
(* one at a time and bar closes are emitted.  `em` is what the code calls  *)
(* (close_ts, close_indices): its first entry is the anchor that opens the *)
(* first bar, every later entry is the close of a bar, and bar k holds the *)
(* trades (em[k].idx, em[k+1].idx].  Indices count from 0, as in the code; *)
(* the anchor is -1 when no trade lies on or before it.                    *)
(*                                                                         *)
(* One action per case of the code:                                        *)
(*   time    Anchor, Extend, RollClock (an interval ends; it may be empty),*)
(*           Finish                                                        *)
(*   tick, volume, dollar   Anchor, Extend, Hit                            *)
(*   cusum   WarmUp (no volatility known yet), Anchor, Extend (which first *)
(*           decides whether the preceding trade closes a bar: it cannot   *)
(*           while later trades carry its timestamp), Finish               *)
(***************************************************************************)
EXTENDS Rat, SequencesExt

VARIABLES cfg,  \* [kind, and: iv (time), thr (tick, volume, dollar), mult, floor (cusum)]
          tr,   \* trades consumed: sequence of [ts, px, vol, sg]
          em,   \* emitted: sequence of [ts, idx]
          acc,  \* [cum] or [pos, neg, sg]: the running accumulators
          ph    \* "init", "run", "done"

vars == <<cfg, tr, em, acc, ph>>

N == Len(tr)
Here == N - 1                          \* index of the last trade consumed
LastT == tr[N]
Emit(t, i) == Append(em, [ts |-> t, idx |-> i])
LastEm == em[Len(em)]

Init0 == /\ tr = <<>> /\ em = <<>> /\ ph = "init"
         /\ acc = [cum |-> R0, pos |-> R0, neg |-> R0, sg |-> NaN]

\* ---------------------------------------------------------------- time bars
FloorTo(t, iv) == RMul(RFloor(RDiv(t, iv)), iv)

TimeAnchor(t) ==
    /\ cfg.kind = "time" /\ ph = "init"
    /\ LET c0 == FloorTo(t.ts, cfg.iv)
       IN  em' = <<[ts |-> c0, idx |-> IF REq(c0, t.ts) THEN 0 ELSE -1]>>
    /\ tr' = <<t>> /\ ph' = "run" /\ UNCHANGED <<cfg, acc>>

NextClose == RAdd(LastEm.ts, cfg.iv)

\* a trade on the anchor itself belongs to the bar before the first one
TimeOnAnchor(t) ==
    /\ cfg.kind = "time" /\ ph = "run" /\ Len(em) = 1 /\ REq(t.ts, em[1].ts)
    /\ em' = <<[ts |-> em[1].ts, idx |-> N]>>
    /\ tr' = Append(tr, t) /\ UNCHANGED <<cfg, acc, ph>>

TimeExtend(t) ==
    /\ cfg.kind = "time" /\ ph = "run" /\ ~(Len(em) = 1 /\ REq(t.ts, em[1].ts))
    /\ RLe(t.ts, NextClose)
    /\ tr' = Append(tr, t) /\ UNCHANGED <<cfg, em, acc, ph>>

\* the next trade (or the end of the data) lies beyond the open interval
TimeRoll == em' = Emit(NextClose, Here)

TimeRollClock(t) ==
    /\ cfg.kind = "time" /\ ph = "run" /\ RLt(NextClose, t.ts)
    /\ TimeRoll /\ UNCHANGED <<cfg, tr, acc, ph>>

\* the interval of the last trade is closed, and one empty interval follows it
\* (over a span of more than 2^53 nanoseconds, 104 days, it may not: the number of intervals is found in binary64)
Span == RSub(NextClose, em[1].ts)
TimeFinish(full) ==
    /\ cfg.kind = "time" /\ ph = "run"
    /\ full \/ RLt("9007199254740991", Span)
    /\ em' = IF ~full THEN Emit(NextClose, Here) ELSE IF RLt(LastEm.ts, LastT.ts)
             THEN em \o <<[ts |-> NextClose, idx |-> Here], [ts |-> RAdd(NextClose, cfg.iv), idx |-> Here]>>
             ELSE Emit(NextClose, Here)
    /\ ph' = "done" /\ UNCHANGED <<cfg, tr, acc>>

\* ---------------------------------------------------------------- tick, volume and dollar bars
Threshold == {"tick", "volume", "dollar"}
Amount(t) == CASE cfg.kind = "tick"   -> R1
               [] cfg.kind = "volume" -> t.vol
               [] cfg.kind = "dollar" -> RMul(t.px, t.vol)
\* what is left in the accumulator after a bar closed: only dollar bars carry the excess over
Carry(cum) == IF cfg.kind = "dollar" THEN RSub(cum, cfg.thr) ELSE R0

ThrAnchor(t) ==
    /\ cfg.kind \in Threshold /\ ph = "init"
    /\ em' = <<[ts |-> t.ts, idx |-> 0]>>
    /\ acc' = [acc EXCEPT !.cum = Amount(t)]
    /\ tr' = <<t>> /\ ph' = "run" /\ UNCHANGED cfg

ThrExtend(t) ==
    /\ cfg.kind \in Threshold /\ ph = "run" /\ RLt(RAdd(acc.cum, Amount(t)), cfg.thr)
    /\ acc' = [acc EXCEPT !.cum = RAdd(@, Amount(t))]
    /\ tr' = Append(tr, t) /\ UNCHANGED <<cfg, em, ph>>

ThrHit(t) ==
    /\ cfg.kind \in Threshold /\ ph = "run" /\ RLe(cfg.thr, RAdd(acc.cum, Amount(t)))
    /\ acc' = [acc EXCEPT !.cum = Carry(RAdd(@, Amount(t)))]
    /\ em' = Emit(t.ts, N)
    /\ tr' = Append(tr, t) /\ UNCHANGED <<cfg, ph>>

ThrFinish ==
    /\ cfg.kind \in Threshold /\ ph = "run"
    /\ ph' = "done" /\ UNCHANGED <<cfg, tr, em, acc>>

\* ---------------------------------------------------------------- CUSUM bars
CusumWarmUp(t) ==
    /\ cfg.kind = "cusum" /\ ph = "init" /\ RIsNaN(t.sg)
    /\ tr' = Append(tr, t) /\ UNCHANGED <<cfg, em, acc, ph>>

CusumAnchor(t) ==
    /\ cfg.kind = "cusum" /\ ph = "init" /\ ~RIsNaN(t.sg)
    /\ em' = <<[ts |-> t.ts, idx |-> N]>>
    /\ acc' = [acc EXCEPT !.sg = t.sg]
    /\ tr' = Append(tr, t) /\ ph' = "run" /\ UNCHANGED cfg

Lambda == RMax(RMul(cfg.mult, acc.sg), cfg.floor)
Eps == "1/1000000000"
Near(a, b) == RClose(a, b, Eps, Eps)
UpHit == RLe(Lambda, acc.pos)
DnHit == RLe(acc.neg, RNeg(Lambda))
\* binary64 logarithms: within Eps of the threshold either outcome is allowed
Ambiguous == Near(acc.pos, Lambda) \/ Near(acc.neg, RNeg(Lambda))
CanDecide == N >= 2 /\ LastEm.idx # Here

\* whether the last trade consumed closes a bar; `hit` is the outcome
DecideAcc(hit) == IF ~hit THEN acc
                  ELSE IF UpHit \/ (Near(acc.pos, Lambda) /\ ~DnHit) THEN [acc EXCEPT !.pos = R0]
                  ELSE [acc EXCEPT !.neg = R0]
DecideEm(hit) == IF hit THEN Emit(LastT.ts, Here) ELSE em
DecideOK(hit) == IF ~CanDecide THEN ~hit ELSE Ambiguous \/ hit = (UpHit \/ DnHit)

Moved(a, t) == LET ret == RLn(RDiv(t.px, LastT.px))
               IN  [a EXCEPT !.pos = RMax(R0, RAdd(a.pos, ret)), !.neg = RMin(R0, RAdd(a.neg, ret)),
                             !.sg = IF RIsNaN(t.sg) THEN a.sg ELSE t.sg]

CusumExtend(t, hit) ==
    /\ cfg.kind = "cusum" /\ ph = "run"
    /\ IF REq(t.ts, LastT.ts) THEN hit = FALSE ELSE DecideOK(hit)
    /\ em' = DecideEm(hit)
    /\ acc' = Moved(DecideAcc(hit), t)
    /\ tr' = Append(tr, t) /\ UNCHANGED <<cfg, ph>>

CusumFinish(hit) ==
    /\ cfg.kind = "cusum" /\ ph = "run" /\ DecideOK(hit)
    /\ em' = DecideEm(hit) /\ acc' = DecideAcc(hit)
    /\ ph' = "done" /\ UNCHANGED <<cfg, tr>>

\* ---------------------------------------------------------------- all
Consume(t) == \/ TimeAnchor(t) \/ TimeOnAnchor(t) \/ TimeExtend(t) \/ TimeRollClock(t)
              \/ ThrAnchor(t) \/ ThrExtend(t) \/ ThrHit(t)
              \/ CusumWarmUp(t) \/ CusumAnchor(t) \/ \E hit \in BOOLEAN : CusumExtend(t, hit)
Finish == (\E full \in BOOLEAN : TimeFinish(full)) \/ ThrFinish \/ \E hit \in BOOLEAN : CusumFinish(hit)

\* ---------------------------------------------------------------- properties of the design
\* closed bars are never revised: what was emitted stays, whatever trades follow
AppendOnly == [][Len(em) > 1 => IsPrefix(em, em')]_vars

Ordered == \A k \in 1..Len(em) - 1 : em[k].idx <= em[k + 1].idx /\ RLe(em[k].ts, em[k + 1].ts)

\* each trade behind the anchor lies in at most one bar, and in exactly one once the data is complete
BarsOf(j) == {k \in 1..Len(em) - 1 : em[k].idx < j /\ j <= em[k + 1].idx}
Partition == /\ \A j \in 0..Here : Cardinality(BarsOf(j)) <= 1
             /\ (ph = "done" /\ cfg.kind = "time") =>
                    \A j \in 0..Here : (BarsOf(j) = {}) <=> RLe(tr[j + 1].ts, em[1].ts)

TimeGrid == cfg.kind = "time" /\ em # <<>> =>
    /\ REq(FloorTo(em[1].ts, cfg.iv), em[1].ts)
    /\ \A k \in 1..Len(em) - 1 : REq(RSub(em[k + 1].ts, em[k].ts), cfg.iv)
    /\ \A k \in 1..Len(em) - 1 : \A j \in 0..Here :
          k \in BarsOf(j) => RLt(em[k].ts, tr[j + 1].ts) /\ RLe(tr[j + 1].ts, em[k + 1].ts)

\* a threshold bar closes at the first trade at which the accumulated amount reaches the threshold
SumAmt(a, b) == RSum([j \in 1..(b - a) |-> Amount(tr[a + j + 1])])
RECURSIVE CarryIn(_)
CarryIn(k) == IF k = 1 THEN Amount(tr[1])
              ELSE IF cfg.kind # "dollar" THEN R0
              ELSE RSub(RAdd(CarryIn(k - 1), SumAmt(em[k - 1].idx, em[k].idx)), cfg.thr)
ThresholdMet == cfg.kind \in Threshold =>
    /\ \A k \in 1..Len(em) - 1 :
          /\ em[k].idx < em[k + 1].idx
          /\ RLe(cfg.thr, RAdd(CarryIn(k), SumAmt(em[k].idx, em[k + 1].idx)))
          /\ \A j \in em[k].idx + 1..em[k + 1].idx - 1 : RLt(RAdd(CarryIn(k), SumAmt(em[k].idx, j)), cfg.thr)
    /\ em # <<>> /\ LastEm.idx < Here =>
          \A j \in LastEm.idx + 1..Here : RLt(RAdd(CarryIn(Len(em)), SumAmt(LastEm.idx, j)), cfg.thr)

\* a CUSUM bar never ends inside a block of trades with one timestamp
NoSplitBlock == cfg.kind = "cusum" => \A k \in 2..Len(em) :
    em[k].idx < Here => RLt(tr[em[k].idx + 1].ts, tr[em[k].idx + 2].ts)
CusumSigns == RLe(R0, acc.pos) /\ RLe(acc.neg, R0)
=============================================================================
