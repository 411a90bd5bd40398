---------------------------- MODULE CusumFilter ----------------------------
(***************************************************************************)
(* Symmetric CUSUM filter (finmlkit/sampling/filters.py): prices arrive    *)
(* one at a time; an event is emitted when the upward or the downward sum  *)
(* of log returns passes its threshold, and that sum starts again.         *)
(***************************************************************************)
EXTENDS Rat, SequencesExt
VARIABLES pxs, thr,  \* consumed prices and their thresholds
          pos, neg, ev
vars == <<pxs, thr, pos, neg, ev>>
Init0 == pxs = <<>> /\ thr = <<>> /\ pos = R0 /\ neg = R0 /\ ev = <<>>
First(p, t) == pxs = <<>> /\ pxs' = <<p>> /\ thr' = <<t>> /\ UNCHANGED <<pos, neg, ev>>
Ret(p) == RLn(RDiv(p, pxs[Len(pxs)]))
Pos(p) == RMax(R0, RAdd(pos, Ret(p)))
Neg(p) == RMin(R0, RAdd(neg, Ret(p)))
Eps == "1/1000000000"
Near(x, y) == RClose(x, y, Eps, Eps)
DnHit(p, t) == RLt(Neg(p), RNeg(t))
UpHit(p, t) == RLt(t, Pos(p))
\* binary64 logarithms; with a threshold of zero a sum of zero is exact
DnNear(p, t) == ~RIsNaN(t) /\ Near(Neg(p), RNeg(t)) /\ ~(REq(t, R0) /\ REq(Neg(p), R0))
UpNear(p, t) == ~RIsNaN(t) /\ Near(Pos(p), t) /\ ~(REq(t, R0) /\ REq(Pos(p), R0))
Take(p, t) == pxs # <<>> /\ pxs' = Append(pxs, p) /\ thr' = Append(thr, t)
Quiet(p, t) == /\ Take(p, t) /\ (DnNear(p, t) \/ ~DnHit(p, t)) /\ (UpNear(p, t) \/ ~UpHit(p, t))
               /\ pos' = Pos(p) /\ neg' = Neg(p) /\ UNCHANGED ev
Down(p, t) == /\ Take(p, t) /\ (DnNear(p, t) \/ DnHit(p, t))
              /\ pos' = Pos(p) /\ neg' = R0 /\ ev' = Append(ev, Len(pxs))
Up(p, t) == /\ Take(p, t) /\ (UpNear(p, t) \/ UpHit(p, t)) /\ (DnNear(p, t) \/ ~DnHit(p, t))
            /\ pos' = R0 /\ neg' = Neg(p) /\ ev' = Append(ev, Len(pxs))
Signs == RLe(R0, pos) /\ RLe(neg, R0)
Ordered == \A k \in 1..Len(ev) : 1 <= ev[k] /\ ev[k] < Len(pxs) /\ (k > 1 => ev[k - 1] < ev[k])
\* what is pending is below its threshold
Minimal == Len(pxs) > 1 => LET t == thr[Len(thr)] IN
             (ev = <<>> \/ ev[Len(ev)] # Len(pxs) - 1) => ~RLt(RAdd(t, Eps), pos) /\ ~RLt(neg, RNeg(RAdd(t, Eps)))
\* later prices never change earlier events
Causal == [][IsPrefix(ev, ev')]_vars
=============================================================================
