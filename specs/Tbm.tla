-------------------------------- MODULE Tbm --------------------------------
(***************************************************************************)
(* Triple barrier labelling (finmlkit/label/tbm.py, label/kit.py).         *)
(* Candidate events are screened, and every event kept is followed trade   *)
(* by trade until a horizontal barrier is touched or its window ends.      *)
(*   Screen    leading rows with unknown features, small targets and       *)
(*             events whose window is not covered by the trades are dropped*)
(*   Open, Skip  an event starts; without a trade in its window it is      *)
(*             reported as not evaluated                                   *)
(*   Wait      a trade before the minimum holding time cannot close it     *)
(*   Drift, TouchUp, TouchDown, Expire                                     *)
(* Time is in ns, prices and returns are numbers of Rat.                   *)
(***************************************************************************)
EXTENDS Rat, SequencesExt

VARIABLES cfg,  \* [bot, top, vb, minc, minret, meta]
          tr,   \* trades: sequence of [ts, px]
          rows, \* candidate events: sequence of [ts, tgt, side, f, at]; at = -1: found by time
          ph,   \* "screen", "next", "scan", "done", "none" (no event left)
          ev,   \* events kept
          cur,  \* the open event: [t0, t1, j, mu, ml] (trade indices count from 0)
          res   \* results: sequence of [at, touch, lab, ret, w]
vars == <<cfg, tr, rows, ph, ev, cur, res>>

NoEvent == [t0 |-> -1, t1 |-> -1, j |-> -1, mu |-> R0, ml |-> R0]
Init0 == ph = "screen" /\ ev = <<>> /\ res = <<>> /\ cur = NoEvent

Px(i) == tr[i + 1].px
Ts(i) == tr[i + 1].ts
LastTs == tr[Len(tr)].ts

\* ---------------------------------------------------------------- screening
FirstKnown(s) == LET ks == {k \in 1..Len(s) : ~RIsNaN(s[k])} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A x \in ks : k <= x
Start == LET a == FirstKnown([k \in 1..Len(rows) |-> rows[k].tgt])
             b == FirstKnown([k \in 1..Len(rows) |-> rows[k].f])
         IN  IF a > b THEN a ELSE IF b > 0 THEN b ELSE 1
Wide == RMax(cfg.bot, cfg.top)
LargeEnough(r) == RLe(cfg.minret, RMul(RAbs(r.tgt), Wide))
Covered(r) == RLe(RAdd(r.ts, cfg.vb), LastTs)
Screen == /\ ph = "screen"
          /\ LET a == SelectSeq(SubSeq(rows, Start, Len(rows)), LargeEnough)
                 b == SelectSeq(a, Covered)
             IN  ev' = b /\ ph' = IF b = <<>> THEN "none" ELSE "next"
          /\ UNCHANGED <<cfg, tr, rows, cur, res>>

\* ---------------------------------------------------------------- one event
E == ev[Len(res) + 1]
StartOf(e) == IF e.at >= 0 THEN e.at
              ELSE CHOOSE i \in 0..Len(tr) - 1 : RLe(e.ts, Ts(i)) /\ \A k \in 0..i - 1 : RLt(Ts(k), e.ts)
EndOf(i) == CHOOSE k \in i..Len(tr) - 1 : /\ RLe(Ts(k), RAdd(Ts(i), cfg.vb))
                                          /\ (k + 1 < Len(tr) => RLt(RAdd(Ts(i), cfg.vb), Ts(k + 1)))
Infinite(a) == a = "inf" \/ a = "-inf"
\* an infinite multiplier, of either sign, disables its barrier
Up == IF Infinite(cfg.top) THEN "inf" ELSE RMul(E.tgt, cfg.top)
Dn == IF Infinite(cfg.bot) THEN "-inf" ELSE RNeg(RMul(E.tgt, cfg.bot))
Active(b) == ~Infinite(b) /\ ~REq(b, R0)
Side == IF cfg.meta THEN E.side ELSE R1
RetAt(i) == RMul(RSub(RLn(Px(i)), RLn(Px(cur.t0))), Side)

Eps == "1/1000000000000"
Near(a, b) == RClose(a, b, "1/1000000000", Eps)

Add(r) == /\ res' = Append(res, r)
          /\ ph' = IF Len(res) + 1 = Len(ev) THEN "done" ELSE "next"
          /\ cur' = NoEvent /\ UNCHANGED <<cfg, tr, rows, ev>>

Skip == /\ ph = "next" /\ EndOf(StartOf(E)) = StartOf(E)
        /\ Add([at |-> StartOf(E), touch |-> StartOf(E), lab |-> 0, ret |-> NaN, w |-> NaN])
Open == /\ ph = "next" /\ EndOf(StartOf(E)) > StartOf(E)
        /\ cur' = [t0 |-> StartOf(E), t1 |-> EndOf(StartOf(E)), j |-> StartOf(E) + 1, mu |-> R0, ml |-> R0]
        /\ ph' = "scan" /\ UNCHANGED <<cfg, tr, rows, ev, res>>

Scanning == ph = "scan" /\ cur.j <= cur.t1
Held == RLe(cfg.minc, RSub(Ts(cur.j), Ts(cur.t0)))
Wait == /\ Scanning /\ ~Held
        /\ cur' = [cur EXCEPT !.j = @ + 1] /\ UNCHANGED <<cfg, tr, rows, ph, ev, res>>

UpHit == RLe(Up, RetAt(cur.j))
DnHit == RLe(RetAt(cur.j), Dn)
\* binary64 logarithms: on the barrier itself either outcome is allowed, unless nothing was rounded
Unsure == \/ Near(RetAt(cur.j), Up) /\ ~(REq(RetAt(cur.j), R0) /\ REq(Up, R0))
          \/ Near(RetAt(cur.j), Dn) /\ ~(REq(RetAt(cur.j), R0) /\ REq(Dn, R0))
Label(r, pos) == IF cfg.meta THEN (IF pos THEN 1 ELSE 0) ELSE IF RLt(r, R0) THEN -1 ELSE 1
\* meta labels compare the return with the minimum return
PosOk(r, pos) == pos = RLe(cfg.minret, r) \/ (Near(r, cfg.minret) /\ ~(REq(r, R0) /\ REq(cfg.minret, R0)))

Progress(b, m) == IF Active(b) THEN RMax(m, RDiv(RetAt(cur.j), b)) ELSE m
Drift == /\ Scanning /\ Held /\ (Unsure \/ ~(UpHit \/ DnHit))
         /\ cur' = [cur EXCEPT !.j = @ + 1,
                               !.mu = IF RLt(R0, RetAt(cur.j)) THEN Progress(Up, @) ELSE @,
                               !.ml = IF RLt(RetAt(cur.j), R0) THEN Progress(Dn, @) ELSE @]
         /\ UNCHANGED <<cfg, tr, rows, ph, ev, res>>
Touch(pos) == /\ Scanning /\ Held /\ (Unsure \/ UpHit \/ DnHit) /\ PosOk(RetAt(cur.j), pos)
              /\ Add([at |-> cur.t0, touch |-> cur.j, lab |-> Label(RetAt(cur.j), pos), ret |-> RetAt(cur.j), w |-> R1])

\* how close the path came to the barrier its label claims, against the other one
Closeness(r) == LET own == IF RLt(R0, r) THEN Up ELSE Dn
                    x == IF RLt(R0, r) THEN RDiv(cur.mu, RAdd(R1, cur.ml)) ELSE RDiv(cur.ml, RAdd(R1, cur.mu))
                IN  IF Active(own) THEN RMin(x, R1) ELSE NaN
Expire(pos) == /\ ph = "scan" /\ cur.j > cur.t1 /\ PosOk(RetAt(cur.t1), pos)
               /\ LET r == RetAt(cur.t1)
                  IN  Add([at |-> cur.t0, touch |-> cur.t1, lab |-> Label(r, pos), ret |-> r, w |-> Closeness(r)])

Next == Screen \/ Skip \/ Open \/ Wait \/ Drift \/ (\E pos \in BOOLEAN : Touch(pos) \/ Expire(pos))
Over == ph \in {"done", "none"}

\* ---------------------------------------------------------------- properties of the design
\* a result depends on no trade beyond its window, and its touch lies in the window
InWindow == \A k \in 1..Len(res) : /\ res[k].at <= res[k].touch
                                   /\ RLe(Ts(res[k].touch), RAdd(Ts(res[k].at), cfg.vb))
\* nothing before the touch had reached a barrier
Back(k) == [e |-> ev[k], s |-> IF cfg.meta THEN ev[k].side ELSE R1]
RetFrom(k, i) == RMul(RSub(RLn(Px(i)), RLn(Px(res[k].at))), Back(k).s)
Lim(k, up) == LET m == IF up THEN cfg.top ELSE cfg.bot
              IN  IF Infinite(m) THEN "inf" ELSE RMul(ev[k].tgt, m)
Inside(k, i) == RLt(RetFrom(k, i), Lim(k, TRUE)) /\ RLt(RNeg(Lim(k, FALSE)), RetFrom(k, i))
LongEnough(k, i) == RLe(cfg.minc, RSub(Ts(i), Ts(res[k].at)))
FirstTouch == \A k \in 1..Len(res) :
    res[k].touch > res[k].at =>
      /\ \A i \in res[k].at + 1..res[k].touch - 1 : LongEnough(k, i) => Inside(k, i)
      /\ \/ LongEnough(k, res[k].touch) /\ ~Inside(k, res[k].touch) /\ res[k].w = R1
         \/ res[k].touch = EndOf(res[k].at)
LabelsOk == \A k \in 1..Len(res) : IF cfg.meta THEN res[k].lab \in {0, 1}
                                   ELSE res[k].lab \in {-1, 1} \/ (res[k].touch = res[k].at /\ res[k].lab = 0)
WeightsOk == \A k \in 1..Len(res) : RIsNaN(res[k].w) \/ (RLe(R0, res[k].w) /\ RLe(res[k].w, R1))
\* mirrored prices and barriers give mirrored returns: stated on traces of the code in the check
=============================================================================
