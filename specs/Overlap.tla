------------------------------ MODULE Overlap ------------------------------
(***************************************************************************)
(* Information weights of overlapping labels (finmlkit/label/weights.py,   *)
(* label/kit.py): a sweep over the trades.  At each trade the labels whose *)
(* life covers it share it equally: every one of them is credited with an  *)
(* equal part of the trade (uniqueness) and of its log return (return      *)
(* attribution).                                                           *)
(***************************************************************************)
EXTENDS Rat, SequencesExt, FiniteSets
VARIABLES tr,    \* sequence of [px]
          evs,   \* labels: sequence of [s, t, m], first and last trade, counted from 0, and how many such labels there are
          norm,  \* whether the attribution is scaled to sum to the number of labels
          i,     \* next trade of the sweep
          u, a,  \* credits of each label
          ph, uniq, attr
vars == <<tr, evs, norm, i, u, a, ph, uniq, attr>>
Init0 == /\ i = 0 /\ ph = "sweep" /\ uniq = <<>> /\ attr = <<>>
         /\ u = [k \in 1..Len(evs) |-> R0] /\ a = [k \in 1..Len(evs) |-> R0]
Alive(k, j) == evs[k].s <= j /\ j <= evs[k].t
Living(j) == {k \in 1..Len(evs) : Alive(k, j)}
Count(K) == RSum([k \in 1..Len(evs) |-> IF k \in K THEN R(evs[k].m) ELSE R0])
Share(j) == RDiv(R1, Count(Living(j)))
RetOf(j) == IF j = 0 THEN R0 ELSE RLn(RDiv(tr[j + 1].px, tr[j].px))
Trade == /\ ph = "sweep" /\ i < Len(tr)
         /\ u' = [k \in DOMAIN u |-> IF Alive(k, i) THEN RAdd(u[k], Share(i)) ELSE u[k]]
         /\ a' = [k \in DOMAIN a |-> IF Alive(k, i) THEN RAdd(a[k], RMul(RetOf(i), Share(i))) ELSE a[k]]
         /\ i' = i + 1 /\ UNCHANGED <<tr, evs, norm, ph, uniq, attr>>
Times(v) == [k \in DOMAIN v |-> RMul(v[k], R(evs[k].m))]
Life(k) == R(evs[k].t - evs[k].s + 1)
Abs == [k \in DOMAIN a |-> RAbs(a[k])]
Finish == /\ ph = "sweep" /\ i = Len(tr)
          /\ uniq' = [k \in DOMAIN u |-> RDiv(u[k], Life(k))]
          /\ attr' = IF norm THEN [k \in DOMAIN a |-> RDiv(RMul(Abs[k], Count(DOMAIN evs)), RSum(Times(Abs)))] ELSE Abs
          /\ ph' = "done" /\ UNCHANGED <<tr, evs, norm, i, u, a>>
Next == Trade \/ Finish
\* nothing to normalise (up to binary64 noise)
Flat == norm /\ RLt(RSum(Abs), "1/1000000000")

UniqRange == ph = "done" => \A k \in DOMAIN uniq : RLt(R0, uniq[k]) /\ RLe(uniq[k], R1)
\* a label that overlaps with no other is unique, and overlapping reduces uniqueness
Shared == ph = "done" => \A k \in DOMAIN uniq :
            (uniq[k] = R1) <=> evs[k].m = 1 /\ \A j \in evs[k].s..evs[k].t : Living(j) = {k}
\* the trades shared out are the trades covered
Conserved == RSum(Times(u)) = R(Cardinality({j \in 0..i - 1 : Living(j) # {}}))
=============================================================================
