------------------------------- MODULE Final -------------------------------
(***************************************************************************)
(* Final sample weights (SampleWeights.compute_final_weights): time decay, *)
(* then the information weights, then the scale, then the class balance.   *)
(***************************************************************************)
EXTENDS Rat, SequencesExt, FiniteSets
VARIABLES us, rs, vs, labs, c,  \* uniqueness; attribution, vertical weights and labels (each may be absent: <<>>); intercept
          mis,  \* which of them is indexed by other samples than the uniqueness is ("": none)
          ph, k, cum, decay, w
vars == <<us, rs, vs, labs, c, mis, ph, k, cum, decay, w>>
n == Len(us)
Init0 == ph = "decay" /\ k = 1 /\ cum = R0 /\ decay = <<>> /\ w = <<>>
Total == RSum(us)
\* the newest sample has weight one; a negative intercept erases the oldest part of the uniqueness
Line(x) == IF c = "-1" THEN (IF x = Total THEN R1 ELSE R0)  \* the line is vertical: all but the newest is erased
           ELSE IF RLe(R0, c) THEN RAdd(c, RMul(RSub(R1, c), RDiv(x, Total)))
           ELSE RMax(R0, RDiv(RAdd(RDiv(x, Total), c), RAdd(R1, c)))
\* weights of other samples are no weights of these: the call is refused
Foreign == (mis = "r" /\ rs # <<>>) \/ (mis = "v" /\ vs # <<>>) \/ (mis = "lab" /\ labs # <<>>)
Refuse == /\ ph = "decay" /\ k = 1 /\ Foreign /\ ph' = "none" /\ UNCHANGED <<us, rs, vs, labs, c, mis, k, cum, decay, w>>
Decay == /\ ph = "decay" /\ k <= n /\ ~Foreign
         /\ cum' = RAdd(cum, us[k]) /\ decay' = Append(decay, Line(cum')) /\ k' = k + 1
         /\ UNCHANGED <<us, rs, vs, labs, c, mis, ph, w>>
Info(j) == IF rs = <<>> THEN us[j] ELSE RDiv(RMul(rs[j], R(n)), RSum(rs))
Vert(j) == IF vs = <<>> THEN R1 ELSE vs[j]
Degenerate == (rs # <<>> /\ ~RLt(R0, RSum(rs)))
Raw == [j \in 1..n |-> RMul(RMul(decay[j], Info(j)), Vert(j))]
Combine == /\ ph = "decay" /\ k > n /\ ~Foreign
           /\ IF Degenerate THEN ph' = "none" /\ w' = <<>>
              ELSE IF ~RLt(R0, RSum(Raw)) THEN ph' = "none" /\ w' = <<>>
              ELSE ph' = "combined" /\ w' = Raw
           /\ UNCHANGED <<us, rs, vs, labs, c, mis, k, cum, decay>>
Scale == /\ ph = "combined"
         /\ w' = [j \in 1..n |-> RDiv(w[j], RMean(w))]
         /\ ph' = IF labs = <<>> THEN "done" ELSE "scaled"
         /\ UNCHANGED <<us, rs, vs, labs, c, mis, k, cum, decay>>
Of(l, s) == RSum([j \in 1..n |-> IF labs[j] = l THEN s[j] ELSE R0])
Classes == {labs[j] : j \in 1..n}
Balance == /\ ph = "scaled"
           /\ w' = [j \in 1..n |-> IF RLt(R0, Of(labs[j], w))
                                   THEN RDiv(RMul(w[j], RSum(w)), RMul(R(Cardinality(Classes)), Of(labs[j], w))) ELSE R0]
           /\ ph' = "done" /\ UNCHANGED <<us, rs, vs, labs, c, mis, k, cum, decay>>
Next == Refuse \/ Decay \/ Combine \/ Scale \/ Balance
Over == ph \in {"done", "none"}

DecayRange == \A j \in 1..Len(decay) : RLe(R0, decay[j]) /\ RLe(decay[j], R1)
DecayMonotone == /\ \A j \in 1..Len(decay) - 1 : RLe(decay[j], decay[j + 1])
                 /\ (Len(decay) = n => decay[n] = R1)
MeanOne == (ph = "scaled" \/ (ph = "done" /\ labs = <<>>)) => RSum(w) = R(n)
\* every class that has weight at all has the same weight
Balanced == (ph = "done" /\ labs # <<>>) =>
               \A l \in Classes : LET s == Of(l, w) IN s = R0 \/ s = RDiv(R(n), R(Cardinality(Classes)))
=============================================================================
