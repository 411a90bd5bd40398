------------------------------ MODULE MCBarAgg ------------------------------
EXTENDS BarAgg, Json
CONSTANTS MaxN, Prices, Vols, Sides, Thetas, Emits
ASSUME MaxN \in Nat
Trades == [px : Prices, vol : Vols, side : Sides]
\* nondecreasing close indices from the anchor to the last trade, with empty bars allowed behind it
Closes(n) == LET hi == n - 1
             IN  {c \in [1..3 -> -1..hi] : c[1] \in {-1, 0} /\ c[1] < c[2] /\ c[2] <= c[3]}
                 \cup {c \in [1..2 -> -1..hi] : c[1] \in {-1, 0} /\ c[1] < c[2] /\ c[2] = hi}
MCInit == /\ \E n \in 1..MaxN : tr \in [1..n -> Trades]
          /\ cl \in Closes(Len(tr))
          /\ par \in {[theta |-> [k \in 1..Len(cl) - 1 |-> t], mult |-> "2", tick |-> "1", factor |-> "2"] : t \in Thetas}
          /\ Init0
MCNext == Take \/ Close
MCSpec == MCInit /\ [][MCNext]_vars
PrintRun == (Emits /\ b = Len(cl)) => PrintT("@@" \o ToJson([tr |-> tr, cl |-> cl, par |-> par]))
=============================================================================
