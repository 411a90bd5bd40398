------------------------------ MODULE MCTrades ------------------------------
EXTENDS Trades, Json
CONSTANTS MaxN, IdSet, TsSet, PxSet, AmSet, MkSet, Ress, Emits
Rows == [id : IdSet, ts : TsSet, px : PxSet, am : AmSet, mk : MkSet]
MCInit == /\ inp \in {[unit |-> "s", res |-> r, maker |-> m] : r \in Ress, m \in BOOLEAN}
          /\ \E n \in 1..MaxN : raw \in [1..n -> Rows]
          /\ (~inp.maker => \A i \in 1..Len(raw) : ~raw[i].mk)
          /\ Init0
MCSpec == MCInit /\ [][Next]_vars
PrintRun == (Emits /\ st = "ready") => PrintT("@@" \o ToJson([inp |-> inp, raw |-> raw]))
=============================================================================
