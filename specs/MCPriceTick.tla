---------------------------- MODULE MCPriceTick ----------------------------
EXTENDS PriceTick, Json
CONSTANTS MaxN, Pxs, Runs, Emits
MCSpec == Init0 /\ [][Len(seen) < MaxN /\ count <= Sample + 1 /\ \E p \in Pxs, m \in Runs : See(p, m) \/ Pass(m)]_tkvars
Bounded == count < Sample + 5000
Divisors == Coarsest(60)
PrintRun == (Emits /\ Len(seen) >= 1) => PrintT("@@" \o ToJson([px |-> seen]))
=============================================================================
