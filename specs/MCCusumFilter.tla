--------------------------- MODULE MCCusumFilter ---------------------------
EXTENDS CusumFilter, Json
CONSTANTS MaxN, Prices, Thrs, Emits
MCSpec == Init0 /\ [][Len(pxs) < MaxN /\ \E p \in Prices, t \in Thrs : First(p, t) \/ Quiet(p, t) \/ Down(p, t) \/ Up(p, t)]_vars
PrintRun == (Emits /\ Len(pxs) >= 2) => PrintT("@@" \o ToJson([px |-> pxs, thr |-> thr]))
=============================================================================
