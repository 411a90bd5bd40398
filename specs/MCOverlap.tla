----------------------------- MODULE MCOverlap -----------------------------
EXTENDS Overlap, Json
CONSTANTS MaxN, MaxE, Prices, Copies, Emits
MCInit == /\ norm \in BOOLEAN
          /\ \E n \in 1..MaxN : \E p \in [1..n -> Prices] : tr = [k \in 1..n |-> [px |-> p[k]]]
          /\ \E e \in 1..MaxE : \E s, t \in [1..e -> 0..Len(tr) - 1] :
                /\ \A k \in 1..e : s[k] <= t[k] /\ (k < e => s[k] <= s[k + 1])
                /\ \E m \in [1..e -> Copies] : evs = [k \in 1..e |-> [s |-> s[k], t |-> t[k], m |-> m[k]]]
          /\ Init0
MCSpec == MCInit /\ [][Next]_vars
PrintRun == (Emits /\ ph = "done" /\ ~Flat) =>
    PrintT("@@" \o ToJson([tr |-> tr, ev |-> [k \in DOMAIN evs |-> [s |-> evs[k].s, t |-> evs[k].t, m |-> evs[k].m, w |-> R1]], norm |-> norm]))
=============================================================================
