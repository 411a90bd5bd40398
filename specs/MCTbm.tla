------------------------------- MODULE MCTbm -------------------------------
(* Small trade sequences with every event; complete behaviours are printed for replay. *)
EXTENDS Tbm, Json, FiniteSets
CONSTANTS MaxN, Gaps, Prices, Tgts, Bots, Tops, Vbs, Mincs, Minrets, Sides, NEv, Emits
G(n) == [1..n -> Gaps]
RECURSIVE Clock(_, _)
Clock(g, k) == IF k = 1 THEN R0 ELSE RAdd(Clock(g, k - 1), g[k - 1])
MCInit == /\ Init0
          /\ \E n \in 2..MaxN : \E g \in [1..n - 1 -> Gaps], p \in [1..n -> Prices] :
                tr = [k \in 1..n |-> [ts |-> Clock(g, k), px |-> p[k]]]
          /\ cfg \in [bot : Bots, top : Tops, vb : Vbs, minc : Mincs, minret : Minrets, meta : {Sides # {"0"}}]
          /\ \E n \in 1..NEv : \E t \in [1..n -> Tgts], s \in [1..n -> Sides], d \in [1..n -> 0..Len(tr) - 1] :
                /\ \A k \in 1..n - 1 : d[k] < d[k + 1]
                /\ rows = [k \in 1..n |-> [ts |-> Ts(d[k]), tgt |-> t[k], side |-> s[k], f |-> R1, at |-> d[k]]]
MCSpec == MCInit /\ [][Next]_vars
Total == ~Over => ENABLED Next
PrintRun == (Emits /\ Over) => PrintT("@@" \o ToJson([cfg |-> cfg, tr |-> tr, rows |-> rows]))
=============================================================================
