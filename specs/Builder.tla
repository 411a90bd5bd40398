------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* Bar builders as stateful objects (finmlkit/bar/base.py, data_model.py). *)
(* A set of trades has an active view; a builder is created on the view    *)
(* active at that moment, finds its bar boundaries when first needed and   *)
(* keeps them, and keeps the bars' ranges for the footprints.  What a call *)
(* returns is identified by what it was computed from; `told` is the table *)
(* last returned.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, FiniteSets
VARIABLES view,    \* active view of the trades: "all" or a range's name
          blds,    \* builders: sequence of [kind, of, bounds, ranges]; bounds, ranges: what the caches were computed from
          told     \* <<table, kind, view>> of the last call, or <<>>
vars == <<view, blds, told>>
Nothing == "none"
\* foot, footauto: footprints on a chosen and on an inferred price tick; size, size2: two multipliers of the typical size
Tables == {"ohlcv", "dir", "size", "size2", "foot", "footauto", "bounds"}
Foots == {"foot", "footauto"}

Init0 == view = "all" /\ blds = <<>> /\ told = <<>>

SetView(v) == view' = v /\ told' = <<"view", v>> /\ UNCHANGED blds
\* a range that ends before it begins is refused, and nothing changes
SetBadView == told' = <<"refused">> /\ UNCHANGED <<view, blds>>
ReadTrades == told' = <<"trades", view>> /\ UNCHANGED <<view, blds>>
Create(k) == blds' = Append(blds, [kind |-> k, of |-> view, bounds |-> Nothing, ranges |-> Nothing])
             /\ told' = <<"created", k, view>> /\ UNCHANGED view

\* boundaries are found once, from the trades the builder was created on
Bounds(b) == IF blds[b].bounds = Nothing THEN blds[b].of ELSE blds[b].bounds
Ranges(b) == IF blds[b].ranges = Nothing THEN Bounds(b) ELSE blds[b].ranges
Call(b, t) ==
    /\ b \in DOMAIN blds
    /\ blds' = [blds EXCEPT ![b].bounds = Bounds(b),
                            ![b].ranges = IF t = "ohlcv" THEN Bounds(b) ELSE IF t \in Foots THEN Ranges(b) ELSE @]
    /\ told' = <<t, blds[b].kind, IF t \in Foots THEN Ranges(b) ELSE Bounds(b)>>
    /\ UNCHANGED view

\* what a builder tells depends on what it was created on, and on nothing that happened since
Faithful == \A b \in DOMAIN blds : /\ blds[b].bounds \in {Nothing, blds[b].of}
                                   /\ blds[b].ranges \in {Nothing, blds[b].of}
=============================================================================
