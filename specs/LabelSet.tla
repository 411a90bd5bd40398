----------------------------- MODULE LabelSet -----------------------------
(***************************************************************************)
(* A label set as a stateful object (finmlkit/label/kit.py TBMLabel): made *)
(* from features, labelled on trades as often as one likes.  An event can  *)
(* be labelled on trades that reach the end of its window.  What the set   *)
(* shows is that of its last successful labelling; what it shows is named  *)
(* here by the trades it was computed on (Tbm.tla says what labels are).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ends,   \* the ends of the windows of the events it was made from, ascending
          shown,  \* number of events it shows: they are the first of them
          out,    \* the trades its labels are of, or 0
          told    \* the answer to the last request
vars == <<ends, shown, out, told>>
Init0 == shown = Len(ends) /\ out = 0 /\ told = <<>>

\* trades are named by a number; their last one is at time Last(i)
Whole(last) == Cardinality({e \in 1..Len(ends) : ends[e] <= last})
Label(i, last) == /\ IF Whole(last) = 0 THEN told' = <<"refused">> /\ UNCHANGED <<shown, out>>
                     ELSE told' = <<"labels", i>> /\ shown' = Whole(last) /\ out' = i
                  /\ UNCHANGED ends
\* anything else than trades is refused
LabelOther == told' = <<"refused">> /\ UNCHANGED <<ends, shown, out>>
\* weights are those of its labels, on the trades they were computed on
Weigh == told' = (IF out = 0 THEN <<"refused">> ELSE <<"weights", out>>) /\ UNCHANGED <<ends, shown, out>>
ReadLabels == told' = (IF out = 0 THEN <<"refused">> ELSE <<"labels", out>>) /\ UNCHANGED <<ends, shown, out>>
ReadReturns == told' = (IF out = 0 THEN <<"refused">> ELSE <<"returns", out>>) /\ UNCHANGED <<ends, shown, out>>
\* the events it has, with their features and targets
ReadEvents == told' = <<"events", shown>> /\ UNCHANGED <<ends, shown, out>>

\* labels and events belong to each other
Together == out = 0 => shown = Len(ends)
=============================================================================
