---------------------------- MODULE MCLabelSet ----------------------------
EXTENDS LabelSet, Json
CONSTANTS MaxL, Lasts
VARIABLE hist
mvars == <<vars, hist>>
H(op, i) == hist' = Append(hist, [op |-> op, i |-> i])
MCNext == /\ Len(hist) < MaxL
          /\ \/ \E i \in 1..Len(Lasts) : Label(i, Lasts[i]) /\ H("label", i)
             \/ LabelOther /\ H("other", 0)
             \/ Weigh /\ H("weigh", 0)
             \/ ReadLabels /\ H("labels", 0)
             \/ ReadReturns /\ H("returns", 0)
             \/ ReadEvents /\ H("events", 0)
LastsV == <<1, 2, 4, 5>>
MCSpec == ends = <<2, 3, 5>> /\ Init0 /\ hist = <<>> /\ [][MCNext]_mvars
\* a set that was labelled on trades i shows the events whose windows those trades cover
Covers == out # 0 => shown = Whole(Lasts[out]) /\ shown > 0
PrintRun == Len(hist) = MaxL => PrintT("@@" \o ToJson(hist))
=============================================================================
