----------------------------- MODULE MCBarStore -----------------------------
EXTENDS BarStore, Json
CONSTANTS MaxL, Ts, Emits
VARIABLE hist
mvars == <<bvars, hist>>
Mon == <<"2024-01", "2024-02">>
\* one to three trades of a month: 2024-01 ends, and 2024-02 begins, at 0
Of(k) == {t \in {u - 16 : u \in Ts} : IF k = "2024-01" THEN t < 0 ELSE t >= 0}
Batches(k) == {<<a>> : a \in Of(k)} \cup {<<a, b>> \in Of(k) \X Of(k) : a <= b}
Tr(ts, p) == [i \in 1..Len(ts) |-> [t |-> ts[i], p |-> p + i, q |-> 2 * i - 1]]
Have == SelectSeq(Mon, LAMBDA k : k \in DOMAIN bars)
Kept == SelectSeq(Mon, LAMBDA k : k \in DOMAIN trades)
H(e) == hist' = Append(hist, e)
MCNext == /\ Len(hist) < MaxL
          /\ \/ \E i \in {1, 2} : \E ts \in Batches(Mon[i]) :
                  SaveTrades(Mon[i], Tr(ts, 10 * i + Len(hist))) /\ H([op |-> "save", key |-> Mon[i], tr |-> Tr(ts, 10 * i + Len(hist)), over |-> TRUE])
             \/ \E i \in {1, 2}, o \in BOOLEAN : Process(Mon[i], o) /\ H([op |-> "process", key |-> Mon[i], tr |-> <<>>, over |-> o])
             \/ Kept # <<>> /\ \E o \in BOOLEAN : ProcessAll(Kept, o) /\ H([op |-> "all", key |-> "", tr |-> <<>>, over |-> o])
MCSpec == Init0 /\ hist = <<>> /\ [][MCNext]_mvars
OnceI == Have # <<>> => Once(Have) /\ Counted(Have)
ConservesI == Have # <<>> => Conserves(Have, 1) /\ Conserves(Have, 2) /\ Conserves(Have, 60)
PrintRun == (Emits /\ Len(hist) = MaxL /\ Have # <<>>) => PrintT("@@" \o ToJson(hist))
=============================================================================
