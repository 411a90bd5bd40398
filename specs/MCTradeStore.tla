---------------------------- MODULE MCTradeStore ----------------------------
EXTENDS TradeStore, Json
CONSTANTS MaxL, Ids, Modes, Emits
VARIABLE hist
mvars == <<svars, hist>>
\* two months, boundary at 0; batches of one or two trades; 4 and 5 are broken, 6 has other columns, 7 is empty
Bounds == <<[key |-> "A", lo |-> -100, hi |-> 0], [key |-> "B", lo |-> 0, hi |-> 100]>>
T(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], p |-> i, q |-> 1, s |-> 1]]
Bt(i) == CASE i = 1 -> [tr |-> T(<<-9, -7>>), ok |-> "good", miss |-> "0", disc |-> <<>>, cols |-> "x"]
           [] i = 2 -> [tr |-> T(<<-5, -1>>), ok |-> "good", miss |-> "0", disc |-> <<>>, cols |-> "x"]
           [] i = 3 -> [tr |-> T(<<0, 3>>), ok |-> "unknown", miss |-> "0", disc |-> <<>>, cols |-> "x"]
           [] i = 4 -> [tr |-> T(<<-7, -2>>), ok |-> "bad", miss |-> "50", disc |-> <<"d4">>, cols |-> "x"]
           [] i = 5 -> [tr |-> T(<<3, 6>>), ok |-> "bad", miss |-> "10", disc |-> <<"d5", "d6">>, cols |-> "x"]
           [] i = 6 -> [tr |-> T(<<-6, -6>>), ok |-> "good", miss |-> "0", disc |-> <<>>, cols |-> "y"]
           [] i = 7 -> [tr |-> <<>>, ok |-> "good", miss |-> "0", disc |-> <<>>, cols |-> "x"]
SaveOf(i, key, mode, over) ==
    LET b == Bt(i)
        k == IF b.tr = <<>> THEN (IF key = "" THEN "A" ELSE key) ELSE KeyFor(Bounds, key, b)
    IN /\ IF MayRefuse(k, b, mode, over) THEN Refuse(k, b, mode, over) ELSE Save(k, b, mode, over)
       /\ hist' = Append(hist, [b |-> i, key |-> key, mode |-> mode, over |-> over])
MCNext == Len(hist) < MaxL /\ \E i \in Ids, key \in {"", "A"}, mode \in Modes, over \in BOOLEAN : SaveOf(i, key, mode, over)
MCSpec == Init0 /\ hist = <<>> /\ [][MCNext]_mvars
PrintRun == (Emits /\ Len(hist) = MaxL) => PrintT("@@" \o ToJson(hist))
=============================================================================
