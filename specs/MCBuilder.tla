----------------------------- MODULE MCBuilder -----------------------------
EXTENDS Builder, Json
CONSTANTS MaxL, Kinds, Views, Emits
VARIABLE hist
mvars == <<vars, hist>>
H(r) == hist' = Append(hist, r)
MCNext == /\ Len(hist) < MaxL
          /\ \/ \E v \in Views : SetView(v) /\ H([op |-> "view", arg |-> v, b |-> 0])
             \/ SetBadView /\ H([op |-> "badview", arg |-> "", b |-> 0])
             \/ ReadTrades /\ H([op |-> "trades", arg |-> "", b |-> 0])
             \/ \E k \in Kinds : Len(blds) < 2 /\ Create(k) /\ H([op |-> "new", arg |-> k, b |-> 0])
             \/ \E b \in 1..2, t \in Tables : Call(b, t) /\ H([op |-> "call", arg |-> t, b |-> b])
MCSpec == Init0 /\ hist = <<>> /\ [][MCNext]_mvars
Seen == Len(hist) = MaxL /\ \E i \in 1..Len(hist) : hist[i].op = "call"
PrintRun == (Emits /\ Seen) => PrintT("@@" \o ToJson(hist))
=============================================================================
