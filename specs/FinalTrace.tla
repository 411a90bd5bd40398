----------------------------- MODULE FinalTrace -----------------------------
EXTENDS Final, Json, IOUtils
VARIABLES rid, bad
tvars == <<vars, rid, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
O == Run.out
TraceInit == /\ rid \in 1..Len(Runs) /\ bad = <<>> /\ us = Runs[rid].in.u /\ rs = Runs[rid].in.r /\ vs = Runs[rid].in.v
             /\ labs = Runs[rid].in.lab /\ c = Runs[rid].in.c /\ mis = Runs[rid].in.mis /\ Init0
Near(x, y) == RClose(x, y, "1/100000000", "1/1000000000")
All(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : j <= Len(t) => Near(s[j], t[j])
\* whether the weights vanish is decided up to binary64 noise
Noise == IF Degenerate THEN FALSE ELSE RLt(RSum(Raw), "1/1000000000000")
Clauses == [evaluated |-> O.none = (ph' = "none") \/ (ph = "decay" /\ k > n /\ Noise),
            decay |-> ph' # "done" \/ O.none \/ All(decay, O.decay),
            parts |-> ph' # "done" \/ O.none \/ (O.vert = vs /\ IF rs = <<>> THEN O.attr = <<>> ELSE All([j \in 1..n |-> Info(j)], O.attr)),
            weights |-> ph' # "done" \/ O.none \/ All(w', O.w)]
Check == IF ph' \in {"done", "none"} THEN SetToSeq({x \in DOMAIN Clauses : ~Clauses[x]}) ELSE <<>>
TraceNext == bad = <<>> /\ Next /\ bad' = Check /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ Over) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
