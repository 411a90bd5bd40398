---------------------------- MODULE OverlapTrace ----------------------------
EXTENDS Overlap, Json, IOUtils
VARIABLES rid, bad
tvars == <<vars, rid, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
O == Run.out
TraceInit == /\ rid \in 1..Len(Runs) /\ bad = <<>> /\ tr = Runs[rid].in.tr /\ evs = Runs[rid].in.ev
             /\ norm = Runs[rid].in.norm /\ Init0
\* rounding of log returns of size one or less grows with the scale of a normalised attribution
Scale == IF norm /\ ~Flat THEN RMax("1", RDiv(Count(DOMAIN evs), RSum(Times(Abs)))) ELSE "1"
Near(x, y, d) == RClose(x, y, "1/1000000000", d)
All(s, t, d) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : k <= Len(t) => Near(s[k], t[k], d)
Clauses == [evaluated |-> ~O.none \/ Flat, uniqueness |-> O.none \/ All(uniq', O.uniq, "1/1000000000000"),
            attribution |-> O.none \/ Flat \/ All(attr', O.attr, RDiv(Scale, "1000000000000"))]
\* more labels at one trade than 16 bits hold
Crowd == \E j \in 0..Len(tr) - 1 : RLt("32767", Count(Living(j)))
Check == IF ph' # "done" THEN <<>> ELSE SetToSeq({(IF Crowd THEN "crowd_" ELSE "") \o c : c \in {d \in DOMAIN Clauses : ~Clauses[d]}})
TraceNext == bad = <<>> /\ Next /\ bad' = Check /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ ph = "done") => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
