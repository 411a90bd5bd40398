---------------------------- MODULE TradesTrace ----------------------------
(* run.in = [inp, raw]; run.out = [rows, ok, missing, disc, unit] as the code left them. *)
EXTENDS Trades, Json, IOUtils
VARIABLES rid, bad
tvars == <<vars, rid, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
O == Run.out
TraceInit == /\ rid \in 1..Len(Runs) /\ bad = <<>> /\ inp = Runs[rid].in.inp /\ raw = Runs[rid].in.raw /\ Init0
Near(x, y) == RClose(x, y, "1/1000000", "1/1000000000000")
RowOk(x, y) == REq(x.ts, y.ts) /\ REq(x.px, y.px) /\ Near(x.am, y.am) /\ x.side = y.side
Clauses ==
    [unit |-> O.unit = Unit,
     count |-> Len(O.rows) = Len(out),
     timestamps |-> \A i \in 1..Len(out) : i <= Len(O.rows) => REq(O.rows[i].ts, out[i].ts),
     prices |-> \A i \in 1..Len(out) : i <= Len(O.rows) => REq(O.rows[i].px, out[i].px),
     amounts |-> \A i \in 1..Len(out) : i <= Len(O.rows) => Near(O.rows[i].am, out[i].am),
     sides |-> \A i \in 1..Len(out) : i <= Len(O.rows) => O.rows[i].side = out[i].side,
     index |-> O.index_ok,
     integrity_flag |-> (O.ok = "bad") = (info.ok = "bad"),
     missing_pct |-> Near(O.missing, MissingPct),
     discontinuities |-> /\ Len(O.disc) = Len(info.disc)
                         /\ \A i \in 1..Len(info.disc) : i <= Len(O.disc) =>
                               \A f \in DOMAIN info.disc[i] : REq(O.disc[i][f], info.disc[i][f])]
Check == LET w == {c \in DOMAIN Clauses : ~Clauses[c]} IN SetToSeq(w)
TraceNext == /\ bad = <<>> /\ Next /\ UNCHANGED rid
             /\ bad' = IF st' = "ready" THEN Check ELSE <<>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ st = "ready") => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
