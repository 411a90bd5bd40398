--------------------------- MODULE FootprintTrace ---------------------------
(* run.in = [bars, hist]; run.out.steps[n].all: the bars of every container after the call, as the code has them;
   for "table" also .table, for "bar" .bar. *)
EXTENDS Footprint, Json, IOUtils
VARIABLES rid, bad, n, ph
tvars == <<fps, rid, bad, n, ph>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Ev == Run.in.hist[n]
St == Run.out.steps[n]
\* bars that share a time may be listed together, by price
Listed(t, s) == /\ Len(t) = Len(Table(s)) /\ \A k \in 1..Len(t) - 1 : t[k].at <= t[k + 1].at
                /\ \A b \in 0..Len(s) - 1 : SelectSeq(t, LAMBDA r : r.bar = b) = SelectSeq(Table(s), LAMBDA r : r.bar = b)
TraceInit == rid \in 1..Len(Runs) /\ bad = <<>> /\ n = 1 /\ ph = "act" /\ Init0(Runs[rid].in.bars)
Step == CASE Ev.op = "slice" -> Slice(Ev.k, Ev.a, Ev.b, Ev.st)
          [] Ev.op = "time" -> ByTime(Ev.k, Ev.a[1], Ev.b[1])
          [] Ev.op = "cast" -> Cast(Ev.k, IF Ev.st = 0 THEN "array" ELSE "list")
          [] OTHER -> Look
Clauses == [bars |-> Len(St.all) = Len(fps) /\ \A k \in 1..Len(fps) : k <= Len(St.all) => St.all[k].bars = fps[k].bars,
            length |-> \A k \in 1..Len(fps) : k <= Len(St.all) => St.all[k].len = Len(fps[k].bars),
            kind |-> Ev.op = "cast" => St.all[Ev.k].kind = fps[Ev.k].kind,
            valid |-> \A k \in 1..Len(fps) : k <= Len(St.all) => St.all[k].valid,
            table |-> Ev.op = "table" => Listed(St.table, fps[Ev.k].bars),
            bar |-> Ev.op = "bar" => LET s == fps[Ev.k].bars
                                         i == Ev.a[1]
                                     IN IF i >= Len(s) \/ i < -Len(s) THEN St.bar = <<>> ELSE St.bar = <<s[IF i < 0 THEN i + Len(s) + 1 ELSE i + 1]>>]
Check == SetToSeq({f \in DOMAIN Clauses : ~Clauses[f]})
Act == ph = "act" /\ bad = <<>> /\ n <= Len(Run.in.hist) /\ Step /\ ph' = "judge" /\ UNCHANGED <<rid, bad, n>>
Jdg == ph = "judge" /\ bad' = Check /\ n' = n + 1 /\ ph' = "act" /\ UNCHANGED <<fps, rid>>
TraceSpec == TraceInit /\ [][Act \/ Jdg]_tvars
Verdict == (ph = "act" /\ (bad # <<>> \/ n > Len(Run.in.hist))) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
