--------------------------- MODULE BarStoreTrace ---------------------------
(* run.in = [months, hist]; run.out.steps[n] = [res, rows, ...]: what the code answered. *)
EXTENDS BarStore, Json, IOUtils
VARIABLES rid, bad, n, ph
tvars == <<bvars, rid, bad, n, ph>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Ev == Run.in.hist[n]
St == Run.out.steps[n]
TraceInit == rid \in 1..Len(Runs) /\ bad = <<>> /\ n = 1 /\ ph = "act" /\ Init0
Sorted(S) == SelectSeq(Run.in.months, LAMBDA k : k \in S)
Asked == IF Ev.keys = <<>> THEN Sorted(DOMAIN trades) ELSE Ev.keys
CanAll == DOMAIN trades # {} /\ \A i \in 1..Len(Asked) : Asked[i] \in DOMAIN trades
Want == CASE Ev.op = "save" -> "ok"
          [] Ev.op = "process" -> IF Ev.key \notin DOMAIN trades THEN "error" ELSE IF Makes(Ev.key, Ev.over) THEN "made" ELSE "skipped"
          [] Ev.op = "all" -> IF CanAll THEN "ok" ELSE "error"
          [] OTHER -> "ok"
WantAll == IF CanAll THEN [i \in 1..Len(Asked) |-> [key |-> Asked[i], made |-> Makes(Asked[i], Ev.over)]] ELSE <<>>
Step == CASE Ev.op = "save" -> SaveTrades(Ev.key, Ev.tr)
          [] Ev.op = "process" /\ Ev.key \in DOMAIN trades -> Process(Ev.key, Ev.over)
          [] Ev.op = "all" /\ CanAll -> ProcessAll(Asked, Ev.over)
          [] OTHER -> UNCHANGED bvars
\* the answer to a call is judged before it takes effect, what is read after it
Answer == IF St.res # Want \/ (Ev.op = "all" /\ St.res = "ok" /\ St.all # WantAll) THEN <<"answer to " \o Ev.op>> ELSE <<>>
Have == Sorted(DOMAIN bars)
Near(x, y) == RClose(x, y, "1/100000", "1/1000000000")
RowOk(x, y) == /\ x.at = y.at /\ REq(x.o, y.o) /\ REq(x.h, y.h) /\ REq(x.l, y.l) /\ REq(x.c, y.c)
               /\ Near(x.v, y.v) /\ x.n = y.n /\ Near(x.w, y.w) /\ Near(x.m, y.m)
Should == IF DOMAIN bars = {} THEN <<>> ELSE IF Ev.tf = 0 THEN Seconds(Have, Ev.lo, Ev.hi) ELSE Resampled(Have, Ev.lo, Ev.hi, Ev.tf)
ReadClauses == [labels |-> Len(St.rows) = Len(Should) /\ \A i \in 1..Len(Should) : St.rows[i].at = Should[i].at,
                rows |-> \A i \in 1..Len(Should) : i <= Len(St.rows) /\ St.rows[i].at = Should[i].at => RowOk(St.rows[i], Should[i])]
KeyClauses == [listed |-> St.keys = Have,
               range |-> DOMAIN bars # {} => /\ St.first \in Labels /\ St.last \in Labels
                                             /\ \A L \in Labels : St.first <= L /\ L <= St.last]
Failing(c) == SetToSeq({f \in DOMAIN c : ~c[f]})
Check == IF Ev.op = "read" THEN Failing(ReadClauses) ELSE IF Ev.op = "keys" THEN Failing(KeyClauses) ELSE <<>>
Act == ph = "act" /\ bad = <<>> /\ n <= Len(Run.in.hist) /\ bad' = Answer /\ Step /\ ph' = "judge" /\ UNCHANGED <<rid, n>>
Jdg == ph = "judge" /\ bad' = bad \o Check /\ n' = n + 1 /\ ph' = "act" /\ UNCHANGED <<bvars, rid>>
TraceSpec == TraceInit /\ [][Act \/ Jdg]_tvars
Verdict == (ph = "act" /\ (bad # <<>> \/ n > Len(Run.in.hist))) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
