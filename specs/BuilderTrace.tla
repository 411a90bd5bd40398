---------------------------- MODULE BuilderTrace ----------------------------
(* run.in.hist: calls; run.out.got: what each returned (a digest, "refused" or "ok");
   run.out.ref: digests computed afresh, from <<table, kind, view>>; run.out.touched: caller's arrays that changed. *)
EXTENDS Builder, Json, IOUtils
VARIABLES rid, bad, n
tvars == <<vars, rid, bad, n>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Ev == Run.in.hist[n]
TraceInit == rid \in 1..Len(Runs) /\ bad = <<>> /\ n = 1 /\ Init0
Step == CASE Ev.op = "view" -> SetView(Ev.arg)
          [] Ev.op = "badview" -> SetBadView
          [] Ev.op = "trades" -> ReadTrades
          [] Ev.op = "new" -> Create(Ev.arg)
          [] Ev.op = "call" -> Call(Ev.b, Ev.arg)
Ref(key) == LET ks == {i \in 1..Len(Run.out.ref) : Run.out.ref[i].key = key}
            IN IF ks = {} THEN "no reference" ELSE Run.out.ref[CHOOSE i \in ks : TRUE].dig
Want == CASE Ev.op = "view" -> "ok" [] Ev.op = "badview" -> "refused" [] Ev.op = "new" -> "ok"
          [] Ev.op = "trades" -> Ref(<<"trades", "", told'[2]>>)
          [] Ev.op = "call" -> Ref(told')
Check == (IF Run.out.got[n] # Want THEN <<"call " \o ToString(n) \o " (" \o Ev.op \o " " \o Ev.arg \o ") differs from a fresh computation">> ELSE <<>>)
         \o (IF n = Len(Run.in.hist) /\ Len(Run.out.touched) > 0 THEN <<"changed: " \o Run.out.touched[1]>> ELSE <<>>)
TraceNext == bad = <<>> /\ n <= Len(Run.in.hist) /\ Step /\ bad' = Check /\ n' = n + 1 /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ n > Len(Run.in.hist)) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
