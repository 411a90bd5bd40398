--------------------------- MODULE LabelSetTrace ---------------------------
(* run.in = [ends, lasts, hist]; run.out.got: the answers (a digest, or "refused");
   run.out.ref: the same, told by label sets that were labelled once, on those trades. *)
EXTENDS LabelSet, Json, IOUtils
VARIABLES rid, bad, n
tvars == <<vars, rid, bad, n>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Ev == Run.in.hist[n]
TraceInit == rid \in 1..Len(Runs) /\ bad = <<>> /\ n = 1 /\ ends = Run.in.ends /\ Init0
Step == CASE Ev.op = "label" -> Label(Ev.i, Run.in.lasts[Ev.i])
          [] Ev.op = "other" -> LabelOther
          [] Ev.op = "weigh" -> Weigh
          [] Ev.op = "labels" -> ReadLabels
          [] Ev.op = "returns" -> ReadReturns
          [] Ev.op = "events" -> ReadEvents
Ref(key) == LET ks == {i \in 1..Len(Run.out.ref) : Run.out.ref[i].key = key}
            IN IF ks = {} THEN "no reference" ELSE Run.out.ref[CHOOSE i \in ks : TRUE].dig
Want == IF told' = <<"refused">> THEN "refused" ELSE Ref(told')
Check == (IF Run.out.got[n] # Want THEN <<"answer " \o ToString(n) \o " to " \o Ev.op \o " is not that of its last labelling">> ELSE <<>>)
         \o (IF n = Len(Run.in.hist) /\ Len(Run.out.touched) > 0 THEN <<"changed: " \o Run.out.touched[1]>> ELSE <<>>)
TraceNext == bad = <<>> /\ n <= Len(Run.in.hist) /\ Step /\ bad' = Check /\ n' = n + 1 /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ n > Len(Run.in.hist)) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
