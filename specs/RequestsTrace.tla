--------------------------- MODULE RequestsTrace ---------------------------
(* run.in = [kind, f]; run.out = [done, class, kept]: what the code answered. *)
EXTENDS Requests, Json, IOUtils, SequencesExt
VARIABLES rid, bad
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Failing(c) == SetToSeq({f \in DOMAIN c : ~c[f]})
Init == rid \in 1..Len(Runs) /\ bad = Failing(Right(Run.in.kind, Run.in.f, Run.out))
TraceSpec == Init /\ [][FALSE]_<<rid, bad>>
Verdict == PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
