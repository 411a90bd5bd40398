------------------------------ MODULE VpTrace ------------------------------
(* Volume profiles that the code computed, against VolumeProfile.  run.in = [bars, calls]; a call is
   [fn, w, nb, va, x, y]; run.out[n] = [exc, at, poc, hva, lva, above]: columns in ticks. *)
EXTENDS VolumeProfile, Json, IOUtils
VARIABLES rid, ph, n, bad
tvars == <<rid, ph, n, bad, vvars>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Call == Run.in.calls[n]
O == Run.out.calls[n]
TraceInit == /\ rid \in 1..Len(Runs) /\ ph = "act" /\ n = 1 /\ bad = <<>>
             /\ bars = Runs[rid].in.bars /\ par = <<>> /\ prof = <<>> /\ area = None /\ out = <<>> /\ st = "read"
Named == IF Call.fn = "range" THEN Between(bars, RSub(Call.x, Call.w), Call.y)
         ELSE IF Call.fn = "developing" THEN Between(bars, Call.x, Call.y) ELSE bars
Want == IF Call.fn = "developing" THEN Developing(Named, Call.nb, Call.va) ELSE Rolling(Named, Call.w, Call.nb, Call.va)
\* a bar without a profile: not a number (a class method), or zero (a function)
Blank(v) == v = NaN \/ v = R0
Good(i) == LET w == out[i]
           IN  IF w = <<>> THEN Blank(O.poc[i]) /\ Blank(O.hva[i]) /\ Blank(O.lva[i])
               ELSE /\ REq(O.poc[i], R(w[1].poc))
                    /\ \E e \in w[1].ends : REq(O.hva[i], R(e.hi)) /\ REq(O.lva[i], R(e.lo))
                    /\ Call.fn # "developing" => RClose(O.above[i], w[1].above, "1/100000", "1/1000000")
Act == ph = "act" /\ n <= Len(Run.in.calls) /\ bad = <<>> /\ out' = Want /\ prof' = Named /\ ph' = "judge" /\ UNCHANGED <<rid, n, bad, bars, par, area, st>>
Jdg == /\ ph = "judge" /\ ph' = "act" /\ n' = n + 1 /\ UNCHANGED <<rid, vvars>>
       /\ bad' = IF O.exc # "" THEN <<Call.fn \o ": raised " \o O.exc>>
                 ELSE IF O.at # [i \in 1..Len(prof) |-> prof[i].at] THEN <<Call.fn \o ": other bars">>
                 ELSE IF ~(Len(O.poc) = Len(out) /\ Len(O.hva) = Len(out) /\ Len(O.lva) = Len(out)) THEN <<Call.fn \o ": shape">>
                 ELSE LET w == {i \in 1..Len(out) : ~Good(i)} IN IF w = {} THEN <<>> ELSE <<Call.fn \o ": bar " \o ToString(MinOf(w))>>
TraceSpec == TraceInit /\ [][Act \/ Jdg]_tvars
Verdict == (ph = "act" /\ (bad # <<>> \/ n > Len(Run.in.calls))) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
