-------------------------- MODULE TradeStoreTrace --------------------------
(* run.in = [bounds, hist]: the calls; run.out.steps[n]: what the code answered, and for a save the batch
   as the object held it; steps with a field dump list what the file tells afterwards. *)
EXTENDS TradeStore, Json, IOUtils
VARIABLES rid, bad, n, ph
tvars == <<svars, rid, bad, n, ph>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Ev == Run.in.hist[n]
St == Run.out.steps[n]
TraceInit == rid \in 1..Len(Runs) /\ bad = <<>> /\ n = 1 /\ ph = "act" /\ Init0
B == St.batch
K == IF B.tr = <<>> THEN (IF Ev.key = "" THEN "?" ELSE Ev.key) ELSE KeyFor(Run.in.bounds, Ev.key, B)
IsSave == Ev.op \in {"save", "copy"}
Step == IF ~IsSave THEN UNCHANGED svars
        ELSE IF St.res = "refused" THEN
            IF MayRefuse(K, B, Ev.mode, Ev.over) THEN Refuse(K, B, Ev.mode, Ev.over) ELSE last' = "wrong" /\ UNCHANGED store
        ELSE IF MustRefuse(B) THEN last' = "wrong" /\ UNCHANGED store
        ELSE Save(K, B, Ev.mode, Ev.over)

SortedKeys(S) == LET ix == SortSeq([i \in 1..Len(Run.in.bounds) |-> i], LAMBDA a, b : a < b)
                 IN SelectSeq([i \in 1..Len(ix) |-> Run.in.bounds[ix[i]].key], LAMBDA k : k \in S)
Asked == IF Ev.key # "" THEN (IF Ev.key \in Keys THEN <<Ev.key>> ELSE <<>>) ELSE SortedKeys(Keys)
Want == Load(Asked, Ev.lo, Ev.hi)
Near(x, y) == RClose(x, y, "1/1000000", "1/1000000000")
Same(a, b) == a.t = b.t /\ a.p = b.p /\ a.q = b.q /\ a.s = b.s
SameAll(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(y) : Same(x[i], y[i])
LoadClauses == [load |-> IF Want = <<>> THEN St.res = "nothing" ELSE St.res = "ok" /\ SameAll(St.tr, Want),
                index |-> St.res = "ok" => St.index_ok]
\* the file as a whole
D == St.dump
At(k) == CHOOSE d \in Range(D.months) : d.key = k
Present == {d.key : d \in Range(D.months)}
DumpClauses ==
    [keys |-> Present = Keys /\ Len(D.months) = Cardinality(Keys) /\ D.listed = SortedKeys(Keys),
     contents |-> \A k \in Keys \cap Present : SameAll(At(k).tr, Load(<<k>>, <<>>, <<>>)),
     meta_count |-> \A k \in Keys \cap Present : At(k).count = Len(Trades(k)),
     meta_range |-> \A k \in Keys \cap Present : At(k).first = FirstAt(k) /\ At(k).last = LastAt(k),
     meta_flag |-> \A k \in Keys \cap Present : At(k).ok \in Flag(k),
     meta_missing |-> \A k \in Keys \cap Present : MissOk(k, At(k).miss),
     meta_discontinuities |-> \A k \in Keys \cap Present : At(k).disc = Discs(k),
     meta_statistics |-> \A k \in Keys \cap Present :
        LET tr == Trades(k)
            ps == {r.p : r \in Range(tr)}
            qs == {r.q : r \in Range(tr)}
            s == At(k).stat
        IN /\ s.n = Len(tr) /\ s.first = FirstAt(k) /\ s.last = LastAt(k)
           /\ s.plo \in ps /\ s.phi \in ps /\ \A p \in ps : s.plo <= p /\ p <= s.phi
           /\ s.qlo \in qs /\ s.qhi \in qs /\ \A q \in qs : s.qlo <= q /\ q <= s.qhi,
     meta_summary |-> /\ {x.key : x \in Range(D.summary)} = {k \in Keys : Bad(k)}
                      /\ Len(D.summary) = Cardinality({k \in Keys : Bad(k)})
                      /\ \A x \in Range(D.summary) : x.key \in Keys => x.disc = Discs(x.key) /\ x.count = Len(Trades(x.key))]
GapClauses == [meta_gaps |-> /\ {x.key : x \in Range(St.gaps)} = Keys
                             /\ \A x \in Range(St.gaps) : x.key \in Keys => x.gaps = Gaps(x.key, Ev.max)]
Failing(c) == SetToSeq({f \in DOMAIN c : ~c[f]})
Check == (IF IsSave /\ last = "wrong" THEN <<IF MustRefuse(B) THEN "save accepted nothing" ELSE "save refused valid trades">> ELSE <<>>)
         \o (IF IsSave /\ St.res # "refused" /\ last # "wrong" /\ St.res # last THEN <<"saved under another month">> ELSE <<>>)
         \o (IF Ev.op = "load" THEN Failing(LoadClauses) ELSE <<>>)
         \o (IF Ev.op = "gaps" THEN Failing(GapClauses) ELSE <<>>)
         \o (IF IsSave THEN Failing(DumpClauses) ELSE <<>>)
\* a call is taken, then judged in the state after it
Act == ph = "act" /\ bad = <<>> /\ n <= Len(Run.in.hist) /\ Step /\ ph' = "judge" /\ UNCHANGED <<rid, bad, n>>
Jdg == ph = "judge" /\ bad' = Check /\ n' = n + 1 /\ ph' = "act" /\ UNCHANGED <<svars, rid>>
TraceSpec == TraceInit /\ [][Act \/ Jdg]_tvars
Verdict == (ph = "act" /\ (bad # <<>> \/ n > Len(Run.in.hist))) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
