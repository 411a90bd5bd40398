----------------------------- MODULE TbmTrace -----------------------------
(* run.in = [cfg, tr, rows]; run.out = [none, res: sequence of [ts, at, touch, lab, ret, w, time]] from the label kit. *)
EXTENDS Tbm, Json, IOUtils
VARIABLES rid, bad
tvars == <<vars, rid, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
L == Run.out.res
TraceInit == /\ rid \in 1..Len(Runs) /\ bad = <<>> /\ Init0
             /\ cfg = Runs[rid].in.cfg /\ tr = Runs[rid].in.tr /\ rows = Runs[rid].in.rows
K == Len(res) + 1
Has == K <= Len(L)
\* the log resolves what the specification leaves open
LogTouch == IF Has THEN L[K].touch ELSE -9
LogPos == IF Has THEN L[K].lab = 1 ELSE FALSE
PosStep(r) == IF PosOk(r, LogPos) THEN LogPos ELSE RLe(cfg.minret, r)
Step == \/ Screen \/ Skip \/ Open \/ Wait
        \/ Scanning /\ Held /\ IF Unsure THEN (IF LogTouch = cur.j THEN Touch(PosStep(RetAt(cur.j))) ELSE Drift)
                               ELSE IF UpHit \/ DnHit THEN Touch(PosStep(RetAt(cur.j))) ELSE Drift
        \/ ph = "scan" /\ cur.j > cur.t1 /\ Expire(PosStep(RetAt(cur.t1)))
Off(x, y, w) == w \o ": specification " \o ToString(x) \o ", code " \o ToString(y)
Cmp(k) == LET s == res'[k]
              c == L[k]
          IN  IF k > Len(L) THEN <<"event without a result">>
              ELSE IF ~REq(c.ts, ev[k].ts) THEN <<Off(ev[k].ts, c.ts, "event time")>>
              ELSE IF c.at # s.at THEN <<Off(s.at, c.at, "start of event " \o ToString(k))>>
              ELSE IF c.touch # s.touch THEN <<Off(s.touch, c.touch, "touch of event " \o ToString(k))>>
              ELSE IF ~REq(c.time, Ts(s.touch)) THEN <<Off(Ts(s.touch), c.time, "touch time of event " \o ToString(k))>>
              ELSE IF c.lab # s.lab THEN <<Off(s.lab, c.lab, "label of event " \o ToString(k))>>
              ELSE IF ~RClose(c.ret, s.ret, "1/1000000000", Eps) THEN <<Off(s.ret, c.ret, "return of event " \o ToString(k))>>
              ELSE IF ~RClose(c.w, s.w, "1/1000000", "1/1000000000") THEN <<Off(s.w, c.w, "closeness of event " \o ToString(k))>>
              ELSE <<>>
Check == IF ph = "screen" /\ ph' = "none" THEN (IF Run.out.none THEN <<>> ELSE <<"events kept that should be screened out">>)
         ELSE IF ph = "screen" THEN (IF Run.out.none THEN <<"all events lost">>
                                     ELSE IF Len(L) # Len(ev') THEN <<Off(Len(ev'), Len(L), "number of events kept")>> ELSE <<>>)
         ELSE IF Len(res') > Len(res) THEN Cmp(Len(res')) ELSE <<>>
TraceNext == bad = <<>> /\ ~Over /\ Step /\ bad' = Check /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ Over) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
