--------------------------- MODULE BarIndexTrace ---------------------------
(* Validates runs of the real bar kits: run.in = [cfg, tr], run.out.em = the (close_ts, close_indices) they gave. *)
EXTENDS BarIndex, Json, IOUtils
VARIABLES rid, bad
tvars == <<vars, rid, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Log == Run.out.em

TraceInit == /\ rid \in 1..Len(Runs) /\ bad = <<>> /\ Init0 /\ cfg = Runs[rid].in.cfg

More == N < Len(Run.in.tr)
T == Run.in.tr[N + 1]
Logged(k) == IF k \in 1..Len(Log) THEN Log[k] ELSE [ts |-> "nothing", idx |-> -2]
Same(a, b) == a.idx = b.idx /\ a.ts = b.ts
Say(k, a, b) == "close " \o ToString(k) \o ": specification " \o ToString(a) \o ", code " \o ToString(b)
\* a logged CUSUM outcome resolves the cases the specification leaves open
LogHit == \E k \in 1..Len(Log) : Log[k].idx = Here
CHit == IF CanDecide THEN (IF Ambiguous THEN LogHit ELSE UpHit \/ DnHit) ELSE FALSE

Step == \/ More /\ (\/ TimeAnchor(T) \/ TimeOnAnchor(T) \/ TimeExtend(T) \/ TimeRollClock(T)
                    \/ ThrAnchor(T) \/ ThrExtend(T) \/ ThrHit(T)
                    \/ CusumWarmUp(T) \/ CusumAnchor(T)
                    \/ CusumExtend(T, ph = "run" /\ ~REq(T.ts, LastT.ts) /\ CHit))
        \/ ~More /\ (TimeFinish(~(ph = "run" /\ RLt("9007199254740991", Span) /\ Len(Log) = Len(em))) \/ ThrFinish \/ CusumFinish(CHit))
\* what is emitted must agree with the log, entry by entry, as it is emitted; the kits do not show the anchor
\* itself, only how many trades the first bar holds, which determines the anchor's index (-99: there is no bar)
\* the volatility a CUSUM bar is reported to have been decided on is the one known at its last trade
SigmaWrong == /\ cfg.kind = "cusum" /\ Len(em') > Len(em) /\ Len(em) > 0
              /\ Len(em) \in 1..Len(Run.out.sigma) /\ ~REq(Run.out.sigma[Len(em)], acc.sg)
Check == LET ks == {k \in 2..Len(em') : k > Len(em) /\ ~Same(em'[k], Logged(k - 1))}
         IN  IF ks # {} THEN LET k == CHOOSE x \in ks : \A y \in ks : x <= y IN <<Say(k - 1, em'[k], Logged(k - 1))>>
             ELSE IF SigmaWrong THEN <<"volatility of close " \o ToString(Len(em)) \o ": specification " \o ToString(acc.sg) \o ", code " \o ToString(Run.out.sigma[Len(em)])>>
             ELSE IF ph' # "done" THEN <<>>
             ELSE IF Len(Log) # Len(em') - 1
                  THEN <<"number of bars: specification " \o ToString(Len(em') - 1) \o ", code " \o ToString(Len(Log))>>
             ELSE IF cfg.kind = "cusum" /\ Len(Run.out.sigma) # Len(Log) THEN <<"number of volatilities: " \o ToString(Len(Run.out.sigma))>>
             ELSE IF Len(Log) > 0 /\ Run.out.anchor # em'[1].idx
                  THEN <<"trades of the first bar: they start behind index " \o ToString(em'[1].idx)
                         \o " by the specification, " \o ToString(Run.out.anchor) \o " by the code">>
             ELSE <<>>
TraceNext == \/ bad = <<>> /\ ph # "done" /\ Step /\ bad' = Check /\ UNCHANGED rid
\* the design's own properties, on the runs of the code
Design == Ordered /\ Partition /\ TimeGrid /\ NoSplitBlock /\ CusumSigns
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == /\ (bad # <<>> \/ ph = "done") => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
