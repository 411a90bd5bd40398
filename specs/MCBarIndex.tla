---------------------------- MODULE MCBarIndex ----------------------------
(* Every sequence of at most MaxN trades over small domains; complete behaviours are printed for replay. *)
EXTENDS BarIndex, Json, FiniteSets
CONSTANTS Kind, MaxN, Gaps, Starts, Prices, Vols, Sigmas, Params, Floors, Emits
VARIABLE pend   \* the trade about to be consumed (several clock rolls may precede it)
mvars == <<vars, pend>>
None == [ts |-> "none"]
MCInit == /\ Init0 /\ pend = None
          /\ cfg \in {[kind |-> Kind, iv |-> p, thr |-> p, mult |-> p, floor |-> f] : p \in Params, f \in Floors}
Draw == /\ pend = None /\ N < MaxN /\ ph # "done"
        /\ \E px \in Prices, v \in Vols, s \in Sigmas, g \in (IF N = 0 THEN Starts ELSE Gaps) :
              pend' = [ts |-> IF N = 0 THEN g ELSE RAdd(LastT.ts, g), px |-> px, vol |-> v, sg |-> s]
        /\ UNCHANGED vars
Take == pend # None /\ Consume(pend) /\ pend' = IF Len(tr') > N THEN None ELSE pend
Stop == pend = None /\ N > 0 /\ Finish /\ UNCHANGED pend
MCNext == Draw \/ Take \/ Stop
MCSpec == MCInit /\ [][MCNext]_mvars
\* every trade drawn can be consumed: the case analysis is total
Total == pend # None => ENABLED Take
PrintRun == (Emits /\ ph = "done") => PrintT("@@" \o ToJson([cfg |-> cfg, tr |-> tr]))
=============================================================================
