--------------------------- MODULE PriceTickTrace ---------------------------
(* run.in.runs: <<price, trades, amount of each>>; run.out = [tick, bars]; a bar is [of, tick, lv]: the trades it holds,
   the tick of the footprint and its levels <<level, volume>>. *)
EXTENDS PriceTick, Json, IOUtils
VARIABLES rid, k, bad
tvars == <<tkvars, rid, k, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Rows == Run.in.runs
Near(x, y) == RClose(x, y, "1/1000000000", "0")
TraceInit == rid \in 1..Len(Runs) /\ k = 0 /\ bad = <<>> /\ Init0
Read == k < Len(Rows) /\ k' = k + 1 /\ (See(Rows[k' ][1], Rows[k'][2]) \/ Pass(Rows[k'][2])) /\ UNCHANGED <<rid, bad>>
\* prices beyond the sample may be off the grid: then only the tick is told
Beyond == \E j \in 1..Len(Rows) : ~(Rows[j][1] \in Prices)
Bar(b) == /\ b.tick = Run.out.tick
          /\ (Result # R0 /\ ~Beyond) => Carried([j \in 1..Len(b.of) |-> [px |-> Rows[b.of[j][1]][1], am |-> RMul(R(b.of[j][2]), Rows[b.of[j][1]][3])]], b.lv, Result)
Clauses == [tick |-> Beyond \/ (IF Result = R0 THEN REq(Run.out.tick, R0) ELSE Near(Run.out.tick, Result)),
            footprint |-> \A j \in 1..Len(Run.out.bars) : Bar(Run.out.bars[j])]
Judge == /\ k = Len(Rows) /\ k' = k + 1 /\ bad' = SetToSeq({c \in DOMAIN Clauses : ~Clauses[c]}) /\ UNCHANGED <<tkvars, rid>>
TraceSpec == TraceInit /\ [][Read \/ Judge]_tvars
Verdict == k > Len(Rows) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
