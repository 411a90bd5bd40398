---------------------------- MODULE BarAggTrace ----------------------------
(* Validates rows computed by the code: run.in = [tr, cl, par, what], run.out.rows = one record for each bar. *)
EXTENDS BarAgg, Json, IOUtils
VARIABLES rid, bad
tvars == <<vars, rid, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
Rows == Run.out.rows
What == Run.in.what
TraceInit == /\ rid \in 1..Len(Runs) /\ bad = <<>>
             /\ tr = Runs[rid].in.tr /\ cl = Runs[rid].in.cl /\ par = Runs[rid].in.par /\ Init0
Rel == "1/1000000"
Abs == "1/1000000000"
Abs32 == "1/100000"     \* a concentration is one minus a float32 sum of squares: its error is absolute
\* sums of amounts, none negative, lose nothing to cancellation: however small, they are held relatively
Sums == {"volume", "vwap", "volume_buy", "volume_sell", "dollars_buy", "dollars_sell", "buy", "sell"}
Tol(f) == IF f \in {"gini", "size_gini"} THEN Abs32 ELSE IF f \in Sums THEN "0" ELSE Abs
\* prices are copied and counts are counted: no tolerance
ExactFields == {"levels", "buy_ticks", "sell_ticks", "buy_imb", "sell_imb", "buy_imb_sum", "sell_imb_sum", "run", "cot",
                "open", "high", "low", "close", "trades", "ticks_buy", "ticks_sell", "cum_ticks_min", "cum_ticks_max"}
Same(f, x, y) == IF f \in ExactFields THEN REq(x, y) ELSE RClose(x, y, Rel, Tol(f))
SameSeq(f, x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Same(f, x[k], y[k])
Expected == CASE What = "ohlcv" -> Ohlcv [] What = "dir" -> Directional [] What = "size" -> TradeSize [] What = "fp" -> Footprint
SeqFields == {"levels", "buy", "sell", "buy_ticks", "sell_ticks", "buy_imb", "sell_imb"}
Wrong(e, row) == {f \in DOMAIN e : IF f \in SeqFields THEN ~SameSeq(f, e[f], row[f]) ELSE ~Same(f, e[f], row[f])}
Check == IF b > Len(Rows) THEN <<"bar " \o ToString(b) \o " missing">>
         ELSE LET e == Expected
                  row == Rows[b]
                  w == Wrong(e, row)
              IN  IF w = {} THEN <<>>
                  ELSE LET f == CHOOSE x \in w : TRUE
                       IN  <<"bar " \o ToString(b) \o " " \o f \o ": specification " \o ToString(e[f]) \o ", code " \o ToString(row[f])>>
TraceNext == /\ bad = <<>> /\ UNCHANGED rid
             /\ \/ Take /\ UNCHANGED bad
                \/ Close /\ bad' = IF Check # <<>> THEN Check
                                   ELSE IF b = NBars /\ Len(Rows) # NBars THEN <<"more bars than closes">> ELSE <<>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ b = Len(cl)) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
