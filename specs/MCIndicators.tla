---------------------------- MODULE MCIndicators ----------------------------
(***************************************************************************)
(* A transform as a machine that reads bars: bar by bar it writes one value*)
(* and never takes one back.  Checked: writing at the bar gives what the   *)
(* definition gives on the whole history (no look-ahead), and the bounds   *)
(* that follow from the definitions.                                       *)
(***************************************************************************)
EXTENDS Indicators, Json
CONSTANTS MaxN, Group, Emits
VARIABLES inst, X, T, out
vars == <<inst, X, T, out>>
I(t, k, a) == [t |-> t, k |-> k, a |-> a]
W(w) == [window |-> w]
None == [none |-> TRUE]
S9 == "1000000000"
Momentum == {
    I("Lag", [periods |-> 1], "p"), I("Return", [periods |-> 2, is_log |-> FALSE], "p"), I("ROC", [periods |-> 1], "p"),
    I("ReturnT", [window |-> "2000000000", is_log |-> FALSE], "p"), I("PctChange", W(2), "p"), I("RSIWilder", W(2), "p"),
    I("StochK", [length |-> 2], "hlc"), I("ZScore", [window |-> 3, ddof |-> 0], "p"), I("BurstRatio", W(3), "v"),
    I("VWAPDistance", [periods |-> 2, is_log |-> FALSE], "pv"), I("TrendSlope", W(3), "p"), I("ADX", [length |-> 2], "hlc"),
    I("MeanReversionZScore", W(3), "p"), I("DirRunLen", None, "r")}
Volatility == {
    I("ewms", [span |-> 3], "r"), I("EWMST", [half_life |-> S9], "r"), I("ewmst_mean0", [half_life |-> S9], "r"),
    I("RealizedVolatility", [window |-> 3, is_sample |-> TRUE], "r"), I("BollingerPercentB", [window |-> 3, num_std |-> "2"], "p"),
    I("ParkinsonRange", None, "hl"), I("ATR", [window |-> 2, ema_based |-> TRUE, normalize |-> TRUE], "hlc"),
    I("ATR", [window |-> 3, ema_based |-> FALSE, normalize |-> FALSE], "hlc"),
    I("VarianceRatio14", [window |-> 2, ddof |-> 0, ret_type |-> "simple"], "g"), I("BiPowerVariation", W(2), "r"),
    I("KurtosisTransform", W(4), "r"), I("HurstExponent", W(5), "r")}
Flow == {
    I("SMA", W(2), "p"), I("EWMA", [span |-> 2], "r"), I("FlowAcceleration", [window |-> 3, recent_periods |-> 1], "v"),
    I("VPIN", W(2), "bs"), I("PriceVolumeCorrelation", W(3), "pv"), I("TimeCues", None, "t"), I("BarDuration", [periods |-> 2], "t"),
    I("BarDurationEWMA", [span |-> 3], "t"), I("BarRate", [window |-> "2000000000"], "t"), I("DailyGap", None, "d"),
    I("ORBBreak", None, "D"), I("CandleShape", None, "ohlcv"), I("Identity", None, "p")}
Breaks == {I("CUSUMTest", [window_size |-> 4, warmup_period |-> 2, max_age |-> 1], "s"), I("CUSUMTest", [window_size |-> 5, warmup_period |-> 3, max_age |-> 300], "s")}
Of == CASE Group = "breaks" -> Breaks [] Group = "momentum" -> Momentum [] Group = "volatility" -> Volatility [] Group = "flow" -> Flow
        [] Group = "all" -> Momentum \cup Volatility \cup Flow \cup Breaks
\* the bars an instance may read, and the times between them
Bars(a) == CASE a = "p" -> {<<"2">>, <<"3">>, <<"4">>, <<"6">>}
             [] a = "s" -> {<<"20">>, <<"21">>, <<"27">>}
             [] a = "g" -> {<<"2">>, <<"4">>, <<"1">>}
             [] a = "v" -> {<<"0">>, <<"1">>, <<"3">>}
             [] a = "r" -> {<<"0">>, <<"1/2">>, <<"-1/4">>, <<"nan">>}
             [] a = "hl" -> {<<"2", "1">>, <<"3", "3">>}
             [] a = "hlc" -> {<<"3", "2", "2">>, <<"4", "2", "3">>, <<"5", "4", "5">>, <<"2", "2", "2">>}
             [] a = "pv" -> {<<"2", "1">>, <<"4", "0">>, <<"3", "2">>, <<"6", "3">>}
             [] a = "bs" -> {<<"0", "0">>, <<"1", "3">>, <<"2", "nan">>, <<"2", "0">>}
             [] a = "t" -> {<<"1">>}
             [] a = "d" -> {<<"2">>, <<"3">>}
             [] a = "D" -> {<<"3", "2", "2">>, <<"4", "3", "4">>, <<"2", "1", "1">>}
             [] a = "ohlcv" -> {<<"2", "4", "1", "3", "2">>, <<"3", "3", "3", "3", "3">>, <<"4", "5", "2", "2", "3">>}
Gaps(a) == CASE a \in {"d", "t"} -> {"1000000000", "43200000000000", "86400000000000"}
             [] a = "D" -> {"21600000000000"}
             [] a = "s" -> {"1000000000"}
             [] OTHER -> {"1000000000", "2500000000"}
Cols(a) == IF a = "t" THEN 1 ELSE Len(CHOOSE b \in Bars(a) : TRUE)
Last0(s) == s[Len(s)]
MCInit == inst \in Of /\ X = [c \in 1..Cols(inst.a) |-> <<>>] /\ T = <<>> /\ out = <<>>
Read(b, g) == /\ X' = [c \in DOMAIN X |-> Append(X[c], b[c])]
              /\ T' = Append(T, IF T = <<>> THEN "1699920000000000000" ELSE RAdd(Last0(T), g))
              /\ LET v == Ind(inst.t, inst.k, X', T')
                 IN  out' = IF out = <<>> THEN [c \in DOMAIN v |-> <<Last0(v[c])>>] ELSE [c \in DOMAIN v |-> Append(out[c], Last0(v[c]))]
              /\ UNCHANGED inst
Lim == IF inst.a \in {"D"} THEN MaxN + 2 ELSE IF inst.t \in {"VarianceRatio14", "HurstExponent", "CUSUMTest"} THEN MaxN + 1 ELSE MaxN
MCNext == Len(T) < Lim /\ \E b \in Bars(inst.a), g \in Gaps(inst.a) :
              (T = <<>> => g = CHOOSE x \in Gaps(inst.a) : TRUE) /\ (Len(T) > 2 /\ inst.a \notin {"d", "t"} => g = "1000000000" \/ g = "21600000000000") /\ Read(b, g)
MCSpec == MCInit /\ [][MCNext]_vars
\* what was written bar by bar is what the whole history gives
NoLookAhead == T # <<>> => Ind(inst.t, inst.k, X, T) = out
V == IF out = <<>> THEN NaN ELSE Last0(out[1])
In(lo, hi) == Undef(V) \/ V = Open \/ (RLe(lo, V) /\ RLe(V, hi))
Bounded == CASE inst.t \in {"RSIWilder", "ADX"} -> In(R0, "100")
             [] inst.t = "StochK" -> In(R0, "100")
             [] inst.t = "VPIN" -> In(R0, R1)
             [] inst.t = "PriceVolumeCorrelation" -> In("-1000000001/1000000000", "1000000001/1000000000")
             [] inst.t \in {"ATR", "ewms", "EWMST", "ewmst_mean0", "RealizedVolatility", "ParkinsonRange", "BiPowerVariation",
                            "VarianceRatio14", "DirRunLen"} -> Undef(V) \/ V = Open \/ RLe(R0, V)
             [] inst.t = "TrendSlope" -> In("-90", "90")
             [] inst.t = "CandleShape" -> \A c \in 1..3 : out = <<>> \/ (RLe(R0, Last0(out[c])) /\ RLe(Last0(out[c]), R1))
             [] inst.t = "KurtosisTransform" -> Undef(V) \/ RLe("-2", V)
             [] inst.t = "CUSUMTest" -> In("-10", "10") /\ \A c \in {5, 6} : out = <<>> \/ Last0(out[c]) = Open \/ (RLe(R0, Last0(out[c])) /\ RLe(Last0(out[c]), R(inst.k.max_age)))
             [] inst.t \in {"BarRate"} -> out = <<>> \/ RLt(R0, V)
             [] OTHER -> TRUE
PrintRun == (Emits /\ Len(T) = Lim) => PrintT("@@" \o ToJson([t |-> inst.t, k |-> inst.k, X |-> X, T |-> T]))
=============================================================================
