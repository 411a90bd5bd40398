------------------------------ MODULE IndTrace ------------------------------
(* Columns that a transform of the code returned, against Indicators. *)
EXTENDS Indicators, Json, IOUtils
VARIABLES rid, ph, den, bad
tvars == <<rid, ph, den, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
In == Run.in
O == Run.out
TraceInit == rid \in 1..Len(Runs) /\ ph = "act" /\ den = <<>> /\ bad = <<>>
\* the definition on the whole history
Act == ph = "act" /\ den' = Ind(In.t, In.k, In.X, In.T) /\ ph' = "jdg" /\ UNCHANGED <<rid, bad>>
Rel == IF In.t = "VPIN" \/ In.dt = "f4" THEN "1/50000" ELSE "1/10000000"
Tiny == IF "tiny" \in DOMAIN In THEN In.tiny ELSE IF In.t = "VPIN" \/ In.dt = "f4" \/ In.t \in {"ewms", "EWMST"} THEN "1/1000000" ELSE "1/100000000"
Near(e, v) == e = Open \/ RClose(e, v, Rel, Tiny)
Same(a, b) == RClose(a, b, "1/1000000000", IF "tiny" \in DOMAIN In THEN RMul(In.tiny, "1/100") ELSE "1/10000000000")
\* the code answers 1 or -1 there without computing a correlation: a finding on record, any other answer is not
One(v) == v \in {"1", "-1"}
ShortcutAt(i) == In.t = "PriceVolumeCorrelation" /\ Shortcut(In.X[1], In.X[2], In.k.window, i)
Shape(C) == Len(C) = Len(den) /\ \A c \in 1..Len(C) : Len(C[c]) = Len(In.T)
Wrong(C) == {<<c, i>> \in (1..Len(den)) \X (1..Len(In.T)) : ~Near(den[c][i], C[c][i])}
Clause(n, B, a, b0) ==
    IF B = {} THEN {} ELSE IF \A b \in B : ShortcutAt(b[2]) /\ (One(a[b[1]][b[2]]) \/ One(b0[b[1]][b[2]])) THEN {"pv_shortcut_" \o n}
                ELSE LET b == CHOOSE x \in B : ~ShortcutAt(x[2]) \/ ~(One(a[x[1]][x[2]]) \/ One(b0[x[1]][x[2]]))
                     IN {n \o "_" \o In.t \o ": column " \o ToString(b[1]) \o " bar " \o ToString(b[2])}
Backend(n, o) == IF o.exc # "" THEN {"value_" \o n \o "_" \o In.t \o ": raised " \o o.exc}
                 ELSE IF ~o.kept THEN {"value_" \o n \o "_" \o In.t \o ": the index or the input changed"}
                 ELSE IF ~Shape(o.cols) THEN {"value_" \o n \o "_" \o In.t \o ": shape"}
                 ELSE Clause("value_" \o n, Wrong(o.cols), o.cols, o.cols)
Ok(o) == o.exc = "" /\ Shape(o.cols)
Agree == IF ~Ok(O.nb) \/ ~Ok(O.pd) THEN (IF Ok(O.nb) # Ok(O.pd) THEN {"backends_" \o In.t \o ": only one of them answers"} ELSE {})
         ELSE IF O.nb.names # O.pd.names THEN {"backends_" \o In.t \o ": the columns have different names"}
         ELSE Clause("backends", {<<c, i>> \in (1..Len(O.nb.cols)) \X (1..Len(In.T)) : ~RClose(O.nb.cols[c][i], O.pd.cols[c][i], Rel, Tiny)}, O.nb.cols, O.pd.cols)
Causal(q) == LET o == IF q.be = "nb" THEN O.nb ELSE O.pd
             IN  IF ~Ok(o) THEN {}
                 ELSE IF q.exc # "" THEN {"causal_" \o q.be \o "_" \o In.t \o ": raised on the first " \o ToString(q.n) \o " bars: " \o q.exc}
                 ELSE IF Len(q.cols) # Len(o.cols) \/ \E c \in 1..Len(q.cols) : Len(q.cols[c]) # q.n THEN {"causal_" \o q.be \o "_" \o In.t \o ": shape"}
                 ELSE Clause("causal_" \o q.be, {<<c, i>> \in (1..Len(q.cols)) \X (1..q.n) : ~Same(q.cols[c][i], o.cols[c][i])}, q.cols, o.cols)
Jdg == /\ ph = "jdg" /\ ph' = "done" /\ UNCHANGED <<rid, den>>
       /\ bad' = SetToSeq(Backend("nb", O.nb) \cup Backend("pd", O.pd) \cup Agree \cup UNION {Causal(O.cuts[j]) : j \in 1..Len(O.cuts)})
TraceSpec == TraceInit /\ [][Act \/ Jdg]_tvars
Verdict == ph = "done" => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
