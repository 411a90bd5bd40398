------------------------------ MODULE KitTrace ------------------------------
(* A feature list built, saved and loaded by the code, against FeatureKit. *)
EXTENDS FeatureKit, Json, IOUtils
VARIABLES rid, ph, bad
tvars == <<rid, ph, bad, kvars>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
In == Run.in
O == Run.out
Rel == In.rel
Tiny == In.rel
Near(e, v) == e = Open \/ RClose(e, v, Rel, Tiny)
SameCol(e, v) == Len(e) = Len(v) /\ \A i \in 1..Len(e) : Near(e[i], v[i])
Position(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
TraceInit == /\ rid \in 1..Len(Runs) /\ ph = "build" /\ bad = <<>>
             /\ X = In.X /\ T = In.T /\ order = In.order
             /\ kit = [i \in 1..Len(In.kit) |-> [ex |-> In.kit[i].ex, nm |-> IF In.kit[i].custom # <<>> THEN In.kit[i].custom ELSE O.nm[i]]]
             /\ kept = [q \in 1..Len(In.retain) |-> [n |-> In.retain[q], v |-> In.X[Position(In.names, In.retain[q])]]]
             /\ KitInit
\* any admissible order will do: FeatureKit is confluent
Next1 == LET r == {i \in F : Ready(i)} IN CHOOSE i \in r : \A k \in r : i <= k
Act == /\ ph = "build" /\ st = "building" /\ UNCHANGED <<rid, ph, bad>>
       /\ IF \E i \in F : Ready(i) THEN Build(Next1) ELSE Refuse \/ Finish

\* two different columns of the cache under one name: a finding on record

Ambiguous == {n \in {O.nodes[q].n : q \in 1..Len(O.nodes)} :
                \E q, r \in 1..Len(O.nodes) : q < r /\ O.nodes[q].n = n /\ O.nodes[r].n = n /\ O.nodes[q].ex # O.nodes[r].ex
                    /\ Eval(O.nodes[q].ex, val)[O.nodes[q].j] # Eval(O.nodes[r].ex, val)[O.nodes[r].j]}
Touched == LET D == {O.nodes[q].i : q \in {p \in 1..Len(O.nodes) : O.nodes[p].n \in Ambiguous}}
           IN  D \cup {i \in F : Refs(kit[i].ex) \cap D # {}} \cup {i \in F : \E r \in Refs(kit[i].ex) : Refs(kit[r].ex) \cap D # {}}
\* another feature writes a column of the same name: then a reference is met although the feature meant is not built yet
Alias == \E q, r \in 1..Len(O.nodes) : O.nodes[q].i # O.nodes[r].i /\ O.nodes[q].n = O.nodes[r].n
NamesOf(S) == UNION {{kit[i].nm[j] : j \in 1..Len(kit[i].nm)} : i \in S}
Matrix(w, o) ==
    IF st = "refused" THEN (IF o.exc = "" /\ ~Alias THEN {w \o ": built although a column was not there yet"} ELSE {})
    ELSE IF o.exc # "" THEN {(IF Ambiguous # {} THEN "collision_" ELSE "") \o w \o ": raised " \o o.exc}
    ELSE IF ~o.kept THEN {w \o ": the frame or the index changed"}
    ELSE IF Names(o.cols) # Names(out) \/ Len(o.cols) # Len(out) THEN {w \o ": other columns than asked for"}
    ELSE IF order = "defined" /\ [q \in 1..Len(out) |-> out[q].n] # [q \in 1..Len(out) |-> o.cols[q].n] THEN {w \o ": columns in another order"}
    ELSE LET wrong == {n \in Names(out) : ~SameCol(Column(out, n), Column(o.cols, n))}
         IN  IF wrong = {} THEN {}
             ELSE IF wrong \subseteq NamesOf(Touched) THEN {"collision_" \o w}
             ELSE {w \o ": column " \o (CHOOSE n \in wrong \ NamesOf(Touched) : TRUE)}
\* a feature called by itself on the frame
Direct(i) == LET d == O.direct[i]
             IN  IF d.skip THEN {}
                 ELSE IF d.exc # "" THEN {"op: feature " \o ToString(i) \o " raised " \o d.exc}
                 ELSE IF ~d.kept THEN {"op: the frame or the index changed"}
                 ELSE IF Len(d.cols) # Len(Pure(i)) THEN {"op: feature " \o ToString(i) \o " has another number of columns"}
                 ELSE IF \E j \in 1..Len(d.cols) : ~SameCol(Pure(i)[j], d.cols[j].v) THEN {"op: feature " \o ToString(i) \o " " \o kit[i].ex.op}
                 ELSE {}
Jdg == /\ ph = "build" /\ st # "building" /\ ph' = "done" /\ UNCHANGED <<rid, kvars>>
       /\ bad' = SetToSeq(Matrix("build_nb", O.nb) \cup Matrix("build_pd", O.pd) \cup Matrix("load", O.load)
                          \cup (IF O.fix THEN {} ELSE {"load: the loaded list has another configuration"})
                          \cup UNION {Direct(i) : i \in F})
TraceSpec == TraceInit /\ [][Act \/ Jdg]_tvars
Verdict == ph = "done" => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
