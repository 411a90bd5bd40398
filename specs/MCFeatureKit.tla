---------------------------- MODULE MCFeatureKit ----------------------------
EXTENDS FeatureKit, Json
CONSTANTS MaxF, Emits
VARIABLE script
mvars == <<kvars, script>>
C(j) == [ref |-> 0, j |-> j]
Q(i, j) == [ref |-> i, j |-> j]
Tf(t, k, src) == [op |-> "tf", t |-> t, k |-> k, src |-> src]
W(w) == [window |-> w]
P(w) == [w |-> w]
Bin(o, l, r) == [op |-> "bin", o |-> o, l |-> l, r |-> r]
K(o, e, c) == [op |-> "const", o |-> o, e |-> e, c |-> c]
U(o, e, p) == [op |-> "un", o |-> o, e |-> e, p |-> p]
Sma(s) == Tf("SMA", W(2), <<s>>)
Ret(s) == Tf("Return", [periods |-> 1, is_log |-> FALSE], <<s>>)
\* columns of the frame: 1 close, 2 volume
Catalogue(i, n) ==
    {Tf("Identity", [none |-> TRUE], <<C(1)>>), Sma(C(1)), Ret(C(1)), Tf("Lag", [periods |-> 1], <<C(2)>>), Tf("TimeCues", [none |-> TRUE], <<C(1)>>),
     [op |-> "chain", t |-> "Return", k |-> [periods |-> 1, is_log |-> FALSE], src |-> <<C(1)>>, steps |-> <<[t |-> "SMA", k |-> W(2), inp |-> "volume"]>>],
     [op |-> "chain", t |-> "SMA", k |-> W(2), src |-> <<C(1)>>, steps |-> <<[t |-> "Lag", k |-> [periods |-> 1], inp |-> "prev"]>>],
     Bin("div", Sma(C(1)), Tf("EWMA", [span |-> 2], <<C(1)>>)), Bin("sub", Sma(C(1)), Tf("Identity", [none |-> TRUE], <<C(2)>>)),
     Bin("max", Ret(C(1)), Ret(C(2))), K("rsub", Sma(C(1)), "3"), K("mul", Ret(C(1)), "1/2"),
     U("square", Ret(C(1)), P(0)), U("lag", Sma(C(1)), P(1)), U("emar", Ret(C(2)), P(2)), U("clip", Ret(C(1)), [lo |-> "-1/4", hi |-> ""]),
     [op |-> "ext", o |-> "maximum", c |-> "", src |-> <<C(1), C(2)>>, np |-> TRUE],
     [op |-> "ext", o |-> "modf", c |-> "", src |-> <<C(2)>>, np |-> FALSE]}
    \cup {Sma(Q(r, 1)) : r \in (1..n) \ {i}} \cup {U("abs", Ret(Q(r, 1)), P(0)) : r \in (1..n) \ {i}}
    \cup {Bin("mul", Tf("Lag", [periods |-> 1], <<Q(r, 1)>>), Sma(C(2))) : r \in (1..n) \ {i}}
Multi(ex) == IF ex.op = "ext" /\ ex.o = "modf" THEN 2 ELSE IF ex.op = "tf" /\ ex.t = "TimeCues" THEN 9 ELSE 1
\* expressions without a cycle
RECURSIVE Reach(_, _)
Reach(es, S) == LET S2 == S \cup UNION {Refs(es[r]) : r \in S} IN IF S2 = S THEN S ELSE Reach(es, S2)
\* and an unchanged column has no name of its own to refer to
Plain(ex) == ex.op = "tf" /\ ex.t = "Identity"
Acyclic(es) == \A i \in 1..Len(es) : i \notin Reach(es, Refs(es[i])) /\ \A r \in Refs(es[i]) : ~Plain(es[r])
FrameX == <<<<"4", "2", "6", "8">>, <<"1", "5/2", "2", "1/2">>>>
FrameT == [i \in 1..4 |-> RAdd("1699920000000000000", R(i * 1000000))]
Nm(ex, i, c) == IF c THEN [j \in 1..Multi(ex) |-> "custom" \o ToString(i) \o "_" \o ToString(j)] ELSE [j \in 1..Multi(ex) |-> ToString(ex) \o ToString(j)]
Simple(ex) == ex.op = "tf" \/ Refs(ex) # {}
MCInit ==
    /\ \E n \in 1..MaxF : \E es \in {f \in [1..n -> UNION {Catalogue(i, n) : i \in 1..n}] :
                                     \A i \in 1..n : f[i] \in Catalogue(i, n) /\ (n = 3 => Simple(f[i]))} :
         \E c \in {0, 1} : /\ Acyclic(es) /\ kit = [i \in 1..n |-> [ex |-> es[i], nm |-> Nm(es[i], i, i = c)]]
    /\ order \in {"defined", "topo"} /\ X = FrameX /\ T = FrameT
    /\ kept \in {<<>>, <<[n |-> "close", v |-> FrameX[1]]>>}
    /\ KitInit /\ script = <<>>
MCNext == KitNext /\ script' = script
MCSpec == MCInit /\ [][MCNext]_mvars
PrintRun == (Emits /\ val = [i \in {} |-> <<>>] /\ st = "building") =>
    PrintT("@@" \o ToJson([kit |-> [i \in 1..Len(kit) |-> [ex |-> kit[i].ex, custom |-> IF kit[i].nm = Nm(kit[i].ex, i, TRUE) THEN kit[i].nm ELSE <<>>]],
                           order |-> order, X |-> X, T |-> T, names |-> <<"close", "volume">>, retain |-> [i \in 1..Len(kept) |-> kept[i].n]]))
=============================================================================
