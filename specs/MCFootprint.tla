---------------------------- MODULE MCFootprint ----------------------------
EXTENDS Footprint, Json
CONSTANTS MaxL, N, Emits
VARIABLE hist
H(e) == hist' = Append(hist, e)
Bnd == {<<>>, <<0>>, <<1>>, <<2>>, <<-1>>, <<-2>>, <<5>>}
Bars == [i \in 1..N |-> [at |-> 10 * i, rows |-> [j \in 1..(IF i = 2 THEN 1 ELSE 2) |-> i + j], extra |-> i]]
Ev(op, k, a, b, st) == [op |-> op, k |-> k, a |-> a, b |-> b, st |-> st]
MCNext == /\ Len(hist) < MaxL
          /\ \E k \in 1..Len(fps) :
             \/ \E a, b \in Bnd, st \in {1, 2, -1} : Slice(k, a, b, st) /\ H(Ev("slice", k, a, b, st))
             \/ \E lo, hi \in {10, 15, 20, 30} : lo <= hi /\ ByTime(k, lo, hi) /\ H(Ev("time", k, <<lo>>, <<hi>>, 1))
             \/ \E kd \in {0, 1} : Cast(k, IF kd = 0 THEN "array" ELSE "list") /\ H(Ev("cast", k, <<>>, <<>>, kd))
             \/ Look /\ H(Ev("table", k, <<>>, <<>>, 1))
MCSpec == Init0(Bars) /\ hist = <<>> /\ [][MCNext]_<<fps, hist>>
PrintRun == (Emits /\ Len(hist) = MaxL) => PrintT("@@" \o ToJson(hist))
=============================================================================
