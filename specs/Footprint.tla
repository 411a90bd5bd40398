----------------------------- MODULE Footprint -----------------------------
(***************************************************************************)
(* The footprint container (finmlkit/bar/data_model.py FootprintData): a   *)
(* sequence of bars that can be sliced by position or by time, and whose   *)
(* representation can be switched between arrays and lists.  A bar is      *)
(* [at, rows, extra]: its time, its price levels in ascending order, and   *)
(* its per-bar values; only `at` and the levels' prices are looked into.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES fps   \* sequence of containers [bars, kind]
Kinds == {"array", "list"}
Init0(bars) == fps = <<[bars |-> bars, kind |-> "array"]>>

\* Python slices: absent bounds are <<>>, negative ones count from the end
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF hi < x THEN hi ELSE x
From(a, n, st) == IF st > 0 THEN IF a = <<>> THEN 0 ELSE Clip(IF a[1] < 0 THEN a[1] + n ELSE a[1], 0, n)
                  ELSE IF a = <<>> THEN n - 1 ELSE Clip(IF a[1] < 0 THEN a[1] + n ELSE a[1], -1, n - 1)
To(b, n, st) == IF st > 0 THEN IF b = <<>> THEN n ELSE Clip(IF b[1] < 0 THEN b[1] + n ELSE b[1], 0, n)
                ELSE IF b = <<>> THEN -1 ELSE Clip(IF b[1] < 0 THEN b[1] + n ELSE b[1], -1, n - 1)
PySlice(s, a, b, st) ==
    LET n == Len(s)
        f == From(a, n, st)
        t == To(b, n, st)
        cnt == IF st > 0 THEN (IF f < t THEN (t - f - 1) \div st + 1 ELSE 0)
               ELSE (IF t < f THEN (f - t - 1) \div (-st) + 1 ELSE 0)
    IN [i \in 1..cnt |-> s[f + (i - 1) * st + 1]]
\* both ends of a time range are included
Between(s, lo, hi) == SelectSeq(s, LAMBDA b : lo <= b.at /\ b.at <= hi)

Slice(k, a, b, st) == fps' = Append(fps, [fps[k] EXCEPT !.bars = PySlice(@, a, b, st)])
ByTime(k, lo, hi) == fps' = Append(fps, [fps[k] EXCEPT !.bars = Between(@, lo, hi)])
Cast(k, kind) == fps' = [fps EXCEPT ![k].kind = kind]
Look == UNCHANGED fps

\* the table of a container: bars in order of time, each from its highest level to its lowest
Table(s) == FlattenSeq([i \in 1..Len(s) |-> [j \in 1..Len(s[i].rows) |-> [bar |-> i - 1, at |-> s[i].at, row |-> s[i].rows[Len(s[i].rows) + 1 - j]]]])

\* ---------------------------------------------------------------- design checks
SubOf(s, t) == \A i \in 1..Len(s) : \E j \in 1..Len(t) : t[j] = s[i]
Views == \A k \in 1..Len(fps) : SubOf(fps[k].bars, fps[1].bars)
Whole == \A k \in 1..Len(fps) : LET s == fps[k].bars IN
    /\ PySlice(s, <<>>, <<>>, 1) = s /\ PySlice(s, <<>>, <<>>, -1) = Reverse(s)
    /\ \A c \in -3..3 : PySlice(s, <<>>, <<c>>, 1) \o PySlice(s, <<c>>, <<>>, 1) = s
    /\ Len(Table(s)) = FoldLeft(LAMBDA x, b : x + Len(b.rows), 0, s)
=============================================================================
