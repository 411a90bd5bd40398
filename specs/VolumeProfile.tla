---------------------------- MODULE VolumeProfile ---------------------------
(***************************************************************************)
(* The volume profile of footprints (finmlkit/feature/core/volume.py): the *)
(* volume traded at each price over a window of bars, gathered in buckets, *)
(* with its point of control (the price with most volume), its value area  *)
(* (a range around it that holds a share of the volume) and the share of   *)
(* volume above it.                                                        *)
(*                                                                         *)
(* A bar is [at, lo, hi, rows]: its close in nanoseconds (Rat), its low    *)
(* and high in ticks, and its rows <<price in ticks, volume>>.             *)
(* A profile is a sequence of rows [p, v] in ascending order of price.     *)
(*                                                                         *)
(* As a machine: bars are read one by one; for a bar with a full window    *)
(* the value area starts at the point of control and grows by two rows at  *)
(* a time, on the side with more volume, until it holds the share.         *)
(***************************************************************************)
EXTENDS Rat, SequencesExt, FiniteSets

VARIABLES bars, par,       \* par: [w, nb, va]: window, number of buckets (0: none), share in percent
          prof, area, out, st
vvars == <<bars, par, prof, area, out, st>>

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* volume at a price over bars S
At(b, S, p) == RSum([k \in 1..Len(S) |-> RSum([m \in 1..Len(b[S[k]].rows) |-> IF b[S[k]].rows[m][1] = p THEN b[S[k]].rows[m][2] ELSE R0])])
Levels(b, S) == LET lo == MinOf({b[S[k]].lo : k \in 1..Len(S)})
                    hi == MaxOf({b[S[k]].hi : k \in 1..Len(S)})
                IN  [k \in 1..hi - lo + 1 |-> [p |-> lo + k - 1, v |-> At(b, S, lo + k - 1)]]
\* n buckets or a few more, of an odd number of prices, named by the price in their middle; a last bucket that holds the
\* highest price alone is named by it
Width(lo, hi, n) == LET w == (hi - lo) \div n IN IF w < 1 THEN 1 ELSE IF w % 2 = 0 THEN w + 1 ELSE w
Buckets(L, n) ==
    LET lo == L[1].p
        hi == L[Len(L)].p
        w == Width(lo, hi, n)
        m == (hi - lo) \div w + 1
    IN  [k \in 1..m |-> [p |-> IF k = m /\ (hi - lo) % w = 0 THEN hi ELSE lo + (k - 1) * w + (w - 1) \div 2,
                         v |-> RSum([q \in 1..w |-> IF (k - 1) * w + q > Len(L) THEN R0 ELSE L[(k - 1) * w + q].v])]]
Profile(b, S, n) == IF n = 0 THEN TLCEval(Levels(b, S)) ELSE TLCEval(Buckets(TLCEval(Levels(b, S)), n))
Total(P) == RSum([k \in 1..Len(P) |-> P[k].v])
Poc(P) == CHOOSE k \in 1..Len(P) : \A j \in 1..Len(P) : RLe(P[j].v, P[k].v) /\ (j < k => RLt(P[j].v, P[k].v))
\* rows k to m of the profile, as far as there are any
Span(P, k, m) == RSum([j \in 1..Len(P) |-> IF j >= k /\ j <= m THEN P[j].v ELSE R0])
\* an area: its first and last row
Start(P) == [lo |-> Poc(P), hi |-> Poc(P)]
Held(P, a) == Span(P, a.lo, a.hi)
Wanted(P, va) == RMul(Total(P), RDiv(va, "100"))
CanUp(P, a) == a.hi < Len(P)
CanDn(P, a) == a.lo > 1
Up(P, a) == Span(P, a.hi + 1, a.hi + 2)
Dn(P, a) == Span(P, a.lo - 2, a.lo - 1)
Lower(a) == IF a.lo <= 2 THEN 1 ELSE a.lo - 2
Upper(P, a) == IF a.hi + 2 > Len(P) THEN Len(P) ELSE a.hi + 2
Grown(P, a) == LET up == CanUp(P, a) /\ (~CanDn(P, a) \/ RLe(Dn(P, a), Up(P, a)))
                   dn == CanDn(P, a) /\ (~CanUp(P, a) \/ RLe(Up(P, a), Dn(P, a)))
               IN  [lo |-> IF dn THEN Lower(a) ELSE a.lo, hi |-> IF up THEN Upper(P, a) ELSE a.hi]
Full(P, a) == ~CanUp(P, a) /\ ~CanDn(P, a)
Above(P) == LET t == Total(P) IN IF ~RLt(R0, t) THEN R0 ELSE RDiv(Span(P, Poc(P) + 1, Len(P)), t)
\* the areas the growth can end with: one, unless the share is met within rounding
RECURSIVE Ends(_, _, _)
Ends(P, a, va) ==
    LET h == Held(P, a)
        t == Wanted(P, va)
        tie == RClose(h, t, "1/1000000", "0") /\ ~REq(h, t)
    IN  IF Full(P, a) THEN {a}
        ELSE (IF tie \/ ~RLt(h, t) THEN {a} ELSE {}) \cup (IF tie \/ RLt(h, t) THEN Ends(P, Grown(P, a), va) ELSE {})

(*------------------------------- the windows ----------------------------*)
\* bars closed within w before bar i closed, itself included
Window(b, i, w) == SelectSeq([k \in 1..i |-> k], LAMBDA k : RLe(RSub(b[i].at, w), b[k].at))
Warm(b, i, w) == RLe(RAdd(b[1].at, w), b[i].at)
Row(P, va) == [poc |-> P[Poc(P)].p, ends |-> {[hi |-> P[a.hi].p, lo |-> P[a.lo].p] : a \in Ends(P, Start(P), va)}, above |-> Above(P)]
Rolling(b, w, nb, va) == [i \in 1..Len(b) |-> IF Warm(b, i, w) THEN <<Row(Profile(b, Window(b, i, w), nb), va)>> ELSE <<>>]
\* the bars of a time range, and the profile of its bars so far, of the prices with volume
Between(b, x, y) == SelectSeq(b, LAMBDA k : RLe(x, k.at) /\ RLe(k.at, y))
Traded(P) == {k \in 1..Len(P) : RLt(R0, P[k].v)}
Trim(P) == SubSeq(P, MinOf(Traded(P)), MaxOf(Traded(P)))
Developing(b, nb, va) ==
    [i \in 1..Len(b) |-> LET L == Levels(b, [k \in 1..i |-> k])
                         IN  IF Traded(L) = {} THEN <<>> ELSE <<Row(IF nb = 0 THEN Trim(L) ELSE Buckets(Trim(L), nb), va)>>]

(*------------------------------ the machine -----------------------------*)
None == [lo |-> 0, hi |-> 0]
VpInit == bars = <<>> /\ prof = <<>> /\ area = None /\ out = <<>> /\ st = "read"
Read(b) == /\ st = "read" /\ bars' = Append(bars, b)
           /\ IF Warm(bars', Len(bars'), par.w)
              THEN LET P == Profile(bars', Window(bars', Len(bars'), par.w), par.nb)
                   IN  prof' = P /\ area' = Start(P) /\ st' = "grow" /\ UNCHANGED out
              ELSE out' = Append(out, <<>>) /\ UNCHANGED <<prof, area, st>>
           /\ UNCHANGED par
Grow == /\ st = "grow" /\ RLt(Held(prof, area), Wanted(prof, par.va)) /\ ~Full(prof, area)
        /\ area' = Grown(prof, area) /\ UNCHANGED <<bars, par, prof, out, st>>
Write == /\ st = "grow" /\ (~RLt(Held(prof, area), Wanted(prof, par.va)) \/ Full(prof, area))
         /\ out' = Append(out, <<[poc |-> prof[Poc(prof)].p, ends |-> {[hi |-> prof[area.hi].p, lo |-> prof[area.lo].p]}, above |-> Above(prof)]>>)
         /\ st' = "read" /\ UNCHANGED <<bars, par, prof, area>>
VpNext(B) == (\E b \in B : Read(b)) \/ Grow \/ Write

\* every price traded in the window is in one bucket, and no volume is lost
Conserved == st = "grow" =>
    /\ REq(Total(prof), RSum([k \in 1..Len(bars) |-> IF RLe(RSub(bars[Len(bars)].at, par.w), bars[k].at)
                                                     THEN RSum([m \in 1..Len(bars[k].rows) |-> bars[k].rows[m][2]]) ELSE R0]))
    /\ \A k \in 2..Len(prof) : prof[k - 1].p < prof[k].p
Around == st = "grow" => 1 <= area.lo /\ area.lo <= Poc(prof) /\ Poc(prof) <= area.hi /\ area.hi <= Len(prof)
\* a finished area holds the share; without either of its outermost pairs of rows that were added last it would not
Holds == (st = "grow" /\ ~ENABLED Grow) => RLe(Wanted(prof, par.va), Held(prof, area))
\* what was written when the bar was read is what the definition gives on the whole history
NoLookAhead == st = "read" => Rolling(bars, par.w, par.nb, par.va) = out
Ordered == \A i \in 1..Len(out) : out[i] # <<>> => LET e == CHOOSE e \in out[i][1].ends : TRUE IN e.lo <= out[i][1].poc /\ out[i][1].poc <= e.hi
=============================================================================
