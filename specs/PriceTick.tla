------------------------------ MODULE PriceTick ------------------------------
(***************************************************************************)
(* The price tick inferred from trades (finmlkit/bar/utils.py,             *)
(* comp_price_tick_size), and the footprint built on it: prices are read   *)
(* one run of equal prices at a time, and the tick coarsely fits all that  *)
(* were read.  Book keeps the volume at each price of a bar.               *)
(***************************************************************************)
EXTENDS Rat, SequencesExt, FiniteSets
VARIABLES seen,  \* prices read, one for each run
          count, \* trades read
          tick   \* the coarsest grid through zero that carries the prices read; 0 before the first
tkvars == <<seen, count, tick>>
Sample == 10000
Init0 == seen = <<>> /\ count = 0 /\ tick = R0
RMod(a, b) == RSub(a, RMul(b, RFloor(RDiv(a, b))))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = R0 THEN a ELSE Gcd(b, RMod(a, b))
See(p, m) == /\ count < Sample
             /\ seen' = Append(seen, p) /\ count' = count + m /\ tick' = Gcd(p, tick)
\* the sample is full: what follows does not count
Pass(m) == count >= Sample /\ count' = count + m /\ UNCHANGED <<seen, tick>>
Prices == {seen[k] : k \in 1..Len(seen)}
\* one price alone tells no tick
Result == IF Cardinality(Prices) <= 1 THEN R0 ELSE tick

Whole(x) == RFloor(x) = x
Carries == \A p \in Prices : Whole(RDiv(p, tick))
\* every common divisor divides the first price
Coarsest(K) == seen # <<>> => \A k \in 1..K : LET d == RDiv(seen[1], R(k))
                                          IN  (\A p \in Prices : Whole(RDiv(p, d))) => RLe(d, tick) /\ Whole(RDiv(tick, d))
\* more prices never coarsen the tick, and it divides the one before
Refines == [][tick # R0 => RLe(tick', tick) /\ Whole(RDiv(tick, tick'))]_tkvars
\* a repeated price tells nothing new
Repeats == [][Len(seen') > Len(seen) => (Last(seen') \in Prices => tick' = tick)]_tkvars

\* volume of trades [px, am] at each price
Book(ts) == [p \in {ts[k].px : k \in 1..Len(ts)} |-> RSum([k \in 1..Len(ts) |-> IF ts[k].px = p THEN ts[k].am ELSE R0])]
\* levels <<level, volume>> of a footprint with that tick
Carried(ts, lv, tk) ==
   LET b == Book(ts)
   IN  /\ \A p \in DOMAIN b : \E k \in 1..Len(lv) : REq(RMul(R(lv[k][1]), tk), p) /\ RClose(lv[k][2], b[p], "1/100000", "0")
       /\ \A k \in 1..Len(lv) : RLt(R0, lv[k][2]) => \E p \in DOMAIN b : REq(RMul(R(lv[k][1]), tk), p)
=============================================================================
