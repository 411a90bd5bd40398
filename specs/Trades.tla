------------------------------- MODULE Trades -------------------------------
(***************************************************************************)
(* Preprocessing of raw trades (TradesData, merge_split_trades,            *)
(* comp_trade_side_vector).  The stages of the code are the actions, in    *)
(* its order; Merge and InferSide proceed trade by trade.                  *)
(*   raw -> Convert -> SortById -> Dedup -> Validate -> SortByTime ->      *)
(*   MergeStep* -> Floor -> SideStep* -> ready                             *)
(***************************************************************************)
EXTENDS Rat, SequencesExt, FiniteSets

VARIABLES inp,   \* [unit: "s", "ms", "us", "ns" or "" (inferred), res: the same or "", maker: are maker flags given]
          raw,   \* the input rows: sequence of [id, ts, px, am, mk]
          tbl,   \* the table: rows [id, ts, px, am, mk, pos], later [ts, px, am, side]
          st,    \* stage
          k,     \* rows of tbl consumed by the running MergeStep/SideStep
          out,   \* rows produced so far by the running step
          info   \* [ok: "unknown" or "bad", gaps: sum of missing ids, disc: recorded discontinuities, n: rows validated]
vars == <<inp, raw, tbl, st, k, out, info>>

Factor(u) == CASE u = "s" -> "1000000000" [] u = "ms" -> "1000000" [] u = "us" -> "1000" [] u = "ns" -> "1"
MaxTs == RMaxSeq([i \in 1..Len(raw) |-> raw[i].ts])
Unit == IF inp.unit # "" THEN inp.unit
        ELSE IF RLt("1000000000000000000", MaxTs) THEN "ns"
        ELSE IF RLt("1000000000000000", MaxTs) THEN "us"
        ELSE IF RLt("1000000000000", MaxTs) THEN "ms" ELSE "s"

Init0 == st = "raw" /\ tbl = <<>> /\ k = 0 /\ out = <<>> /\ info = [ok |-> "unknown", gaps |-> R0, disc |-> <<>>, n |-> 0]

Convert ==
    /\ st = "raw" /\ st' = "converted"
    /\ tbl' = [i \in 1..Len(raw) |-> [id |-> raw[i].id, ts |-> RMul(raw[i].ts, Factor(Unit)), px |-> raw[i].px,
                                      am |-> raw[i].am, mk |-> raw[i].mk, pos |-> i]]
    /\ UNCHANGED <<inp, raw, k, out, info>>

\* stable: rows that compare equal keep their input order
SortById ==
    /\ st = "converted" /\ st' = "byid"
    /\ tbl' = SortSeq(tbl, LAMBDA x, y : RLt(x.id, y.id) \/ (REq(x.id, y.id) /\ x.pos < y.pos))
    /\ UNCHANGED <<inp, raw, k, out, info>>

Keep(t) == LET idx == {i \in 1..Len(t) : i = 1 \/ t[i].id # t[i - 1].id} IN idx
Pick(t, S) == LET RECURSIVE go(_)
                  go(i) == IF i > Len(t) THEN <<>> ELSE (IF i \in S THEN <<t[i]>> ELSE <<>>) \o go(i + 1)
              IN  go(1)
Dedup ==
    /\ st = "byid" /\ st' = "unique"
    /\ tbl' = Pick(tbl, Keep(tbl))
    /\ info' = IF Cardinality(Keep(tbl)) < Len(tbl) THEN [info EXCEPT !.ok = "bad"] ELSE info
    /\ UNCHANGED <<inp, raw, k, out>>

Minute == "60000000000"
Missing(i) == RSub(RSub(tbl[i + 1].id, tbl[i].id), R1)
GapAt == {i \in 1..Len(tbl) - 1 : RLt(R0, Missing(i))}
LongGap(i) == i \in GapAt /\ RLt(Minute, RSub(tbl[i + 1].ts, tbl[i].ts))
Discs == LET RECURSIVE go(_)
             go(i) == IF i >= Len(tbl) THEN <<>>
                      ELSE (IF LongGap(i) THEN <<[start |-> tbl[i].id, end |-> tbl[i + 1].id, missing |-> Missing(i),
                                                  pre |-> tbl[i].ts, post |-> tbl[i + 1].ts]>> ELSE <<>>) \o go(i + 1)
         IN  go(1)
Validate ==
    /\ st = "unique" /\ st' = "valid"
    /\ info' = [ok |-> IF Discs # <<>> THEN "bad" ELSE info.ok, disc |-> Discs, n |-> Len(tbl),
                gaps |-> RSum([i \in 1..Len(tbl) - 1 |-> IF i \in GapAt THEN Missing(i) ELSE R0])]
    /\ UNCHANGED <<inp, raw, tbl, k, out>>
MissingPct == RDiv(RMul(info.gaps, "100"), R(info.n))

SortByTime ==
    /\ st = "valid" /\ st' = "merging"
    /\ tbl' = SortSeq(tbl, LAMBDA x, y : RLt(x.ts, y.ts) \/ (REq(x.ts, y.ts) /\ RLt(x.id, y.id)))
    /\ k' = 0 /\ out' = <<>> /\ UNCHANGED <<inp, raw, info>>

\* one market order filled in pieces: adjacent trades of one timestamp, price and (if known) side
SamePx(p, q) == RLe(RAbs(RSub(p, q)), RMul("1/1000000000000", RAbs(q)))  \* up to the noise of a floating point price
SameOrder(x, y) == /\ REq(x.ts, y.ts) /\ SamePx(x.px, y.px)
                   /\ inp.maker => x.mk = y.mk
MergeStep ==
    /\ st = "merging" /\ k < Len(tbl) /\ k' = k + 1
    /\ LET t == tbl[k + 1]
       IN  out' = IF out # <<>> /\ SameOrder(out[Len(out)], t)
                  THEN [out EXCEPT ![Len(out)].am = RAdd(@, t.am)]
                  ELSE Append(out, t)
    /\ UNCHANGED <<inp, raw, tbl, st, info>>
MergeEnd ==
    /\ st = "merging" /\ k = Len(tbl) /\ st' = "merged" /\ tbl' = out /\ out' = <<>> /\ k' = 0
    /\ UNCHANGED <<inp, raw, info>>

FloorTo(t, u) == RMul(RFloor(RDiv(t, Factor(u))), Factor(u))
Floor ==
    /\ st = "merged" /\ st' = "siding"
    /\ tbl' = IF inp.res = "" THEN tbl ELSE [i \in 1..Len(tbl) |-> [tbl[i] EXCEPT !.ts = FloorTo(@, inp.res)]]
    /\ UNCHANGED <<inp, raw, k, out, info>>

\* the maker of a trade is passive: a buying maker means a market sell; without the flag the tick rule decides,
\* and it has nothing to say before the price has moved
Tick(i) == IF SamePx(tbl[i].px, tbl[i - 1].px) THEN out[i - 1].side
           ELSE IF RLt(tbl[i - 1].px, tbl[i].px) THEN "1" ELSE "-1"
SideStep ==
    /\ st = "siding" /\ k < Len(tbl) /\ k' = k + 1
    /\ LET i == k + 1
           s == IF inp.maker THEN (IF tbl[i].mk THEN "-1" ELSE "1") ELSE IF i = 1 THEN "0" ELSE Tick(i)
       IN  out' = Append(out, [ts |-> tbl[i].ts, px |-> tbl[i].px, am |-> tbl[i].am, side |-> s])
    /\ UNCHANGED <<inp, raw, tbl, st, info>>
SideEnd == st = "siding" /\ k = Len(tbl) /\ st' = "ready" /\ UNCHANGED <<inp, raw, tbl, k, out, info>>

Next == Convert \/ SortById \/ Dedup \/ Validate \/ SortByTime \/ MergeStep \/ MergeEnd \/ Floor \/ SideStep \/ SideEnd

\* ---------------------------------------------------------------- properties of the design
Ids == {raw[i].id : i \in 1..Len(raw)}
First(id) == raw[CHOOSE i \in 1..Len(raw) : raw[i].id = id /\ \A j \in 1..i - 1 : raw[j].id # id]
Total(s) == RSum([i \in 1..Len(s) |-> s[i].am])
\* no traded amount is lost, duplicated or moved between market sides
Conserved == st = "ready" =>
    /\ REq(Total(out), RSum([i \in 1..Len(SetToSeq(Ids)) |-> First(SetToSeq(Ids)[i]).am]))
    /\ inp.maker => LET sold == {id \in Ids : First(id).mk}
                        so == SelectSeq(out, LAMBDA r : r.side = "-1")
                    IN  REq(Total(so), RSum([i \in 1..Len(SetToSeq(sold)) |-> First(SetToSeq(sold)[i]).am]))
Chronological == st = "ready" => \A i \in 1..Len(out) - 1 : RLe(out[i].ts, out[i + 1].ts)
\* nothing adjacent is left unmerged (before timestamps were coarsened)
Maximal == st = "merged" => \A i \in 1..Len(tbl) - 1 : ~SameOrder(tbl[i], tbl[i + 1])
FlagSound == st = "ready" => (info.ok = "bad" <=> Cardinality(Ids) < Len(raw) \/ info.disc # <<>>)
GapSound == st = "ready" => (REq(info.gaps, R0) <=>
    \A x, y \in Ids : (RLt(x, y) /\ ~\E z \in Ids : RLt(x, z) /\ RLt(z, y)) => REq(RSub(y, x), R1))
=============================================================================
