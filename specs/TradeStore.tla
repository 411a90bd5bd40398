---------------------------- MODULE TradeStore ----------------------------
(***************************************************************************)
(* The monthly trade store (finmlkit/bar/data_model.py save_h5,            *)
(* load_trades_h5; finmlkit/bar/io.py H5Inspector).  A file maps a month   *)
(* to the batches saved under it, in the order they were saved; everything *)
(* a user can ask of the file is a function of that.                       *)
(*   batch = [tr, ok, miss, disc, cols]: its trades [t, p, q, s] in        *)
(*   chronological order, integrity flag ("good", "bad", "unknown"),       *)
(*   missing share, discontinuities, and the columns it is stored with.    *)
(* Times are integers (ticks of the run's unit); s = 0: side not known.    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt
VARIABLES store,  \* month -> sequence of batches
          last    \* what the last call answered
svars == <<store, last>>
Empty == [k \in {} |-> <<>>]
Init0 == store = Empty /\ last = "new"

\* ---------------------------------------------------------------- saving
\* month of a time: bounds is a sequence of [key, lo, hi), one for each month
MonthOf(bounds, t) == (CHOOSE b \in Range(bounds) : b.lo <= t /\ t < b.hi).key
KeyFor(bounds, key, b) == IF key = "" THEN MonthOf(bounds, b.tr[1].t) ELSE key
After(mode) == IF mode = "w" THEN Empty ELSE store
\* a batch can be refused: nothing to save, or it cannot be appended to differently shaped data
MayRefuse(key, b, mode, over) ==
    b.tr = <<>> \/ (~over /\ key \in DOMAIN After(mode) /\ \E o \in Range(After(mode)[key]) : o.cols # b.cols)
MustRefuse(b) == b.tr = <<>>
Refuse(key, b, mode, over) == MayRefuse(key, b, mode, over) /\ last' = "refused" /\ UNCHANGED store
Save(key, b, mode, over) ==
    /\ ~MustRefuse(b)
    /\ store' = [k \in DOMAIN After(mode) \cup {key} |->
                    IF k # key THEN After(mode)[k]
                    ELSE IF k \in DOMAIN After(mode) /\ ~over THEN Append(After(mode)[k], b) ELSE <<b>>]
    /\ last' = key

\* ---------------------------------------------------------------- what a file tells
Cat(ss) == FlattenSeq(ss)
Trades(k) == Cat([i \in 1..Len(store[k]) |-> store[k][i].tr])
Times(k) == {r.t : r \in Range(Trades(k))}
FirstAt(k) == CHOOSE t \in Times(k) : \A u \in Times(k) : t <= u
LastAt(k) == CHOOSE t \in Times(k) : \A u \in Times(k) : u <= t
Keys == DOMAIN store

\* chronological; simultaneous trades in the order they were saved
InOrder(s) == LET ix == SortSeq([i \in 1..Len(s) |-> i], LAMBDA a, b : s[a].t < s[b].t \/ (s[a].t = s[b].t /\ a < b))
              IN [i \in 1..Len(s) |-> s[ix[i]]]
Within(s, lo, hi) == SelectSeq(s, LAMBDA r : (lo = <<>> \/ lo[1] <= r.t) /\ (hi = <<>> \/ r.t <= hi[1]))
\* keys: a sequence of months in ascending order
Load(keys, lo, hi) == InOrder(Within(Cat([i \in 1..Len(keys) |-> Trades(keys[i])]), lo, hi))

\* metadata.  Flags and shares of several batches: broken if one is, good only if all are
Flag(k) == IF \E b \in Range(store[k]) : b.ok = "bad" THEN {"bad"}
           ELSE IF \A b \in Range(store[k]) : b.ok = "good" THEN {"good"} ELSE {"unknown", "good"} \ (IF \A b \in Range(store[k]) : b.ok = "unknown" THEN {"good"} ELSE {})
Misses(k) == [i \in 1..Len(store[k]) |-> store[k][i].miss]
MissOk(k, m) == /\ RLe(RSub(RMinSeq(Misses(k)), "1/1000000000"), m)
                /\ RLe(m, RAdd(RMaxSeq(Misses(k)), "1/1000000000"))
Discs(k) == Cat([i \in 1..Len(store[k]) |-> store[k][i].disc])
Bad(k) == \E b \in Range(store[k]) : b.ok = "bad"
\* gaps longer than g between chronologically consecutive trades: when the later one came, and the distance
Gaps(k, g) == LET s == InOrder(Trades(k))
              IN Cat([i \in 1..Len(s) |-> IF i > 1 /\ s[i].t - s[i - 1].t > g THEN <<[at |-> s[i].t, by |-> s[i].t - s[i - 1].t]>> ELSE <<>>])

\* ---------------------------------------------------------------- design checks
\* every trade saved under a key and not overwritten is found by its time, whatever the order of the saves
Found == \A k \in Keys : \A r \in Range(Trades(k)) : r \in Range(Load(<<k>>, <<r.t>>, <<r.t>>))
Complete == \A k \in Keys : Len(Load(<<k>>, <<>>, <<>>)) = Len(Trades(k))
Split == \A k \in Keys : \A t \in Times(k) :
           Load(<<k>>, <<>>, <<t>>) \o Load(<<k>>, <<t + 1>>, <<>>) = Load(<<k>>, <<>>, <<>>)
Described == \A k \in Keys : Cardinality(Flag(k)) >= 1 /\ (Discs(k) # <<>> => "bad" \in Flag(k))
=============================================================================
