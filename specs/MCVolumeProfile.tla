-------------------------- MODULE MCVolumeProfile --------------------------
EXTENDS VolumeProfile, Json
CONSTANTS MaxB, Emits
Rows(lo, vs) == [k \in 1..Len(vs) |-> <<lo + k - 1, vs[k]>>]
Bar(lo, vs) == [lo |-> lo, hi |-> lo + Len(vs) - 1, rows |-> Rows(lo, vs)]
Kinds == {Bar(10, <<"1">>), Bar(10, <<"2", "1", "0", "4">>), Bar(12, <<"1", "1", "3">>), Bar(14, <<"5", "2">>),
          [lo |-> 11, hi |-> 11, rows |-> <<>>], Bar(8, <<"1", "2", "1", "0", "0", "0", "1", "3", "1">>)}
Pars == {[w |-> w, nb |-> nb, va |-> va] : w \in {"0", "10", "15"}, nb \in {0, 3}, va \in {"50", "75"}}
When == IF bars = <<>> THEN {"0"} ELSE {RAdd(bars[Len(bars)].at, d) : d \in {"5", "10"}}
MCInit == VpInit /\ par \in Pars
MCNext == (Len(bars) < MaxB /\ \E t \in When, k \in Kinds : Read([at |-> t, lo |-> k.lo, hi |-> k.hi, rows |-> k.rows])) \/ Grow \/ Write
MCSpec == MCInit /\ [][MCNext]_vvars
PrintRun == (Emits /\ Len(bars) = MaxB /\ st = "read") => PrintT("@@" \o ToJson([bars |-> bars, par |-> par]))
=============================================================================
