-------------------------- MODULE CusumFilterTrace --------------------------
EXTENDS CusumFilter, Json, IOUtils
VARIABLES rid, bad
tvars == <<vars, rid, bad>>
Runs == ndJsonDeserialize(IOEnv.TRACE)
Run == Runs[rid]
L == Run.out.ev
P == Run.in.px
K == Len(pxs)
TraceInit == rid \in 1..Len(Runs) /\ bad = <<>> /\ Init0
T == IF Len(Run.in.thr) = 1 THEN Run.in.thr[1] ELSE Run.in.thr[K + 1]
Hit == K \in {L[j] : j \in 1..Len(L)}
Px == P[K + 1]
Step == IF K = 0 THEN First(Px, T)
        ELSE IF DnHit(Px, T) /\ ~DnNear(Px, T) THEN Down(Px, T)
        ELSE IF UpHit(Px, T) /\ ~UpNear(Px, T) THEN (IF DnNear(Px, T) THEN Down(Px, T) ELSE Up(Px, T))
        ELSE IF ~DnNear(Px, T) /\ ~UpNear(Px, T) THEN Quiet(Px, T)
        ELSE IF ~Hit THEN Quiet(Px, T) ELSE IF UpNear(Px, T) THEN Up(Px, T) ELSE Down(Px, T)
Check == IF Len(ev') > Len(ev) /\ (Len(ev') > Len(L) \/ L[IF Len(ev') > Len(L) THEN 1 ELSE Len(ev')] # ev'[Len(ev')])
         THEN <<"event " \o ToString(ev'[Len(ev')]) \o " of the specification is not in the code's">>
         ELSE IF Len(pxs') = Len(P) /\ Len(ev') # Len(L) THEN <<"the code gives further events">> ELSE <<>>
TraceNext == bad = <<>> /\ K < Len(P) /\ Step /\ bad' = Check /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad # <<>> \/ K = Len(P)) => PrintT("@@" \o ToJson(<<Run.id, bad>>))
=============================================================================
