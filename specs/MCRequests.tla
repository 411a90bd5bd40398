---------------------------- MODULE MCRequests ----------------------------
(* Every request with at most MaxWrong reasons to be refused. *)
EXTENDS Requests, Json
CONSTANTS MaxWrong
VARIABLES kind, facts
Init == /\ kind \in Kinds
        /\ facts \in Facts[kind]
        /\ Sensible(kind, facts)
        /\ Cardinality(DOMAIN Wrong(kind, facts)) <= MaxWrong
Spec == Init /\ [][FALSE]_<<kind, facts>>
\* a request is refused exactly if some fact is wrong, and the model says with which class
Classes == \A r \in DOMAIN Wrong(kind, facts) : Wrong(kind, facts)[r] # {}
\* no two requests that differ in nothing but what is wrong are told apart by more than that: an answer is right or wrong, not both
Decided == LET c == IF Refused(kind, facts) THEN CHOOSE x \in UNION {Wrong(kind, facts)[r] : r \in DOMAIN Wrong(kind, facts)} : TRUE ELSE ""
               yes == Right(kind, facts, [done |-> TRUE, class |-> "", kept |-> TRUE])
               no == Right(kind, facts, [done |-> FALSE, class |-> c, kept |-> TRUE])
               All(t) == \A x \in DOMAIN t : t[x]
           IN (Refused(kind, facts) => All(no) /\ ~All(yes)) /\ (~Refused(kind, facts) => All(yes) /\ ~All(no))
PrintRun == PrintT("@@" \o ToJson([kind |-> kind, f |-> facts, w |-> Cardinality(DOMAIN Wrong(kind, facts))]))
=============================================================================
