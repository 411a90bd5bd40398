------------------------------ MODULE MCFinal ------------------------------
EXTENDS Final, Json
CONSTANTS MaxN, Us, Rs, Vs, Cs, Emits
MCInit == /\ c \in Cs
          /\ \E m \in 1..MaxN : /\ us \in [1..m -> Us]
                                /\ rs \in {<<>>} \cup [1..m -> Rs]
                                /\ vs \in {<<>>} \cup (IF m > 2 THEN {} ELSE [1..m -> Vs])
                                /\ labs \in {<<>>} \cup [1..m -> {-1, 1}]
          /\ mis \in {""} \cup (IF Len(us) > 2 \/ c # R1 THEN {} ELSE {"r", "v", "lab"})
         /\ Init0
MCSpec == MCInit /\ [][Next]_vars
PrintRun == (Emits /\ Over) => PrintT("@@" \o ToJson([u |-> us, r |-> rs, v |-> vs, lab |-> labs, c |-> c, mis |-> mis]))
=============================================================================
