----------------------------- MODULE NameTrace ------------------------------
(* Judges recorded histories of the real name manager. *)
EXTENDS NameMan, Json
CONSTANTS File
Rec == ndJsonDeserialize(File)
VARIABLES h, i, st, msg
vars == <<h, i, st, msg>>
Init == /\ h \in 1..Len(Rec) /\ i = 1 /\ st = Init0(Len(Rec[h].ents)) /\ msg = ""
Step == /\ i \in 1..Len(Rec[h].ops) /\ msg = ""
        /\ LET o == Rec[h].ops[i] IN
           /\ st' = After(Rec[h].ents, st, o, o.r)
           /\ msg' = IF Allowed(Rec[h].ents, st, o, o.r) THEN "" ELSE "step " \o ToString(i) \o " (" \o o.o \o ") was answered with " \o o.r
        /\ i' = i + 1 /\ UNCHANGED h
Over == i = Len(Rec[h].ops) + 1 \/ msg # ""
Report == /\ (IF Over THEN i # 0 ELSE FALSE)
          /\ PrintT("@@" \o ToJson([i |-> Rec[h].i, msg |-> msg]))
          /\ i' = 0 /\ msg' = "" /\ UNCHANGED <<h, st>>
Spec == Init /\ [][Step \/ Report]_vars
(* No two live names are the same: what the rules above are for. *)
Distinct == i = 0 \/ msg # "" \/ \A a, b \in DOMAIN st.held : st.held[a] = st.held[b] => a = b \/ st.held[a] = ""
=============================================================================
