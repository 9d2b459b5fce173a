-------------------------------- MODULE Sink --------------------------------
(* Writing a program to a writer that fails or writes little.                *)
(* The writer has gates at positions of the byte stream (in units of 1/M of  *)
(* the text): when all bytes before a gate are written, the next call gives  *)
(* what the gate says, once.  `Interrupted` asks to call again; "zero" takes *)
(* no byte, which ends the attempt with WriteZero; any other error ends the  *)
(* attempt.  A writer may also take only a few bytes per call, which changes *)
(* nothing.  An attempt to generate writes the text from its beginning; it   *)
(* succeeds exactly when all of it is written, otherwise the error is the    *)
(* writer's, and nothing is written after it.  The next attempt with the     *)
(* same generator starts anew, whatever became of the one before.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS M, MaxGates, Kinds, Attempts
Gates == [at : 0..M * Attempts, w : {"Interrupted", "zero"} \cup Kinds]
Before(a, b) == a.at <= b.at
RECURSIVE Plans(_)
Plans(n) == IF n = 0 THEN {<<>>}
            ELSE LET S == Plans(n - 1) IN S \cup {Append(p, g) : p \in {p \in S : Len(p) = n - 1}, g \in Gates}
Ordered(p) == \A i \in 1..Len(p) - 1 : Before(p[i], p[i + 1])
(* errors of different kinds behave the same: one kind per gate is enough *)
VARIABLES plan, step, pos, from, g, res, done
vars == <<plan, step, pos, from, g, res, done>>
Init == /\ plan \in {p \in Plans(MaxGates) : Ordered(p)}
        /\ step \in {0, 1, 5}                  \* bytes taken per call; 0 for all
        /\ pos = 0 /\ from = 0 /\ g = 1 /\ res = <<>> /\ done = FALSE
End == from + M
Finish(r) == /\ res' = Append(res, [r |-> r, from |-> from, to |-> pos])
             /\ from' = pos
AtGate == IF g > Len(plan) THEN FALSE ELSE plan[g].at = pos
Busy == Len(res) < Attempts
Gate == /\ Busy /\ pos < End /\ AtGate
        /\ g' = g + 1
        /\ IF plan[g].w = "Interrupted" THEN UNCHANGED <<res, from>>
           ELSE Finish(IF plan[g].w = "zero" THEN "WriteZero" ELSE plan[g].w)
        /\ UNCHANGED <<plan, step, pos, done>>
Flow == /\ Busy /\ pos < End /\ ~AtGate
        /\ pos' = pos + 1
        /\ UNCHANGED <<plan, step, from, g, res, done>>
Complete == /\ Busy /\ pos = End /\ Finish("ok") /\ UNCHANGED <<plan, step, pos, g, done>>
Report == /\ ~Busy /\ ~done /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([plan |-> plan, step |-> step, res |-> res]))
          /\ UNCHANGED <<plan, step, pos, from, g, res>>
Next == Gate \/ Flow \/ Complete \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* Ok exactly when all is written; an attempt never writes more than the text. *)
Inv == \A i \in 1..Len(res) : (res[i].r = "ok") = (res[i].to = res[i].from + M) /\ res[i].to <= res[i].from + M
Ends == <>done
=============================================================================
