--------------------------------- MODULE Ids ---------------------------------
(* Handles (property C05).  Threads create values, blocks and functions;     *)
(* every creation takes the next identifier of its class in one atomic step. *)
(* Distinct: no handle is given twice; Classes: global and local values can  *)
(* be told apart for ever.  Checked on all interleavings; the same           *)
(* interleavings are replayed on real threads.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Each, Split,
          Atomic \* TRUE: creation is one step; FALSE: reading and advancing the counter are two

Kinds == {"g", "l", "b", "f"}
VARIABLES ctr, pc, tmp, left, given, ev, ph
vars == <<ctr, pc, tmp, left, given, ev, ph>>
Base(k) == IF k = "l" THEN Split ELSE 1
Init == /\ ctr = [k \in Kinds |-> Base(k)] /\ pc = [t \in 1..Threads |-> "idle"]
        /\ tmp = [t \in 1..Threads |-> <<"g", 0>>] /\ left = [t \in 1..Threads |-> Each]
        /\ given = <<>> /\ ev = <<>> /\ ph = "go"
Give(t, k, i) == given' = Append(given, <<k, i>>) /\ left' = [left EXCEPT ![t] = @ - 1] /\ ev' = Append(ev, <<t, k>>)
Create(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ \E k \in Kinds :
               IF Atomic THEN ctr' = [ctr EXCEPT ![k] = @ + 1] /\ Give(t, k, ctr[k]) /\ UNCHANGED <<pc, tmp>>
               ELSE tmp' = [tmp EXCEPT ![t] = <<k, ctr[k]>>] /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED <<ctr, left, given, ev>>
Finish(t) == /\ pc[t] = "write" /\ ctr' = [ctr EXCEPT ![tmp[t][1]] = tmp[t][2] + 1] /\ Give(t, tmp[t][1], tmp[t][2])
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED tmp
Next == \/ ph = "go" /\ (\E t \in 1..Threads : Create(t) \/ Finish(t)) /\ UNCHANGED ph
        \/ /\ ph = "go" /\ \A t \in 1..Threads : left[t] = 0
           /\ PrintT("@@" \o ToJson(ev)) /\ ph' = "end" /\ UNCHANGED <<ctr, pc, tmp, left, given, ev>>
Spec == Init /\ [][Next]_vars
Class(k) == IF k \in {"g", "l"} THEN "value" ELSE k
Distinct == \A i, j \in 1..Len(given) : i # j /\ Class(given[i][1]) = Class(given[j][1]) => given[i][2] # given[j][2]
Classes == \A i \in 1..Len(given) : given[i][1] \in {"g", "l"} => (given[i][1] = "g") = (given[i][2] < Split)
==============================================================================
