------------------------------- MODULE PassMan -------------------------------
(* The pass manager (property C21).  A program is a sequence of functions    *)
(* [id, nm]; the ids stand for handles.  Running the manager runs every      *)
(* registered pass once, in order of registration, on what the passes before *)
(* it left; a module pass sees the program, a function pass every function.  *)
(* `ev` is the history with everything the passes have to see.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxPasses, MaxFuncs,
          Kinds \* the kinds of passes

VARIABLES fs, ps, ev, nid, ph
vars == <<fs, ps, ev, nid, ph>>

ModuleKinds == {"mobs", "madd", "mdel", "mren", "mrev"}
(* Functions a pass leaves; p: its number, r: how often it ran before. *)
Tag(x, p, r) == x \o "_" \o ToString(p) \o "_" \o ToString(r)
After(k, p, r, f, id) ==
  CASE k = "madd" -> Append(f, [id |-> id, nm |-> Tag("@n", p, r)])
    [] k = "mdel" -> IF f = <<>> THEN f ELSE Tail(f)
    [] k = "mren" -> [i \in 1..Len(f) |-> [f[i] EXCEPT !.nm = Tag(@, p, r)]]
    [] k = "mrev" -> IF f = <<>> THEN f ELSE Append(Tail(f), [id |-> id, nm |-> Tag("@r", p, r)])
    [] k = "fren" -> [i \in 1..Len(f) |-> [f[i] EXCEPT !.nm = Tag(@, p, r)]]
    [] OTHER -> f
Uses(k, f) == IF k = "madd" \/ (k = "mrev" /\ f # <<>>) THEN 1 ELSE 0
RECURSIVE RunFrom(_, _, _, _, _)
(* What passes i, i+1, ... see, and what they leave. *)
RunFrom(q, r, i, f, id) ==
  IF i > Len(q) THEN <<f, <<>>, id>>
  ELSE LET g == After(q[i].k, i, r - q[i].at, f, id)
           rest == RunFrom(q, r, i + 1, g, id + Uses(q[i].k, f))
       IN <<rest[1], <<[p |-> i, m |-> q[i].k \in ModuleKinds, r |-> r - q[i].at, saw |-> f]>> \o rest[2], rest[3]>>

Runs == Cardinality({i \in 1..Len(ev) : ev[i].op = "run"})
Init == /\ \E n \in 0..MaxFuncs : fs = [i \in 1..n |-> [id |-> i, nm |-> "@f" \o ToString(i)]] /\ nid = n + 1
        /\ \E n \in 0..1, k1, k2 \in Kinds :
             LET q == IF n = 0 THEN <<>> ELSE <<k1, k2>> IN
             /\ n = 0 => k1 = k2 /\ k1 = CHOOSE k \in Kinds : TRUE
             /\ ps = [i \in 1..Len(q) |-> [k |-> q[i], at |-> 0]]
             /\ ev = <<[op |-> "init", from |-> q, fs |-> fs]>>
        /\ ph = "go"
Register == /\ Len(ps) < MaxPasses
            /\ \E k \in Kinds : ps' = Append(ps, [k |-> k, at |-> Runs]) /\ ev' = Append(ev, [op |-> "reg", k |-> k])
            /\ UNCHANGED <<fs, nid>>
NewFunc == /\ Len(fs) < MaxFuncs
           /\ fs' = Append(fs, [id |-> nid, nm |-> "@u" \o ToString(nid)]) /\ nid' = nid + 1
           /\ ev' = Append(ev, [op |-> "func", f |-> fs'[Len(fs')]])
           /\ UNCHANGED ps
DoRun == LET x == RunFrom(ps, Runs, 1, fs, nid) IN
         /\ fs' = x[1] /\ nid' = x[3]
         /\ ev' = Append(ev, [op |-> "run", log |-> x[2], left |-> x[1]])
         /\ UNCHANGED ps
Steps == Len(ev) - 1
Step == /\ ph = "go" /\ Steps < MaxOps /\ (Register \/ NewFunc \/ DoRun) /\ UNCHANGED ph
Done == /\ ph = "go" /\ Steps = MaxOps /\ Runs > 0 /\ PrintT("@@" \o ToJson(ev)) /\ ph' = "end" /\ UNCHANGED <<fs, ps, ev, nid>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* A function that a run leaves was seen, under one id, by every function pass after it appeared. *)
Inv == \A i \in 1..Len(ev) : ev[i].op = "run" =>
  /\ \A j \in 1..Len(ev[i].log) : ev[i].log[j].p = j
  /\ \A x, y \in ToSet(ev[i].left) : x.id = y.id => x = y
=============================================================================
