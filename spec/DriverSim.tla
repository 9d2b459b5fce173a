----------------------------- MODULE DriverSim -----------------------------
(* Parsers as objects (property C13): they are created, run and thrown away  *)
(* on several threads in any order, and their input may fail.  The outcome   *)
(* of a run is a function of its own input alone: `own` (what the text       *)
(* means), or `fail` when the input can not be read to its end.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Steps, Threads, Texts, MaxD

VARIABLES ds, ev, ph, done
vars == <<ds, ev, ph, done>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Hows == {"string", "str", "bytes", "file", "path", "slow", "stdin"}
Waiting(t) == {d \in 1..Len(ds) : ds[d].t = t /\ ds[d].st = "new"}
Outcome(d) == IF d.at = 0 THEN "own" ELSE "fail"

Init == ds = <<>> /\ ev = <<>> /\ ph = "go" /\ done = 0
Create == \E t \in Pick(1..Threads) : \E x \in Pick(1..Texts) : \E h \in Pick(Hows) : \E f \in {RandomElement(1..4)} : \E at \in Pick(1..1000) :
  /\ Len(ds) < MaxD
  /\ ds' = Append(ds, [t |-> t, x |-> x, st |-> "new", at |-> IF f = 1 THEN at ELSE 0])
  \* at: thousandths of the input after which reading fails; again: what the input does afterwards
  /\ \E ag \in Pick({"fails", "goes on", "ends"}) :
       ev' = Append(ev, [op |-> "new", t |-> t, d |-> Len(ds) + 1, x |-> x, how |-> IF f = 1 THEN "faulty" ELSE h, at |-> IF f = 1 THEN at ELSE 0, again |-> ag])
  /\ UNCHANGED done
Run == \E t \in Pick({t \in 1..Threads : Waiting(t) # {}}) : \E d \in Pick(Waiting(t)) :
  /\ ds' = [ds EXCEPT ![d].st = "ran"]
  /\ ev' = Append(ev, [op |-> "run", t |-> t, d |-> d, want |-> Outcome(ds[d])]) /\ done' = done + 1
Forget == \E t \in Pick({t \in 1..Threads : Waiting(t) # {}}) : \E d \in Pick(Waiting(t)) :
  /\ ds' = [ds EXCEPT ![d].st = "dropped"]
  /\ ev' = Append(ev, [op |-> "drop", t |-> t, d |-> d]) /\ UNCHANGED done
Busy == \E t \in 1..Threads : Waiting(t) # {}
Next == \/ /\ ph = "go" /\ Len(ev) < Steps
           /\ \E w \in {RandomElement(1..10)} :
                IF ~Busy \/ (w \in 1..5 /\ Len(ds) < MaxD) THEN Len(ds) < MaxD /\ Create ELSE IF w = 6 THEN Forget ELSE Run
           /\ UNCHANGED ph
        \/ /\ ph = "go" /\ (Len(ev) = Steps \/ (~Busy /\ Len(ds) = MaxD))
           /\ PrintT("@@" \o ToJson(ev)) /\ ph' = "end" /\ UNCHANGED <<ds, ev, done>>
Spec == Init /\ [][Next]_vars
(* Every run has one outcome, settled by its own input. *)
Inv == \A i, j \in 1..Len(ev) : ev[i].op = "run" /\ ev[j].op = "run" /\ ds[ev[i].d].x = ds[ev[j].d].x
                                /\ ds[ev[i].d].at = 0 /\ ds[ev[j].d].at = 0 => ev[i].want = ev[j].want
=============================================================================
