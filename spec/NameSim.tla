------------------------------ MODULE NameSim -------------------------------
(* Histories of a name manager: a program (its entities, with names that     *)
(* clash) and the steps taken.  Only steps that the documentation speaks     *)
(* about: locals are named while a function is visited.                      *)
EXTENDS NameMan, Integers, Randomization, Json
CONSTANTS NEnts, NOps
VARIABLES ents, ops, infn, fn, k

Pick(S) == RandomElement(S)
Names == <<"@x", "%x", "@x", "@x_0", "@x_1", "%x_0", "@0", "%0", "%1", "@1", "%2", "%10", "%11", "@00", "@x0", "@xy", "@xyz", "@x#", "@#", "@##a",
           "%#0", "@0_0", "@%0", "%@0", "@v0", "@v", "%v", "%_0", "@_", "@a", "%a", "@a_0_0", "@a_0", "@99999999999999999999999", "%18446744073709551615">>
Prefs == <<Default, Default,
  [d |-> FALSE, named |-> "@", temp |-> "@$", max |-> 0], [d |-> FALSE, named |-> "%", temp |-> "%$", max |-> 0],
  [d |-> FALSE, named |-> "x", temp |-> "x", max |-> 0], [d |-> FALSE, named |-> "", temp |-> "v", max |-> 0],
  [d |-> FALSE, named |-> "", temp |-> "", max |-> 0], [d |-> FALSE, named |-> "", temp |-> "1", max |-> 0],
  [d |-> FALSE, named |-> "v", temp |-> "v1", max |-> 0], [d |-> FALSE, named |-> "@", temp |-> "%", max |-> 2],
  [d |-> FALSE, named |-> "@", temp |-> "%", max |-> 3], [d |-> FALSE, named |-> "v", temp |-> "t", max |-> 4],
  [d |-> FALSE, named |-> "long_", temp |-> "%", max |-> 3], [d |-> FALSE, named |-> "#", temp |-> "##", max |-> 5],
  [d |-> FALSE, named |-> "@", temp |-> "%", max |-> 1], [d |-> FALSE, named |-> "%", temp |-> "@", max |-> 0]>>
Kinds == <<"g", "g", "f", "f", "b", "b", "v", "v", "v", "p", "q">>
(* A history often keeps to a few names and prefixes, so that they meet. *)
NmPool(z) == TLCEval([i \in 1..Pick(2..6) |-> Names[Pick(1..Len(Names))]])
PfPool(z) == TLCEval([i \in 1..Pick(1..3) |-> Prefs[Pick(1..Len(Prefs))]])
Ent(pool, i) == LET kd == IF i = 1 THEN "f" ELSE Kinds[Pick(1..Len(Kinds))]
                IN [k |-> kd, nm |-> IF kd # "f" /\ Pick(1..3) = 1 THEN "" ELSE pool[Pick(1..Len(pool))]]
(* the function an entity is in: the i-th function is entity number fs[i] *)
Make(pool) == LET es == TLCEval([i \in 1..NEnts |-> Ent(pool, i)])
                  fs == {i \in 1..NEnts : es[i].k = "f"}
              IN TLCEval([i \in 1..NEnts |-> [k |-> es[i].k, nm |-> es[i].nm, f |-> IF Local(es[i]) THEN Pick(fs) ELSE 0]])

VARIABLE pf
vars == <<ents, ops, infn, fn, k, pf>>
Init == ents = <<>> /\ ops = <<>> /\ infn = FALSE /\ fn = 0 /\ k = -2 /\ pf = <<>>
Begin == /\ k = -2
         /\ \E pool \in {NmPool(k)} : \E es \in {TLCEval(Make(pool))} : ents' = es
         /\ \E q \in {PfPool(k)} : pf' = q
         /\ \E m \in {Pick((NOps \div 4)..NOps)} : k' = m
         /\ UNCHANGED <<ops, infn, fn>>

Funs == {e \in 1..Len(ents) : ents[e].k = "f"}
Nameable == {e \in 1..Len(ents) : ~Local(ents[e]) \/ (infn /\ ents[e].f = fn)}
Do(o) == /\ ops' = Append(ops, o) /\ k' = k - 1 /\ UNCHANGED <<ents, pf>>
Step ==
  \E c \in {Pick(1..40)} :
    CASE c <= 3 -> /\ Do([o |-> "enter"]) /\ infn' = TRUE
                   /\ fn' = IF infn THEN fn ELSE Pick(Funs)
      [] c <= 6 -> Do([o |-> "exit"]) /\ infn' = FALSE /\ fn' = fn
      [] c <= 9 -> Do([o |-> "temp"]) /\ UNCHANGED <<infn, fn>>
      [] c <= 11 -> Do([o |-> "pre", p |-> pf[Pick(1..Len(pf))]]) /\ UNCHANGED <<infn, fn>>
      [] c <= 12 -> Do([o |-> "const"]) /\ UNCHANGED <<infn, fn>>
      [] OTHER -> Do([o |-> "name", e |-> Pick(Nameable)]) /\ UNCHANGED <<infn, fn>>
Next == \/ Begin
        \/ /\ k > 0 /\ Step
        \/ /\ k = 0 /\ PrintT("@@" \o ToJson([ents |-> ents, ops |-> ops]))
           /\ k' = -1 /\ UNCHANGED <<ents, ops, infn, fn, pf>>
Spec == Init /\ [][Next]_vars
=============================================================================
