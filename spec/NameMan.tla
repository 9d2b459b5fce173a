------------------------------ MODULE NameMan -------------------------------
(* The name manager that every generator uses.  It hands out names for the   *)
(* entities of one program.  State: whether a function is being visited, the *)
(* prefix in force, the name each entity holds, and the names handed out for *)
(* nothing in particular.  The specification says which answers are allowed, *)
(* not which fresh name is taken:                                            *)
(*   - an entity that holds a name gets the same one; globals and functions  *)
(*     hold theirs for good, blocks and local values until the function is   *)
(*     left;                                                                 *)
(*   - a name that is given is in no one else's hands;                       *)
(*   - an entity whose own name (after the prefix) is free gets just that;   *)
(*     if it is taken, a fresh name that starts with it, or, for numbers and *)
(*     entities without a name, the temporary prefix and a number;           *)
(*   - entering a function inside of one, leaving one outside, and naming a  *)
(*     constant are refused, and change nothing.                             *)
(* In the names here `#` stands for a letter that takes two bytes.           *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
At(s, i) == SubSeq(s, i, i)
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : At(s, i) \in Digits
Rest(s) == SubSeq(s, 2, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Default == [d |-> TRUE, named |-> "@", temp |-> "%", max |-> 0]
Bytes(s) == Len(s) + Cardinality({i \in 1..Len(s) : At(s, i) = "#"})
CutChars(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
CutBytes(s, n) == LET k == CHOOSE k \in 0..Len(s) : Bytes(SubSeq(s, 1, k)) <= n /\ (k = Len(s) \/ Bytes(SubSeq(s, 1, k + 1)) > n)
                  IN SubSeq(s, 1, k)
(* What a name becomes under a prefix.  Where letters take several bytes the
   limit may be read either way. *)
Candidates(p, nm) == LET c == (IF At(nm, 1) = "@" THEN p.named ELSE p.temp) \o Rest(nm)
                     IN IF p.max = 0 THEN {c} ELSE {CutChars(c, p.max), CutBytes(c, p.max)}
IsTemp(p, r) == StartsWith(r, p.temp) /\ AllDigits(SubSeq(r, Len(p.temp) + 1, Len(r)))

Init0(n) == [infn |-> FALSE, pre |-> Default, held |-> [e \in 1..n |-> ""], temps |-> {}]
Live(st) == ({st.held[e] : e \in DOMAIN st.held} \cup st.temps) \ {""}
Panic == "!panic"
Local(e) == e.k \notin {"g", "f"}

(* Is r an allowed answer to the step o? *)
Fresh(st, nm, r) ==
  /\ r # Panic /\ r # "" /\ r \notin Live(st)
  /\ IF nm = "" THEN IsTemp(st.pre, r)
     ELSE \E c \in Candidates(st.pre, nm) :
            IF c \notin Live(st) THEN r = c
            ELSE IF AllDigits(Rest(nm)) THEN IsTemp(st.pre, r)
            ELSE StartsWith(r, c)
Allowed(ents, st, o, r) ==
  CASE o.o = "enter" -> (r = Panic) = st.infn
    [] o.o = "exit"  -> (r = Panic) = ~st.infn
    [] o.o = "pre"   -> r = ""
    [] o.o = "const" -> r = Panic
    [] o.o = "temp"  -> Fresh(st, "", r)
    [] o.o = "name"  -> IF st.held[o.e] # "" THEN r = st.held[o.e] ELSE Fresh(st, ents[o.e].nm, r)
(* The state after the step o was answered with r. *)
After(ents, st, o, r) ==
  CASE o.o = "enter" -> [st EXCEPT !.infn = TRUE]
    [] o.o = "exit"  -> [st EXCEPT !.infn = FALSE, !.held = [e \in DOMAIN @ |-> IF Local(ents[e]) THEN "" ELSE @[e]]]
    [] o.o = "pre"   -> [st EXCEPT !.pre = o.p]
    [] o.o = "const" -> st
    [] o.o = "temp"  -> [st EXCEPT !.temps = @ \cup {r}]
    [] o.o = "name"  -> [st EXCEPT !.held[o.e] = r]
=============================================================================
