------------------------------- MODULE LexSim -------------------------------
(* Random texts, character by character, with their tokens.                  *)
EXTENDS LexGen, Json

CONSTANTS MaxN

VARIABLES ph, cs, left
vars == <<ph, cs, left>>
Coin(n) == RandomElement(1..n) = 1
Init == ph = "go" /\ cs = <<>> /\ left = MaxN
Add == /\ ph = "go"
       /\ IF left > 0 /\ ~Coin(MaxN) THEN
            /\ \E k \in {RandomElement(1..20)} : \E f \in {TLCEval(Frag(k))} : cs' = cs \o f \o (IF Coin(2) THEN <<" ">> ELSE <<>>)
            /\ left' = left - 1 /\ UNCHANGED ph
          ELSE ph' = "done" /\ UNCHANGED <<cs, left>>
Done == /\ ph = "done"
        /\ \E r \in {TLCEval(Lex(cs))} :
             PrintT("@@" \o ToJson([b |-> cs, e |-> r.end, m |-> TokMarks(cs, r.toks), x |-> IF r.end = "err" THEN Marks(cs)[r.at] ELSE EndMark(cs), t |-> [i \in 1..Len(r.toks) |-> <<r.toks[i].c, r.toks[i].s, IF r.toks[i].nl THEN "1" ELSE "0">>]]))
        /\ ph' = "end" /\ UNCHANGED <<cs, left>>
Next == Add \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
