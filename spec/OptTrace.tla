------------------------------ MODULE OptTrace ------------------------------
(* Checks what the optimizer (or the Brainfuck compiler) wrote: each        *)
(* recorded output must be a well-formed program (Front) whose execution    *)
(* (Exec) makes the calls and gives the result of the original program.     *)
EXTENDS Front, Exec

CONSTANTS File, MaxSteps
Rec == ndJsonDeserialize(File)

VARIABLES k, d
Toks(r) == [i \in 1..Len(r.t) |-> [s |-> r.t[i], nl |-> r.nl[i] = 1]]
MainOf(P) == LET c == {f \in 1..Len(P.fs) : P.fs[f].nm = "@main"} IN IF c = {} THEN 0 ELSE CHOOSE f \in c : TRUE

Judge(r) ==
  LET m == TLCEval(Program(Toks(r))) IN
  IF m.v # "ok" THEN "the written program is not well formed (" \o m.why \o ")"
  ELSE IF MainOf(m.q) = 0 THEN "the written program has no main function"
  ELSE IF ~r.run THEN ""
  ELSE LET S == Run(m.q, Start(m.q, MainOf(m.q), r.ins), MaxSteps) IN
       IF S.st # "done" THEN "the written program does not end as the original: " \o S.st \o " " \o S.why
       ELSE IF S.out # r.out THEN "the written program makes other calls: " \o ToString(S.out)
       ELSE IF S.ret # Num(r.ret) THEN "the written program gives " \o ToString(S.ret[2])
       ELSE ""

Init == k \in 1..Len(Rec) /\ d = FALSE
Next == /\ ~d /\ d' = TRUE /\ UNCHANGED k
        /\ \E x \in {TLCEval(Judge(Rec[k]))} : PrintT("@@" \o ToJson([k |-> k, i |-> Rec[k].i, msg |-> x]))
Spec == Init /\ [][Next]_<<k, d>>
=============================================================================
