----------------------------- MODULE LLVMTrace ------------------------------
(* Judges recorded outputs of the LLVM IR generator. *)
EXTENDS LLVM
CONSTANTS File
Rec == ndJsonDeserialize(File)
VARIABLES k, d
Init == k \in 1..Len(Rec) /\ d = FALSE
Next == /\ ~d /\ d' = TRUE /\ UNCHANGED k
        /\ \E x \in {TLCEval(JudgeModule(Rec[k].ll))} : PrintT("@@" \o ToJson([k |-> k, i |-> Rec[k].i, msg |-> x]))
Spec == Init /\ [][Next]_<<k, d>>
=============================================================================
