-------------------------------- MODULE CApi --------------------------------
(* The C interface of libkoopa as a protocol: programs are parsed, dumped,   *)
(* deleted; raw program builders make raw forms, which live until their      *)
(* builder is deleted, whatever happens to the program; programs are         *)
(* generated from raw forms.  Texts 1..NA are accepted by the library, texts *)
(* NA+1..NT are not.  What a program handle or a raw form stands for is the  *)
(* number of the text it comes from.  Every event carries the error codes    *)
(* it may return; on any but success the output pointer keeps its value.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NA, NT, NP, NB, NR, Steps,
          Vias,     \* ways to parse and dump
          Bad,      \* failing calls as well
          Sim       \* simulation: sparse choices; otherwise all of them

VARIABLES progs, bld, raws, dirty, h
vars == <<progs, bld, raws, dirty, h>>

Ok == 0  Utf8 == 1  NoFile == 2  NoProgram == 3  Io == 4  Short == 6

Init == progs = [p \in 1..NP |-> 0] /\ bld = [b \in 1..NB |-> FALSE]
        /\ raws = [r \in 1..NR |-> <<0, 0>>] /\ dirty = FALSE /\ h = <<>>

Lowest(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : \A y \in S : x <= y}
FreeP == Lowest({p \in 1..NP : progs[p] = 0})
FreeR == Lowest({r \in 1..NR : raws[r] = <<0, 0>>})
LiveP == {p \in 1..NP : progs[p] # 0}
LiveR == {r \in 1..NR : raws[r] # <<0, 0>>}
Some(S) == IF S = {} THEN {} ELSE IF Sim THEN {RandomElement(S)} ELSE S
E(op, via, a, b, c, e) == [op |-> op, via |-> via, a |-> a, b |-> b, c |-> c, e |-> e]
Log(e) == h' = Append(h, e)

(* Standard input is read ahead: after a rejected text, what is left of it   *)
(* may still be in the way of the next.                                      *)
Parse == \E v \in Some(Vias), t \in Some(1..NT), p \in FreeP :
  /\ v = "stdio" => ~dirty
  /\ dirty' = (dirty \/ (v = "stdio" /\ t > NA))
  /\ progs' = [progs EXCEPT ![p] = IF t <= NA THEN t ELSE 0]
  /\ Log(E("parse", v, t, p, 0, IF t <= NA THEN <<Ok>> ELSE <<NoProgram>>))
  /\ UNCHANGED <<bld, raws>>

BadParse == \E w \in Some({<<"path8", <<Utf8>>>>, <<"str8", <<Utf8>>>>, <<"missing", <<NoFile>>>>,
                           <<"dir", <<NoFile, NoProgram, Io>>>>, <<"writeonly", <<NoProgram, Io>>>>}) :
  /\ Bad /\ Log(E("badparse", w[1], 0, 0, 0, w[2])) /\ UNCHANGED <<progs, bld, raws, dirty>>

(* Sizes of buffers: null, or the length n of the text with something added. *)
Sizes == IF Sim THEN {"null", "0", "1", "half", "n-1", "n", "n+1", "n+2", "n+100"} ELSE {"null", "n", "n+1"}
Dump == \E v \in Some(Vias), p \in Some(LiveP), ll \in Some({0, 1}) : \E s \in IF v = "str" THEN Some(Sizes) ELSE {"-"} :
  /\ Log(E("dump", v, p, ll, s,
           IF v = "str" /\ s \in {"0", "1", "half", "n-1", "n"} THEN <<Short>> ELSE <<Ok>>))
  /\ UNCHANGED <<progs, bld, raws, dirty>>
BadDump == \E w \in Some({<<"path8", <<Utf8>>>>, <<"nodir", <<NoFile>>>>, <<"isdir", <<NoFile>>>>,
                          <<"full", <<Io>>>>, <<"readonly", <<Io>>>>}),
              p \in Some(LiveP), ll \in Some({0, 1}) :
  /\ Bad /\ Log(E("baddump", w[1], p, ll, 0, w[2])) /\ UNCHANGED <<progs, bld, raws, dirty>>

Delete == \E p \in Some(LiveP) :
  /\ progs' = [progs EXCEPT ![p] = 0] /\ Log(E("delete", "", p, 0, 0, <<>>)) /\ UNCHANGED <<bld, raws, dirty>>
NewB == \E b \in Lowest({b \in 1..NB : ~bld[b]}) :
  /\ bld' = [bld EXCEPT ![b] = TRUE] /\ Log(E("newb", "", b, 0, 0, <<>>)) /\ UNCHANGED <<progs, raws, dirty>>
DelB == \E b \in Some({b \in 1..NB : bld[b]}) :
  /\ bld' = [bld EXCEPT ![b] = FALSE]
  /\ raws' = [r \in 1..NR |-> IF raws[r][1] = b THEN <<0, 0>> ELSE raws[r]]
  /\ Log(E("delb", "", b, 0, 0, <<>>)) /\ UNCHANGED <<progs, dirty>>
Build == \E b \in Some({b \in 1..NB : bld[b]}), p \in Some(LiveP), r \in FreeR :
  /\ raws' = [raws EXCEPT ![r] = <<b, progs[p]>>]
  /\ Log(E("build", "", b, p, r, <<>>)) /\ UNCHANGED <<progs, bld, dirty>>
Read == \E r \in Some(LiveR) :
  /\ Log(E("read", "", r, raws[r][2], 0, <<>>)) /\ UNCHANGED <<progs, bld, raws, dirty>>
Gen == \E r \in Some(LiveR), p \in FreeP :
  /\ progs' = [progs EXCEPT ![p] = raws[r][2]]
  /\ Log(E("gen", "", r, p, raws[r][2], <<Ok>>)) /\ UNCHANGED <<bld, raws, dirty>>

Step == Len(h) < Steps /\
  (Parse \/ BadParse \/ Dump \/ BadDump \/ Delete \/ NewB \/ DelB \/ Build \/ Read \/ Gen)
(* In the end, everything that is alive is read once more. *)
Final == [progs |-> [p \in 1..NP |-> progs[p]], raws |-> [r \in 1..NR |-> raws[r][2]], bld |-> [b \in 1..NB |-> bld[b]]]
Done == /\ Len(h) = Steps /\ PrintT("@@" \o ToJson([h |-> h, end |-> Final]))
        /\ h' = Append(h, E("end", "", 0, 0, 0, <<>>)) /\ UNCHANGED <<progs, bld, raws, dirty>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* A raw form needs a live builder; it does not need its program. *)
Inv == \A r \in LiveR : raws[r][1] \in 1..NB /\ bld[raws[r][1]] /\ raws[r][2] \in 1..NA
(* Nothing but deletion takes a raw form away. *)
Lasting == [][\A r \in 1..NR : (raws[r] # <<0, 0>> /\ raws'[r] # raws[r]) => ~bld'[raws[r][1]]]_vars
=============================================================================
