------------------------------- MODULE TypeSim -------------------------------
(* Types (property C06): slots hold types; they are made, copied, dropped,   *)
(* read from text and made again in any order.  After every step, which      *)
(* slots are equal, how each one prints and what size it has is determined   *)
(* by structure (and the pointer size) alone.                                *)
EXTENDS KTypes, Integers, SequencesExt, Json

CONSTANTS Steps, Slots

VARIABLES sl, psz, ev, ph
vars == <<sl, psz, ev, ph>>

None == <<"none">>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Full == {i \in 1..Slots : sl[i] # None}
RECURSIVE Depth(_), Readable(_)
Depth(t) == CASE IsI32(t) \/ IsUnit(t) -> 1
              [] IsFun(t) -> 1 + FoldLeft(LAMBDA a, x : IF Depth(x) > a THEN Depth(x) ELSE a, Depth(t[3]), t[2])
              [] OTHER -> 1 + Depth(t[2])
(* Text has no unit type, except as the missing return type of a function. *)
Readable(t) == CASE IsI32(t) -> TRUE [] IsUnit(t) -> FALSE
                 [] IsFun(t) -> (IsUnit(t[3]) \/ Readable(t[3])) /\ \A i \in 1..Len(t[2]) : Readable(t[2][i])
                 [] OTHER -> Readable(t[2])
(* Lengths and sizes are natural numbers beyond TLC's own: sequences of limbs *)
(* of four decimal digits, the lowest first.                                  *)
Lens == {<<1>>, <<2>>, <<3>>, <<10>>, <<11>>, <<100>>}
BigLens == {<<255>>, <<256>>, <<4095>>, <<5535, 6>>, <<5536, 6>>,                           \* 2^16
            <<3647, 4748, 21>>, <<3648, 4748, 21>>, <<7296, 9496, 42>>, <<7297, 9496, 42>>, \* 2^31 - 1 .. 2^32 + 1
            <<4597, 8993, 85>>, <<0, 0, 0, 1>>, <<992, 5474, 1992, 9007>>}                  \* 2^33 + 5, 10^12, 2^53
Pad(x) == LET t == ToString(x) IN SubSeq("0000", 1, 4 - Len(t)) \o t
LStr(a) == FoldLeft(LAMBDA t, x : Pad(x) \o t, "", SubSeq(a, 1, Len(a) - 1))
NumStr(a) == ToString(a[Len(a)]) \o LStr(a)
Norm(a) == LET top == {i \in 1..Len(a) : a[i] # 0} IN
           IF top = {} THEN <<0>> ELSE SubSeq(a, 1, CHOOSE i \in top : \A j \in top : j <= i)
Limb(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
RECURSIVE Carry(_, _, _)
Carry(col, i, c) == IF i > Len(col) THEN (IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Carry(col, i, c \div 10000))
                    ELSE <<(col[i] + c) % 10000>> \o Carry(col, i + 1, (col[i] + c) \div 10000)
Mul(a, b) ==
  Norm(Carry([k \in 1..Len(a) + Len(b) |->
               FoldLeft(LAMBDA t, i : t + Limb(a, i) * Limb(b, k + 1 - i), 0, [i \in 1..k |-> i])], 1, 0))
RECURSIVE Size(_, _), Show(_), Shows(_)
Size(t, p) == CASE IsI32(t) -> <<4>> [] IsUnit(t) -> <<0>> [] IsArr(t) -> Mul(Size(t[2], p), t[3]) [] OTHER -> <<p>>
Show(t) == CASE IsI32(t) -> "i32" [] IsUnit(t) -> "unit" [] IsPtr(t) -> "*" \o Show(t[2])
             [] IsArr(t) -> "[" \o Show(t[2]) \o ", " \o NumStr(t[3]) \o "]"
             [] OTHER -> "(" \o Shows(t[2]) \o ")" \o (IF IsUnit(t[3]) THEN "" ELSE ": " \o Show(t[3]))
Shows(ts) == FoldLeft(LAMBDA a, t : (IF a = "" THEN "" ELSE a \o ", ") \o Show(t), "", ts)
(* Elements, whatever their size: what fits in 64 bits. *)
RECURSIVE Cells(_)
Cells(t) == IF IsArr(t) THEN Mul(Cells(t[2]), t[3]) ELSE <<1>>
Class(s, i) == IF s[i] = None THEN 0 ELSE CHOOSE j \in 1..i : s[j] = s[i] /\ \A k \in 1..j - 1 : s[k] # s[i]

Step(op, a, t, d) ==
  /\ sl' = [sl EXCEPT ![d] = t]
  /\ ev' = Append(ev, [op |-> op, a |-> a, d |-> d, sz |-> [i \in 1..Slots |-> IF sl'[i] = None THEN "" ELSE NumStr(Size(sl'[i], psz'))],
                       tx |-> [i \in 1..Slots |-> IF sl'[i] = None THEN "" ELSE Show(sl'[i])],
                       rd |-> [i \in 1..Slots |-> IF sl'[i] # None /\ Readable(sl'[i]) THEN 1 ELSE 0],
                       cl |-> [i \in 1..Slots |-> Class(sl', i)]])

Free(i) == IF i \in Full /\ RandomElement(1..6) > 1 /\ Full # 1..Slots THEN RandomElement((1..Slots) \ Full) ELSE i
Make ==
  \E k \in {RandomElement(1..12)} : \E d0 \in {RandomElement(1..Slots)} : \E d \in {Free(d0)} :
  \E via \in Pick({"get", "kind"}) :
    /\ psz' = psz
    /\ CASE k = 1 -> Step("i32", <<via>>, I32, d)
         [] k = 2 -> Step("unit", <<via>>, Unit, d)
         [] k \in 3..5 /\ Full # {} -> \E s \in Pick({s \in Full : Depth(sl[s]) < 6}) :
                                         \E n \in Pick(IF RandomElement(1..4) = 1 THEN BigLens ELSE Lens) :
                                           IF Len(Mul(Cells(sl[s]), n)) > 4 THEN Step("drop", <<>>, None, d)
                                           ELSE Step("arr", <<via, ToString(s), NumStr(n)>>, Arr(sl[s], n), d)
         [] k \in 6..7 /\ Full # {} -> \E s \in Pick({s \in Full : Depth(sl[s]) < 6}) : Step("ptr", <<via, ToString(s)>>, Ptr(sl[s]), d)
         [] k \in 8..11 /\ Full # {} -> \E n \in Pick(0..3) : \E as \in {TLCEval([i \in 1..n + 1 |-> RandomElement(Full)])} :
              LET t == Fun([i \in 1..n |-> sl[as[i]]], sl[as[n + 1]]) IN
              IF Depth(t) > 6 THEN Step("drop", <<>>, None, d)
              ELSE Step("fun", <<via>> \o [i \in 1..n + 1 |-> ToString(as[i])], t, d)
         [] OTHER -> Step("i32", <<via>>, I32, d)
Copy == \E s \in Pick(Full) : \E d \in Pick(1..Slots) : psz' = psz /\ Step("copy", <<ToString(s)>>, sl[s], d)
(* Read the text of a type from a declaration. *)
Read == \E s \in Pick({s \in Full : Readable(sl[s])}) : \E d \in Pick(1..Slots) :
          psz' = psz /\ Step("read", <<Show(sl[s])>>, sl[s], d)
Drop == \E d \in Pick(Full) : psz' = psz /\ Step("drop", <<>>, None, d)
DropAll == /\ sl' = [i \in 1..Slots |-> None]
           /\ ev' = Append(ev, [op |-> "dropall", a |-> <<>>, d |-> 1, sz |-> [i \in 1..Slots |-> ""], tx |-> [i \in 1..Slots |-> ""],
                                rd |-> [i \in 1..Slots |-> 0], cl |-> [i \in 1..Slots |-> 0]])
           /\ UNCHANGED psz
PtrSize == \E p \in Pick({1, 2, 4, 8, 16}) : psz' = p /\ \E d \in Pick(1..Slots) : Step("psize", <<ToString(p)>>, sl[d], d)
(* An array of length zero is refused. *)
Zero == \E s \in Pick(Full) : \E d \in Pick(1..Slots) : psz' = psz /\ Step("arr0", <<ToString(s)>>, sl[d], d)

Init == sl = [i \in 1..Slots |-> None] /\ psz = 8 /\ ev = <<>> /\ ph = "go"
Next == \/ /\ ph = "go" /\ Len(ev) < Steps
           /\ \E w \in {RandomElement(1..20)} :
                CASE w \in 1..12 -> Make [] w \in 13..14 -> IF Full # {} THEN Copy ELSE Make
                  [] w = 15 -> IF \E s \in Full : Readable(sl[s]) THEN Read ELSE Make
                  [] w \in 16..17 -> IF Full # {} THEN Drop ELSE Make
                  [] w = 18 -> PtrSize [] w = 19 -> IF Full # {} THEN Zero ELSE Make
                  [] OTHER -> IF Full # {} /\ RandomElement(1..4) = 1 THEN DropAll ELSE Make
           /\ UNCHANGED ph
        \/ ph = "go" /\ Len(ev) = Steps /\ PrintT("@@" \o ToJson(ev)) /\ ph' = "end" /\ UNCHANGED <<sl, psz, ev>>
Spec == Init /\ [][Next]_vars
Inv == \A i, j \in 1..Slots : sl[i] # None /\ sl[j] # None => (sl[i] = sl[j]) = (Show(sl[i]) = Show(sl[j]))
ASSUME NumStr(Mul(<<3648, 4748, 21>>, <<2>>)) = "4294967296" /\ NumStr(Mul(<<5536, 6>>, <<5536, 6>>)) = "4294967296"
       /\ NumStr(Mul(<<7297, 9496, 42>>, <<0>>)) = "0" /\ NumStr(Mul(<<9999, 9999>>, <<9999, 9999>>)) = "9999999800000001"
=============================================================================
