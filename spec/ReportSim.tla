----------------------------- MODULE ReportSim ------------------------------
(* Histories of the loggers of two threads, over one text.                   *)
EXTENDS Report, TLC, Randomization, Json
CONSTANTS NOps
VARIABLES file, st, ops, k
vars == <<file, st, ops, k>>
Pick(S) == RandomElement(S)
Alphabet == <<97, 98, 32, 32, 9, 9, 124, 94, 233, 20013, 48>>
RandLine(z) == TLCEval([i \in 1..Pick({0, 1, 2, 3, 5, 8}) |-> Alphabet[Pick(1..Len(Alphabet))]])
File(z) == LET n == Pick({1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 99, 100, 101})
           IN TLCEval([i \in 1..n |-> IF n > 20 /\ i < n - 4 THEN <<97>> ELSE RandLine(i)])
(* A span begins with the first and ends with the last byte of characters    *)
(* that are no tabs, or just behind a line; column 0 is no character.        *)
Chs(s) == {i \in 1..Len(s) : s[i] # Tab} \cup {Len(s) + 1}
PickCh(s) == IF Pick(1..12) = 1 THEN 0 ELSE Pick(Chs(s))
Far(f) == IF Len(f) > 20 THEN Pick({1, 2, Len(f) - 3, Len(f) - 2, Len(f) - 1, Len(f)}) ELSE Pick(1..Len(f))
Place(f) == LET l == Far(f) IN [l |-> l, i |-> PickCh(f[l])]
Le(a, b) == a.l < b.l \/ (a.l = b.l /\ a.i <= b.i)
Left(s, i) == IF i = 0 THEN 0 ELSE First(s, i)
Right(s, i) == IF i = 0 THEN 0 ELSE IF i > Len(s) THEN EndCol(s) ELSE First(s, i + 1) - 1
Sp(f, a, b) == LET x == IF Le(a, b) THEN a ELSE b
                   y == IF Le(a, b) THEN b ELSE a
               IN [l |-> x.l, c |-> Left(f[x.l], x.i), m |-> y.l, d |-> Right(f[y.l], y.i)]
Span(f) == LET a == TLCEval(Place(f))
               b == TLCEval(IF Pick(1..2) = 1 THEN [l |-> a.l, i |-> PickCh(f[a.l])] ELSE Place(f))
           IN TLCEval(Sp(f, a, b))
Kinds == <<"file", "file", "file", "buffer", "stdin", "gone">>
Names == <<"reset", "rawerror", "rawfatal", "rawwarn", "error", "error", "error", "fatal", "warn", "warn", "warn", "global">>
Op(s) == LET o == Names[Pick(1..Len(Names))]
         IN CASE o = "reset" -> [o |-> o, kind |-> Kinds[Pick(1..Len(Kinds))]]
              [] o \in Spanned -> [o |-> o, p |-> Span(file)]
              [] o = "global" /\ s.e + s.w = 0 -> [o |-> "error", p |-> Span(file)]
              [] OTHER -> [o |-> o]
Init == file = <<>> /\ st = <<Fresh("buffer"), Fresh("buffer")>> /\ ops = <<>> /\ k = -2
Begin == /\ k = -2
         /\ \E f \in {File(k)} : file' = f
         /\ k' = NOps /\ UNCHANGED <<st, ops>>
Take(t, o) == LET n == After(st[t], o)
                  pr == Prints(st[t], file, o)
              IN /\ st' = [st EXCEPT ![t] = n]
                 /\ ops' = Append(ops, [t |-> t, op |-> o, ans |-> Answer(o), pr |-> pr, e |-> n.e, w |-> n.w, kind |-> n.kind])
                 /\ k' = k - 1 /\ UNCHANGED file
(* both threads read the file first *)
Step == \E t \in {IF k > NOps - 2 THEN NOps - k + 1 ELSE Pick(1..2)} :
          \E o \in {TLCEval(IF k > NOps - 2 THEN [o |-> "reset", kind |-> "file"] ELSE Op(st[t]))} : Take(t, o)
Next == \/ Begin
        \/ k > 0 /\ Step
        \/ /\ k = 0 /\ PrintT("@@" \o ToJson([file |-> file, ops |-> ops]))
           /\ k' = -1 /\ UNCHANGED <<file, st, ops>>
Spec == Init /\ [][Next]_vars

(* --------- what must hold of the model itself --------- *)
SinceReset(t) == LET is == {i \in 1..Len(ops) : ops[i].t = t /\ ops[i].op.o = "reset"}
                     z == IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
                 IN {i \in (z + 1)..Len(ops) : ops[i].t = t}
Number(t, h) == LET is == {i \in SinceReset(t) : ops[i].pr.head = h} IN {1} \X is
Count(S) == LET RECURSIVE N(_)
                N(T) == IF T = {} THEN 0 ELSE 1 + N(T \ {CHOOSE x \in T : TRUE})
            IN N(S)
Adds == \A t \in {1, 2} : Count(Number(t, "error")) = st[t].e /\ Count(Number(t, "warning")) = st[t].w
FirstOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
LastOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in (i + 1)..Len(s) : s[j] # x
(* the marks stand below the first and the last character of the span, and   *)
(* the numbered rows show their lines                                        *)
Marked(x) ==
  LET p == x.op.p
      rs == x.pr.rows
      n == Len(rs)
      a == At(file, p.l)
      b == At(file, p.m)
      mi == FirstOf(rs[3].b, Caret)
      ma == LastOf(rs[n].b, Caret)
  IN /\ p.c < EndCol(a) => rs[2].b[mi] = a[CharAt(a, p.c)]
     /\ p.d < EndCol(b) => rs[n - 1].b[ma] = b[CharAt(b, p.d)]
     /\ \A i \in 1..n : \A j \in (i + 1)..n : rs[i].n > 0 /\ rs[j].n > 0 => rs[i].n < rs[j].n
Fits == ops # <<>> => LET x == ops[Len(ops)] IN x.pr.rows # <<>> => Marked(x)
=============================================================================
