------------------------------- MODULE Report -------------------------------
(* The logger of the front end, which is one per thread: it knows the text   *)
(* being read (in memory, from a file, ...) and counts errors and warnings.  *)
(* A message about a span names the position where the span begins; if the   *)
(* text is a file, the lines of the span follow, numbered, with its first    *)
(* and last column marked.  Of more than four lines between the first and    *)
(* the last one only the first two and the last are shown.                   *)
(* Characters are code points; a tab is shown as two blanks.                 *)
EXTENDS Integers, Sequences
Tab == 9
Blank == 32
Bar == 124
Under == 95
Caret == 94
Rep(x, n) == [i \in 1..n |-> x]
RECURSIVE Shown(_)
Shown(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = Tab THEN <<Blank, Blank>> ELSE <<Head(s)>>) \o Shown(Tail(s))
(* Columns count bytes, as they are read; what is shown are characters.       *)
Bytes(x) == IF x < 128 THEN 1 ELSE IF x < 2048 THEN 2 ELSE 3
RECURSIVE First(_, _)
(* the column of the first byte of the i-th character *)
First(s, i) == IF i <= 1 THEN 1 ELSE First(s, i - 1) + Bytes(s[i - 1])
EndCol(s) == First(s, Len(s) + 1)
(* the character that has a byte in column c; behind the line each byte      *)
(* stands for one                                                            *)
CharAt(s, c) == IF c >= EndCol(s) THEN Len(s) + 1 + c - EndCol(s)
                ELSE CHOOSE i \in 1..Len(s) : First(s, i) <= c /\ c < First(s, i + 1)
(* where it is shown *)
Col(s, c) == LET i == CharAt(s, c)
             IN i + Len(SelectSeq(SubSeq(s, 1, IF i < Len(s) THEN i ELSE Len(s)), LAMBDA x : x = Tab))

(* A row of an excerpt: the number of a line of the text, 0 for a row of     *)
(* marks, -1 where lines are left out; and what stands right of the bar.     *)
Row(n, b) == [n |-> n, b |-> b]
At(file, l) == IF l <= Len(file) THEN file[l] ELSE <<>>
OneLine(file, l, c, d) ==
  LET s == At(file, l)
  IN <<Row(0, <<>>), Row(l, <<Blank>> \o Shown(s)),
       Row(0, <<Blank>> \o Rep(Blank, Col(s, c) - 1) \o Rep(Caret, Col(s, d) - Col(s, c) + 1))>>
Inner(file, l) == Row(l, <<Blank, Bar, Blank>> \o Shown(At(file, l)))
Between(file, l, m) ==
  IF m - l - 1 <= 4 THEN [i \in 1..(m - l - 1) |-> Inner(file, l + i)]
  ELSE <<Inner(file, l + 1), Inner(file, l + 2), Row(-1, <<Blank, Bar>>), Inner(file, m - 1)>>
Lines(file, l, c, m, d) ==
  <<Row(0, <<>>), Row(l, <<Blank, Blank, Blank>> \o Shown(At(file, l))), Row(0, <<Blank, Blank>> \o Rep(Under, Col(At(file, l), c)) \o <<Caret>>)>>
  \o Between(file, l, m)
  \o <<Inner(file, m), Row(0, <<Blank, Bar>> \o Rep(Under, Col(At(file, m), d)) \o <<Caret>>)>>
(* Spans that touch column 0 (no character was read there) have no excerpt. *)
Excerpt(kind, file, p) ==
  IF kind # "file" \/ p.c = 0 \/ p.d = 0 THEN <<>>
  ELSE IF p.l = p.m THEN OneLine(file, p.l, p.c, p.d) ELSE Lines(file, p.l, p.c, p.m, p.d)

(* ------------------------- the state of a thread ------------------------- *)
Fresh(kind) == [kind |-> kind, e |-> 0, w |-> 0]
Errors == {"rawerror", "rawfatal", "error", "fatal"}
Warnings == {"rawwarn", "warn"}
Spanned == {"error", "fatal", "warn"}
After(st, o) == CASE o.o = "reset" -> Fresh(o.kind)
                  [] o.o \in Errors -> [st EXCEPT !.e = @ + 1]
                  [] o.o \in Warnings -> [st EXCEPT !.w = @ + 1]
                  [] OTHER -> st
(* what a step prints *)
Prints(st, file, o) ==
  [head |-> IF o.o \in Errors THEN "error" ELSE IF o.o \in Warnings THEN "warning" ELSE IF o.o = "global" THEN "total" ELSE "",
   at |-> IF o.o \in Spanned THEN <<o.p.l, o.p.c>> ELSE <<>>,
   rows |-> IF o.o \in Spanned THEN Excerpt(st.kind, file, o.p) ELSE <<>>]
(* what a step answers *)
Answer(o) == IF o.o \in {"rawfatal", "fatal"} THEN "fatal" ELSE IF o.o \in Errors THEN "error" ELSE ""
=============================================================================
