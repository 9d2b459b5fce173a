-------------------------------- MODULE Lex --------------------------------
(* How bytes are cut into tokens (property C25).  A text is a sequence of    *)
(* one-character strings; bytes that are not printable ASCII, tab, line feed *)
(* or carriage return are written xNN.  Lex gives the tokens up to the first *)
(* error: [toks, end, at], end = "ok" | "err" | "any", at: the position of   *)
(* the error; a token has its first and last position, i and j.  "any":      *)
(* nothing is promised for what follows (a byte that is no ASCII character,  *)
(* a form feed or vertical tab, a lone carriage return after `ret`).         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

LDigit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LLower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
           "t", "u", "v", "w", "x", "y", "z"}
LUpper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S",
           "T", "U", "V", "W", "X", "Y", "Z"}
LAlpha == LLower \cup LUpper
LWord  == LAlpha \cup LDigit \cup {"_"}
LSpace == {" ", "\t", "\n", "\r"}
LKeys == {"i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr",
          "br", "jump", "call", "ret", "fun", "decl"}
LOps == {"ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod",
         "and", "or", "xor", "shl", "shr", "sar"}
Odd(c) == Len(c) > 1

RECURSIVE Past(_, _, _)
(* First position from i on whose character is not in S. *)
Past(cs, i, S) == IF i <= Len(cs) /\ cs[i] \in S THEN Past(cs, i + 1, S) ELSE i
Word(cs, i, j) == FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(cs, i, j - 1))

(* Integers: decimal, at most 64 bits; the canonical spelling of the value.  *)
RECURSIVE Strip(_), Leq(_, _, _)
Strip(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
DigOrd == [c \in LDigit |-> CHOOSE n \in 0..9 : ToString(n) = c]
Leq(a, b, i) == IF i > Len(a) THEN TRUE
                ELSE LET x == DigOrd[SubSeq(a, i, i)]  y == DigOrd[SubSeq(b, i, i)]
                     IN x < y \/ (x = y /\ Leq(a, b, i + 1))
InRange(mag, lim) == Len(mag) < Len(lim) \/ (Len(mag) = Len(lim) /\ Leq(mag, lim, 1))
IntTok(s) ==
  LET neg == SubSeq(s, 1, 1) = "-"
      dig == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      mag == Strip(dig)
  IN IF dig = "" THEN "err"
     ELSE IF ~InRange(mag, IF neg THEN "9223372036854775808" ELSE "9223372036854775807") THEN "err"
     ELSE IF mag = "0" THEN "0" ELSE IF neg THEN "-" \o mag ELSE mag

(* End of a block comment that starts at i: position after it, 0 if none.    *)
RECURSIVE CloseAt(_, _)
CloseAt(cs, i) == IF i + 1 > Len(cs) THEN 0
                  ELSE IF cs[i] = "*" /\ cs[i + 1] = "/" THEN i + 2 ELSE CloseAt(cs, i + 1)
RECURSIVE LineEnd(_, _)
LineEnd(cs, i) == IF i > Len(cs) \/ cs[i] \in {"\n", "\r"} THEN i ELSE LineEnd(cs, i + 1)
HasNl(cs, i, j) == \E k \in i..j - 1 : cs[k] = "\n"
HasCr(cs, i, j) == \E k \in i..j - 1 : cs[k] = "\r"

(* Skips white space and comments: <<position, a line feed passed, what>>,   *)
(* what = "" | "err" | "any".                                                *)
RECURSIVE Skip(_, _, _)
Skip(cs, i, nl) ==
  IF i > Len(cs) THEN <<i, nl, "">>
  ELSE IF cs[i] \in LSpace THEN LET j == Past(cs, i, LSpace) IN Skip(cs, j, nl \/ HasNl(cs, i, j))
  ELSE IF cs[i] # "/" THEN <<i, nl, "">>
  ELSE IF i < Len(cs) /\ cs[i + 1] = "/" THEN Skip(cs, LineEnd(cs, i), nl)
  ELSE IF i < Len(cs) /\ cs[i + 1] = "*"
       THEN LET j == CloseAt(cs, i + 2) IN IF j = 0 THEN <<i, nl, "err">> ELSE Skip(cs, j, nl \/ HasNl(cs, i, j))
  ELSE <<i, nl, "err">>

Tok(c, s, j) == [c |-> c, s |-> s, j |-> j]
(* The longest token at i. *)
TokAt(cs, i) ==
  LET h == cs[i] IN
  IF h \in {"@", "%"} THEN
    IF i < Len(cs) /\ cs[i + 1] \in LDigit
    THEN IF h = "@" THEN Tok("err", "", 0)
         ELSE IF cs[i + 1] = "0" THEN Tok("sym", "%0", i + 2)
         ELSE LET j == Past(cs, i + 1, LDigit) IN
              IF j <= Len(cs) /\ Odd(cs[j]) THEN Tok("any", "", 0) ELSE Tok("sym", Word(cs, i, j), j)
    ELSE LET j == Past(cs, i + 1, LWord) IN
         IF j <= Len(cs) /\ Odd(cs[j]) THEN Tok("any", "", 0)
         ELSE IF j = i + 1 THEN Tok("err", "", 0) ELSE Tok("sym", Word(cs, i, j), j)
  ELSE IF h \in LAlpha THEN
    LET j == Past(cs, i, LAlpha \cup LDigit)  w == Word(cs, i, j) IN
    IF j <= Len(cs) /\ Odd(cs[j]) THEN Tok("any", "", 0)
    ELSE IF w \in LKeys THEN Tok("kw", w, j) ELSE IF w \in LOps THEN Tok("op", w, j) ELSE Tok("err", "", 0)
  ELSE IF h \in LDigit \cup {"-"} THEN
    LET j == Past(cs, i + 1, LDigit)  n == IntTok(Word(cs, i, j)) IN
    IF j <= Len(cs) /\ Odd(cs[j]) THEN Tok("any", "", 0)
    ELSE IF n = "err" THEN Tok("err", "", 0) ELSE Tok("int", n, j)
  ELSE IF Odd(h) THEN Tok("any", "", 0)
  ELSE Tok("ch", h, i + 1)

(* A comment needs care when it follows `ret`: a carriage return alone may   *)
(* or may not count as a line break.                                         *)
RECURSIVE LexFrom(_, _, _)
LexFrom(cs, i, acc) ==
  LET k == Skip(cs, i, acc = <<>>) IN
  IF k[3] = "err" THEN [toks |-> acc, end |-> IF \E x \in i..Len(cs) : cs[x] \in {"x0b", "x0c", "x85", "xa0"} THEN "any" ELSE "err", at |-> k[1]]
  ELSE IF k[1] > Len(cs) THEN [toks |-> acc, end |-> "ok", at |-> k[1]]
  ELSE IF acc # <<>> /\ acc[Len(acc)].s = "ret" /\ ~k[2] /\ HasCr(cs, i, k[1]) THEN [toks |-> acc, end |-> "any", at |-> k[1]]
  ELSE LET t == TLCEval(TokAt(cs, k[1])) IN
       IF t.c \in {"err", "any"} THEN [toks |-> acc, end |-> t.c, at |-> k[1]]
       ELSE LexFrom(cs, t.j, Append(acc, [s |-> t.s, nl |-> k[2], c |-> t.c, i |-> k[1], j |-> t.j - 1]))
Lex(cs) == LexFrom(cs, 1, <<>>)

(* Line and column of each character, counted from 1; a line feed is column  *)
(* 0 of the line after it.                                                   *)
Marks(cs) == TLCEval(FoldLeft(LAMBDA a, c : LET nl == c = "\n"  l == IF nl THEN a.l + 1 ELSE a.l  k == IF nl THEN 0 ELSE a.c + 1
                                            IN [l |-> l, c |-> k, ms |-> Append(a.ms, <<l, k>>)], [l |-> 1, c |-> 0, ms |-> <<>>], cs)).ms
(* First and last mark of each token, and the mark of the end. *)
TokMarks(cs, toks) == LET m == Marks(cs) IN [i \in 1..Len(toks) |-> <<m[toks[i].i], m[toks[i].j]>>]
EndMark(cs) == IF cs = <<>> THEN <<1, 0>> ELSE LET m == Marks(cs) IN m[Len(m)]

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
=============================================================================
