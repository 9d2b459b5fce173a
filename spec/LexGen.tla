------------------------------- MODULE LexGen -------------------------------
(* Pieces of text for random character sequences. *)
EXTENDS Lex

LCoin(n) == RandomElement(1..n) = 1
Of(s) == s[RandomElement(1..Len(s))]

Punct == <<"(", ")", "{", "}", "[", "]", ",", ":", "=", "*", "/", ";", ".", "_", "-", "+", "@", "%", "$", "#", "\"", "'", "\\", "<", ">", "!", "&", "|", "~", "^", "?", "`">>
Sep == <<" ", "\n", "\t", "\r\n", "  ", " \n\n", "// c\n", "//\r\n", "/**/", "/* x */", "/***/", "/* // */", "//* x\n", "/*\n*/", "/*/*/", "/* ret */", "// /*\n", "/* * / */", "/**\n**/">>
Odds == <<"x00", "x0b", "x0c", "x1b", "x7f", "x80", "x85", "xa0", "xaa", "xb2", "xbd", "xc3", "xe9", "xff">>
Keys == SetToSeq(LKeys)
Ops == SetToSeq(LOps)
Syms == <<"@a", "%a", "@_", "%_0", "%0", "%1", "%10", "%00", "%01", "%9z", "@x1_y", "%main", "@A", "@Zz9", "%i32", "@ret">>
Nums == <<"0", "1", "-1", "-0", "00", "007", "-007", "42", "2147483647", "2147483648", "-2147483648", "-2147483649",
          "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
          "18446744073709551616", "99999999999999999999999", "00000000000000000000001", "--1", "1-1", "-">>
Bads == <<"i33", "Add", "addx", "add1", "rets", "re", "i3", "I32", "undefx", "zeroini", "getelemptr2", "x", "e9", "@1", "@", "%", "% a", "@-", "/", "/ /", "/*", "*/", "//">>
Letters == <<"a", "r", "e", "t", "i", "3", "2", "0", "9", "_", "@", "%", "-", "/", "*", "\n", " ", "\r">>

OneChar(c) == IF c \in {"x00", "x0b", "x0c", "x1b", "x7f", "x80", "x85", "xa0", "xaa", "xb2", "xbd", "xc3", "xe9", "xff"} THEN <<c>> ELSE Chars(c)
CommentChars == <<"*", "/", " ", "a", "@", "1", "{", "x00", "xe9", "xff", "\t", "%", "-">>
Cat2(n) == TLCEval([i \in 1..n |-> Of(CommentChars)])
CommentOf(body) ==
  IF LCoin(2) /\ ~\E i \in 1..Len(body) - 1 : body[i] = "*" /\ body[i + 1] = "/" THEN <<"/", "*">> \o body \o (IF LCoin(3) THEN <<"\n">> ELSE <<>>) \o <<"*", "/">>
  ELSE <<"/", "/">> \o body \o <<"\n">>
Comment(z) == CommentOf(Cat2(RandomElement(0..6)))
Frag(k) ==
  CASE k \in 1..2 -> OneChar(Of(Punct))
    [] k \in 3..6 -> OneChar(Of(Sep))
    [] k \in 7..8 -> Chars(Of(Keys))
    [] k = 9 -> Chars(Of(Ops))
    [] k \in 10..12 -> Chars(Of(Syms))
    [] k \in 13..14 -> Chars(Of(Nums))
    [] k = 15 -> IF LCoin(3) THEN Chars(Of(Bads)) ELSE Chars(Of(Nums))
    [] k = 16 -> IF LCoin(2) THEN Chars(Of(Letters)) ELSE <<"\n">>
    [] k = 18 -> IF LCoin(3) THEN <<Of(Odds)>> ELSE <<" ">>
    [] OTHER -> Comment(0)


(* White space and comments between two tokens; may be empty. *)
SepAt(k) ==
  IF k <= 4 THEN <<" ">> ELSE IF k = 5 THEN <<>> ELSE IF k <= 8 THEN OneChar(Of(Sep))
  ELSE Comment(0) \o (IF LCoin(2) THEN Comment(0) ELSE <<>>)
NlAt(k) == IF k <= 4 THEN <<"\n">> ELSE IF k <= 6 THEN <<"\r", "\n">> ELSE IF k = 7 THEN Comment(0) \o <<"\n">>
           ELSE <<"\n">> \o Comment(0)
(* Damage to characters. *)
DamChars(cs, k, i) ==
  CASE k \in 1..3 -> SubSeq(cs, 1, i - 1) \o SubSeq(cs, i + 1, Len(cs))
    [] k \in 4..6 -> SubSeq(cs, 1, i - 1) \o <<Of(Letters)>> \o SubSeq(cs, i + 1, Len(cs))
    [] k = 7 -> SubSeq(cs, 1, i - 1) \o <<Of(Letters)>> \o SubSeq(cs, i, Len(cs))
    [] k = 8 -> SubSeq(cs, 1, i - 1) \o Frag(RandomElement(1..20)) \o SubSeq(cs, i, Len(cs))
    [] k = 9 -> SubSeq(cs, 1, i)
    [] k = 10 -> SubSeq(cs, 1, i - 1) \o <<Of(Odds)>> \o SubSeq(cs, i, Len(cs))
    [] OTHER -> cs
=============================================================================
