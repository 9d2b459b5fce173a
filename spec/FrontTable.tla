----------------------------- MODULE FrontTable -----------------------------
(* Exhaustive tables over Front: where FrontSim damages random texts, this   *)
(* module lists everything near fixed ones.                                  *)
(*   token   a text with every construct, and all texts one edit away from   *)
(*           it: each token replaced by each other, dropped, doubled,        *)
(*           inserted, swapped, moved to another line; each line dropped,    *)
(*           doubled, swapped; each name renamed to each other               *)
(*   type    every pair of types: a value of the first, from every source,   *)
(*           where every construct expects the second                        *)
(*   const   every small constant for every small type, wherever a constant  *)
(*           can be written                                                  *)
(*   arity   every number of arguments for every number of parameters        *)
(*   cfg     every control-flow graph of up to Size blocks, labels that do   *)
(*           not exist and edges to the first block included                 *)
(*   scope   every control-flow graph of three blocks, with a definition in  *)
(*           each place and a use in each place                              *)
(* Meaning decides each of them.                                             *)
EXTENDS Places

CONSTANTS Mode, Size, Chunk,
          Reports  \* TRUE: say where a report has to point

VARIABLES k, ph
vars == <<k, ph>>

(* "a b c" as <<"a", "b", "c">> *)
RECURSIVE WordsAt(_, _, _, _)
WordsAt(s, i, j, acc) ==
  IF j > Len(s) THEN (IF j > i THEN Append(acc, SubSeq(s, i, j - 1)) ELSE acc)
  ELSE IF SubSeq(s, j, j) = " " THEN WordsAt(s, j + 1, j + 1, IF j > i THEN Append(acc, SubSeq(s, i, j - 1)) ELSE acc)
  ELSE WordsAt(s, i, j + 1, acc)
W(s) == TLCEval(WordsAt(s, 1, 1, <<>>))
Tk(s, nl) == [s |-> s, nl |-> nl]
Lines(ls) == TLCEval(Cat([l \in 1..Len(ls) |-> [i \in 1..Len(ls[l]) |-> Tk(ls[l][i], i = 1)]]))
Num_(n) == IF n < 0 THEN "-" \o ToString(-n) ELSE ToString(n)
Commas(ss) == FoldLeft(LAMBDA acc, x : (IF acc = <<>> THEN <<>> ELSE Append(acc, ",")) \o x, <<>>, ss)
Args(ss) == IF ss = <<>> THEN <<>> ELSE <<"(">> \o Commas(ss) \o <<")">>
Par(ss) == <<"(">> \o Commas(ss) \o <<")">>

(* --------------------------------- token --------------------------------- *)
BaseLines == TLCEval([i \in 1..30 |-> W(<<
  "global @a = alloc i32 , 5",
  "global %b = alloc [ i32 , 2 ] , { 1 , zeroinit }",
  "decl @d ( i32 , * i32 ) : i32",
  "decl @u ( )",
  "fun @f ( @p : i32 , %q : * [ i32 , 2 ] ) : i32 {",
  "%e :",
  "%x = alloc i32",
  "store -1 , %x",
  "%1 = load %x",
  "%y = getelemptr %q , %1",
  "%z = getptr %y , @p",
  "%s = add %1 , @p",
  "%c = call @d ( %s , %z )",
  "call @u ( )",
  "br %c , %t ( %s , %y ) , %o",
  "%t ( %m : i32 , %n : * i32 ) :",
  "store %m , %n",
  "jump %j ( %m )",
  "%o :",
  "store { 1 , 2 } , %q",
  "jump %j ( undef )",
  "%j ( %r : i32 ) :",
  "ret %r",
  "}",
  "fun @g ( ) {",
  "%e :",
  "%w = call @f ( 1 , %b )",
  "store zeroinit , %b",
  "ret",
  "}">>[i])])
BaseToks == Lines(BaseLines)
NTok == Len(BaseToks)
Strs(z) == {BaseToks[i].s : i \in 1..NTok} \cup {"ne", ";", "0", "3", "@nosuch", "%nosuch", "%2", "unit"}
Syms(z) == {s \in Strs(0) : Cls(s) = "sym"}
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
SwapS(s, i, j) == [s EXCEPT ![i].s = s[j].s, ![j].s = s[i].s]
Rets(z) == {i \in 1..NTok : BaseToks[i].s = "ret"}
(* Unions of large sets are slow. *)
Q(X) == SetToSeq(X)
TokenItems(z) ==
  Q({<<"as is">>})
  \o Q({<<"sub", i, s>> : i \in 1..NTok, s \in Strs(0)})
  \o Q({<<"drop", i>> : i \in 1..NTok})
  \o Q({<<"swap", i>> : i \in 1..NTok - 1})
  \o Q({<<"ins", i, s, FALSE>> : i \in 1..NTok + 1, s \in Strs(0)})
  \o Q({<<"ins", i + 1, s, TRUE>> : i \in Rets(0), s \in Strs(0)})
  \o Q({<<"line", i>> : i \in 2..NTok})
  \o Q({<<"cut", i, j>> : i \in 1..NTok, j \in 1..7})
  \o Q({<<"end", i>> : i \in 0..NTok - 1})
  \o Q({<<"ldrop", i>> : i \in 1..30})
  \o Q({<<"ldup", i, j>> : i, j \in 1..30})
  \o Q({<<"lswap", i, j>> : i, j \in 1..30})
  \o Q({<<"ren", a, b>> : a, b \in Syms(0)})
  \o Q({<<"two", i, j>> : i, j \in {i \in 1..NTok : Cls(BaseToks[i].s) \in {"sym", "int"}}})
TokenText(x) ==
  CASE x[1] = "as is" -> BaseToks
    [] x[1] = "sub"  -> [BaseToks EXCEPT ![x[2]].s = x[3]]
    [] x[1] = "drop" -> Drop(BaseToks, x[2])
    [] x[1] = "swap" -> SwapS(BaseToks, x[2], x[2] + 1)
    [] x[1] = "ins"  -> Ins(BaseToks, x[2], Tk(x[3], x[4]))
    [] x[1] = "line" -> [BaseToks EXCEPT ![x[2]].nl = ~@]
    [] x[1] = "cut"  -> SubSeq(BaseToks, 1, x[2] - 1) \o SubSeq(BaseToks, x[2] + x[3], NTok)
    [] x[1] = "end"  -> SubSeq(BaseToks, 1, x[2])
    [] x[1] = "ldrop" -> Lines(Drop(BaseLines, x[2]))
    [] x[1] = "ldup"  -> Lines(Ins(BaseLines, x[3], BaseLines[x[2]]))
    [] x[1] = "lswap" -> Lines(Swap(BaseLines, x[2], x[3]))
    [] x[1] = "two"  -> SwapS(BaseToks, x[2], x[3])
    [] OTHER -> [i \in 1..NTok |-> IF BaseToks[i].s = x[2] THEN [BaseToks[i] EXCEPT !.s = x[3]] ELSE BaseToks[i]]

(* --------------------------------- types --------------------------------- *)
TyU == <<I32, Ptr(I32), Ptr(Ptr(I32)), Arr(I32, 2), Arr(I32, 3), Ptr(Arr(I32, 2)), Ptr(Arr(I32, 3)), Arr(Arr(I32, 2), 3),
         Arr(Arr(I32, 3), 2), Ptr(Arr(Arr(I32, 2), 3)), Arr(Ptr(I32), 2), Ptr(Arr(Ptr(I32), 2)), Ptr(Fun(<<>>, Unit)),
         Ptr(Fun(<<I32>>, Unit)), Ptr(Fun(<<I32>>, I32)), Ptr(Fun(<<I32, I32>>, I32)), Ptr(Fun(<<Ptr(I32)>>, I32)),
         Ptr(Ptr(Arr(I32, 2)))>>
NTy == Len(TyU)
Sources == {"param", "block", "load", "call", "global", "alloc"}
Ctx1 == {"cond", "left", "right", "ptrsrc", "ptridx", "elemsrc", "elemidx", "load", "dest", "inits"}
Ctx2 == {"ret", "store", "arg1", "arg2", "jump", "true", "false", "retload", "retptr", "retelem", "retbin"}
TypeItems(z) == Q({<<c, s, a, b>> : c \in Ctx2, s \in Sources, a, b \in 1..NTy}) \o Q({<<c, s, a, 1>> : c \in Ctx1, s \in Sources, a \in 1..NTy})
Ty(t) == TLCEval(TyTk(t))
TypeText(x) ==
  LET a == TyU[x[3]]  b == TyU[x[4]]  src == x[2]  ctx == x[1]
      wantptr == src \in {"global", "alloc"}  \* these give pointers to a's base, or to a itself
      g == IF wantptr /\ IsPtr(a) THEN Base(a) ELSE a
      rt == IF ctx \in {"ret", "retload", "retptr", "retelem", "retbin"} THEN b ELSE Unit
      v == CASE src = "global" -> "@gl" [] src = "param" -> "@p" [] src = "block" -> "%bp" [] OTHER -> "%v"
      i == <<"i32">>
      end == IF IsUnit(rt) THEN << <<"ret">> >> ELSE << <<"ret", "undef">> >>
      body == CASE ctx = "ret" -> << <<"ret", v>> >>
                [] ctx = "store" -> << <<"%dst", "=", "alloc">> \o Ty(b), <<"store", v, ",", "%dst">> >> \o end
                [] ctx = "arg1" -> << <<"call", "@c1", "(", v, ",", "1", ")">> >> \o end
                [] ctx = "arg2" -> << <<"%res", "=", "call", "@c2", "(", "1", ",", v, ")">> >> \o end
                [] ctx = "jump" -> << <<"jump", "%to", "(", v, ")">> >>
                [] ctx = "true" -> << <<"br", "1", ",", "%to", "(", v, ")", ",", "%out">> >>
                [] ctx = "false" -> << <<"br", "1", ",", "%out", ",", "%to", "(", v, ")">> >>
                [] ctx = "retload" -> << <<"%r", "=", "load", v>>, <<"ret", "%r">> >>
                [] ctx = "retptr" -> << <<"%r", "=", "getptr", v, ",", "1">>, <<"ret", "%r">> >>
                [] ctx = "retelem" -> << <<"%r", "=", "getelemptr", v, ",", "1">>, <<"ret", "%r">> >>
                [] ctx = "retbin" -> << <<"%r", "=", "sub", v, ",", "1">>, <<"ret", "%r">> >>
                [] ctx = "cond" -> << <<"br", v, ",", "%out", ",", "%out">> >>
                [] ctx = "left" -> << <<"%r", "=", "and", v, ",", "1">> >> \o end
                [] ctx = "right" -> << <<"%r", "=", "sar", "1", ",", v>> >> \o end
                [] ctx = "ptrsrc" -> << <<"%r", "=", "getptr", v, ",", "%i">> >> \o end
                [] ctx = "elemsrc" -> << <<"%r", "=", "getelemptr", v, ",", "%i">> >> \o end
                [] ctx = "ptridx" -> << <<"%r", "=", "getptr", "%pa", ",", v>> >> \o end
                [] ctx = "elemidx" -> << <<"%r", "=", "getelemptr", "%pa", ",", v>> >> \o end
                [] ctx = "load" -> << <<"%r", "=", "load", v>> >> \o end
                [] ctx = "dest" -> << <<"store", "undef", ",", v>> >> \o end
                [] OTHER -> << <<"store", "{", "1", ",", "2", "}", ",", v>> >> \o end
      def == CASE src = "load" -> << <<"%m", "=", "alloc">> \o Ty(a), <<"%v", "=", "load", "%m">> >>
               [] src = "call" -> << <<"%v", "=", "call", "@mk", "(", ")">> >>
               [] src = "alloc" -> << <<"%v", "=", "alloc">> \o Ty(g) >>
               [] src = "block" -> << <<"jump", "%next", "(", "@p", ")">>, <<"%next", "(", "%bp", ":">> \o Ty(a) \o <<")", ":">> >>
               [] OTHER -> <<>>
      tail == IF ctx \in {"jump", "true", "false"} THEN << <<"%to", "(", "%x", ":">> \o Ty(b) \o <<")", ":">>, <<"ret">> >> ELSE <<>>
      out == IF ctx \in {"true", "false", "cond"} THEN << <<"%out", ":">>, <<"ret">> >> ELSE <<>>
  IN Lines((IF src = "global" THEN << <<"global", "@gl", "=", "alloc">> \o Ty(g) \o <<",", "zeroinit">> >> ELSE <<>>)
     \o (IF src = "call" THEN << <<"decl", "@mk", "(", ")", ":">> \o Ty(a) >> ELSE <<>>)
     \o (IF ctx = "arg1" THEN << <<"decl", "@c1", "(">> \o Ty(b) \o <<",", "i32", ")">> >> ELSE <<>>)
     \o (IF ctx = "arg2" THEN << <<"decl", "@c2", "(", "i32", ",">> \o Ty(b) \o <<")", ":", "i32">> >> ELSE <<>>)
     \o << <<"fun", "@f", "(", "%i", ":", "i32", ",", "%pa", ":", "*", "[", "i32", ",", "4", "]">>
           \o (IF src \in {"param", "block"} THEN <<",", "@p", ":">> \o Ty(a) ELSE <<>>) \o <<")">>
           \o (IF IsUnit(rt) THEN <<>> ELSE <<":">> \o Ty(rt)) \o <<"{">>, <<"%e", ":">> >>
     \o def \o body \o tail \o out \o << <<"}">> >>)

(* ------------------------------- constants ------------------------------- *)
CTy == <<I32, Ptr(I32), Arr(I32, 1), Arr(I32, 2), Arr(Arr(I32, 2), 1), Arr(Arr(I32, 1), 2), Arr(Ptr(I32), 1), Ptr(Arr(I32, 1)),
         Ptr(Fun(<<>>, Unit)), Fun(<<I32>>, I32), Arr(Arr(Arr(I32, 1), 1), 1)>>
C0 == {<<"0">>, <<"-1">>, <<"undef">>, <<"zeroinit">>}
Br(ss) == <<"{">> \o Commas(ss) \o <<"}">>
C1(z) == C0 \cup {Br(<<>>)} \cup {Br(<<c>>) : c \in C0} \cup {Br(<<c, d>>) : c, d \in C0} \cup {Br(<<c, c, c>>) : c \in {<<"0">>, <<"undef">>}}
C2(z) == C1(0) \cup {Br(<<c>>) : c \in C1(0)} \cup {Br(<<c, d>>) : c, d \in {<<"0">>, <<"zeroinit">>, Br(<<<<"0">>>>), Br(<<<<"undef">>>>), Br(<<<<"0">>, <<"1">>>>)}}
         \cup {Br(<<Br(<<Br(<<c>>)>>)>>) : c \in C0} \cup {<<"{", "1", ",", "}">>, <<"{", "1", "2", "}">>, <<"{", "@g", "}">>, <<"@g">>, <<"%p">>, <<"1", "2">>}
ConstItems(z) ==
  Q({<<w, t, c>> : w \in {"global", "store"}, t \in 1..Len(CTy), c \in C2(0)})
  \o Q({<<w, t, c>> : w \in {"ret", "arg", "jump", "left", "idx", "cond", "load", "dest", "ptr", "elem"}, t \in 1..Len(CTy), c \in C1(0) \cup {<<"%p">>, <<"@g">>}})
ConstText(x) ==
  LET t == Ty(CTy[x[2]])  c == x[3]  w == x[1]
      body == CASE w = "store" -> << <<"%a", "=", "alloc">> \o t, <<"store">> \o c \o <<",", "%a">>, <<"ret">> >>
                [] w = "ret" -> << <<"ret">> \o c >>
                [] w = "arg" -> << <<"call", "@d", "(">> \o c \o <<")">>, <<"ret">> >>
                [] w = "jump" -> << <<"jump", "%b", "(">> \o c \o <<")">>, <<"%b", "(", "%x", ":">> \o t \o <<")", ":">>, <<"ret">> >>
                [] w = "left" -> << <<"%x", "=", "shl">> \o c \o <<",", "1">>, <<"ret">> >>
                [] w = "idx" -> << <<"%a", "=", "alloc">> \o t, <<"%x", "=", "getptr", "%a", ",">> \o c, <<"ret">> >>
                [] w = "cond" -> << <<"br">> \o c \o <<",", "%b", ",", "%b">>, <<"%b", ":">>, <<"ret">> >>
                [] w = "load" -> << <<"%x", "=", "load">> \o c, <<"ret">> >>
                [] w = "dest" -> << <<"store", "undef", ",">> \o c, <<"ret">> >>
                [] w = "ptr" -> << <<"%x", "=", "getptr">> \o c \o <<",", "0">>, <<"ret">> >>
                [] w = "elem" -> << <<"%x", "=", "getelemptr">> \o c \o <<",", "0">>, <<"ret">> >>
                [] OTHER -> << <<"ret">> >>
  IN Lines(<< <<"global", "@g", "=", "alloc", "i32", ",", "0">> >>
     \o (IF w = "global" THEN << <<"global", "@h", "=", "alloc">> \o t \o <<",">> \o c >> ELSE <<>>)
     \o (IF w = "arg" THEN << <<"decl", "@d", "(">> \o t \o <<")">> >> ELSE <<>>)
     \o << <<"fun", "@f", "(", "%p", ":">> \o t \o <<")">> \o (IF w = "ret" THEN <<":">> \o t ELSE <<>>) \o <<"{">>, <<"%e", ":">> >>
     \o body \o << <<"}">> >>)

(* --------------------------------- arity --------------------------------- *)
ArgPool == << <<"%p">>, <<"7">>, <<"undef">> >>
ArityItems(z) ==
  {<<w, n, a, e>> : w \in {"call", "callv", "jump", "true", "false"}, n, a \in 0..3, e \in {"", "()"}}
  \cup {<<"same", n, a, b>> : n \in 0..2, a, b \in 0..2}
  \cup {<<"ret", r, v, nl>> : r, v \in {"", "i32"}, nl \in 0..2}
  \cup {<<"unitcall", d, u, "">> : d, u \in 0..1} \cup {<<"order", a, b, "">> : a \in 0..5, b \in 0..5}
ArityText(x) ==
  LET w == x[1]
      ps == TLCEval([i \in 1..x[2] |-> <<"%q" \o ToString(i), ":", "i32">>])
      as == [i \in 1..x[3] |-> ArgPool[i]]
      tgt == IF x[3] = 0 /\ x[4] = "()" THEN <<"%t", "(", ")">> ELSE <<"%t">> \o Args(as)
      head == IF x[2] = 0 /\ x[4] = "()" THEN <<"%t", "(", ")">> ELSE <<"%t">> \o Args(ps)
      fn(rt) == <<"fun", "@f", "(", "%p", ":", "i32", ")">> \o (IF rt = "" THEN <<>> ELSE <<":", rt>>) \o <<"{">>
  IN CASE w \in {"call", "callv"} ->
            Lines(<< <<"decl", "@d">> \o Par([i \in 1..x[2] |-> <<"i32">>]) \o <<":", "i32">>, fn(""), <<"%e", ":">>,
                     (IF w = "callv" THEN <<"%v", "=">> ELSE <<>>) \o <<"call", "@d">> \o Par(as), <<"ret">>, <<"}">> >>)
       [] w = "jump" -> Lines(<<fn(""), <<"%e", ":">>, <<"jump">> \o tgt, head \o <<":">>, <<"ret">>, <<"}">> >>)
       [] w = "true" -> Lines(<<fn(""), <<"%e", ":">>, <<"br", "%p", ",">> \o tgt \o <<",", "%o">>, head \o <<":">>, <<"ret">>, <<"%o", ":">>, <<"ret">>, <<"}">> >>)
       [] w = "false" -> Lines(<<fn(""), <<"%e", ":">>, <<"br", "%p", ",", "%o", ",">> \o tgt, head \o <<":">>, <<"ret">>, <<"%o", ":">>, <<"ret">>, <<"}">> >>)
       [] w = "same" -> Lines(<<fn(""), <<"%e", ":">>,
                                <<"br", "%p", ",", "%t">> \o Args(as) \o <<",", "%t">> \o Args([i \in 1..x[4] |-> ArgPool[i]]),
                                <<"%t">> \o Args(ps) \o <<":">>, <<"ret">>, <<"}">> >>)
       [] w = "ret" -> Lines(<<fn(x[2]), <<"%e", ":">>>> \o (IF x[3] = "" THEN << <<"ret">> >> ELSE IF x[4] = 1 THEN << <<"ret">>, <<"%p">> >> ELSE << <<"ret", "%p">> >>)
                             \o (IF x[4] = 2 THEN << <<"%dead", ":">>, <<"ret">> >> ELSE <<>>) \o << <<"}">> >>)
       [] w = "unitcall" -> Lines(<< <<"decl", "@d", "(", ")">> \o (IF x[2] = 1 THEN <<":", "i32">> ELSE <<>>), fn(""), <<"%e", ":">>,
                                     (IF x[3] = 1 THEN <<"%v", "=">> ELSE <<>>) \o <<"call", "@d", "(", ")">>, <<"ret">>, <<"}">> >>)
       [] OTHER -> (* where a global, a declaration or a function stands, before or after its use *)
            LET its == << << <<"global", "@x", "=", "alloc", "i32", ",", "1">> >>, << <<"decl", "@x", "(", ")">> >>,
                          << <<"fun", "@x", "(", ")", "{">>, <<"%e", ":">>, <<"ret">>, <<"}">> >>,
                          << <<"fun", "@m", "(", ")", "{">>, <<"%e", ":">>, <<"call", "@x", "(", ")">>, <<"ret">>, <<"}">> >>,
                          << <<"fun", "@n", "(", ")", "{">>, <<"%e", ":">>, <<"%v", "=", "load", "@x">>, <<"ret">>, <<"}">> >>,
                          << <<"fun", "@x", "(", "%x", ":", "i32", ")", "{">>, <<"%e", ":">>, <<"call", "@x", "(", "%x", ")">>, <<"ret">>, <<"}">> >> >>
            IN Lines(its[x[2] + 1] \o its[x[3] + 1])

(* -------------------------- control-flow graphs -------------------------- *)
L_(b) == "%b" \o ToString(b)
Terms(n, lo, hi) == {<<>>} \cup {<<t>> : t \in lo..hi} \cup {<<t, u>> : t, u \in lo..hi}
TermTk(ts) == IF ts = <<>> THEN <<"ret">> ELSE IF Len(ts) = 1 THEN <<"jump", L_(ts[1])>> ELSE <<"br", "1", ",", L_(ts[1]), ",", L_(ts[2])>>
CfgItems(z) == Cat([n \in 1..Size |-> Q([1..n -> Terms(n, 1, IF n <= 3 THEN n + 1 ELSE n)])])
CfgText(sk) ==
  Lines(<< <<"fun", "@f", "(", ")", "{">> >> \o Cat([b \in 1..Len(sk) |-> << <<L_(b), ":">>, TermTk(sk[b])>>]) \o << <<"}">> >>)

(* --------------------------------- scopes -------------------------------- *)
(* a definition: 0 global after, 1..3 instruction in the block, 4..5 parameter of block 2..3, 6 parameter, 7 global, 8 other function, 9 twice in one block *)
ScopeItems(z) == {<<sk, d, u>> : sk \in [1..3 -> Terms(3, 2, 3)], d \in 0..9, u \in 1..3}
ScopeText(x) ==
  LET sk == x[1]  d == x[2]  u == x[3]
      arg(t) == IF (d = 4 /\ t = 2) \/ (d = 5 /\ t = 3) THEN <<"(", "1", ")">> ELSE <<>>
      tgt(t) == <<L_(t)>> \o arg(t)
      term(ts) == IF ts = <<>> THEN <<"ret">> ELSE IF Len(ts) = 1 THEN <<"jump">> \o tgt(ts[1])
                  ELSE <<"br", "1", ",">> \o tgt(ts[1]) \o <<",">> \o tgt(ts[2])
      use(b) == IF u = b THEN IF d \in {0, 7} THEN << <<"%u", "=", "load", "%x">> >> ELSE << <<"%u", "=", "add", "%x", ",", "1">> >> ELSE <<>>
      def(b) == IF d = b \/ (d = 9 /\ b = 1) THEN << <<"%x", "=", "add", "2", ",", "3">> >> ELSE <<>>
      head(b) == <<L_(b)>> \o (IF (d = 4 /\ b = 2) \/ (d = 5 /\ b = 3) THEN <<"(", "%x", ":", "i32", ")">> ELSE <<>>) \o <<":">>
      glob == << <<"global", "%x", "=", "alloc", "i32", ",", "4">> >>
  IN Lines((IF d = 7 THEN glob ELSE IF d = 8 THEN << <<"fun", "@o", "(", "%x", ":", "i32", ")", "{">>, <<"%e", ":">>, <<"ret">>, <<"}">> >> ELSE <<>>)
     \o << <<"fun", "@f", "(">> \o (IF d = 6 THEN <<"%x", ":", "i32">> ELSE <<>>) \o <<")", "{">> >>
     \o Cat([b \in 1..3 |-> <<head(b)>> \o def(b) \o use(b) \o (IF d = 9 /\ b = 2 THEN << <<"%x", "=", "add", "5", ",", "6">> >> ELSE <<>>) \o <<term(sk[b])>>])
     \o << <<"}">> >> \o (IF d = 0 THEN glob ELSE <<>>))

(* ------------------------------- the table ------------------------------- *)
Items ==
  TLCEval(CASE Mode = "token" -> TokenItems(0) [] Mode = "type" -> TypeItems(0) [] Mode = "const" -> ConstItems(0)
                     [] Mode = "arity" -> Q(ArityItems(0)) [] Mode = "cfg" -> CfgItems(0) [] OTHER -> Q(ScopeItems(0)))
TextOf(x) == CASE Mode = "token" -> TokenText(x) [] Mode = "type" -> TypeText(x) [] Mode = "const" -> ConstText(x)
               [] Mode = "arity" -> ArityText(x) [] Mode = "cfg" -> CfgText(x) [] OTHER -> ScopeText(x)

Say(toks) ==
  LET m == TLCEval(Meaning(toks)) IN
  PrintT("@@" \o ToJson((IF ~Reports THEN <<>> ELSE [at |-> IF m.v = "reject" THEN Where(toks) ELSE {}, dead |-> IF m.v = "ok" THEN DeadToks(toks) ELSE {}]) @@
            [v |-> m.v, why |-> m.why, p |-> m.p, hurt |-> 0,
             t |-> [i \in 1..Len(toks) |-> toks[i].s],
             nl |-> [i \in 1..Len(toks) |-> IF toks[i].nl THEN 1 ELSE 0]]))
Init == k \in 0..(Len(Items) - 1) \div Chunk /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED k
        /\ \A i \in k * Chunk + 1..(IF (k + 1) * Chunk > Len(Items) THEN Len(Items) ELSE (k + 1) * Chunk) : Say(TLCEval(TextOf(Items[i])))
Spec == Init /\ [][Next]_vars
=============================================================================
