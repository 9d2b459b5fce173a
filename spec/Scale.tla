------------------------------- MODULE Scale --------------------------------
(* Large texts of bounded nesting.  A scheme is a text with repeated pieces; *)
(* for every number n of repetitions it has a verdict and, when accepted,    *)
(* numbers of globals, functions, blocks and instructions that are linear in *)
(* n.  Lex and Front decide this for every n in Small (Inv); the texts    *)
(* Large repetitions (Quad, if they take that long) are far too long to be read here.                              *)
EXTENDS Front, Lex, Json

CONSTANTS Small, Large, Quad

VARIABLES c, d

(* ------------------------------- the texts ------------------------------- *)
(* #0 number of the repetition, #1 the next, #p the one before, #n how many,  *)
(* #m one more, #, a comma except in the last one, #; except in the first,    *)
(* #* the character before it n times.                                        *)
K(s) == <<0, s>>
R(s) == <<1, s>>
RECURSIVE Fill(_, _, _, _), Times(_, _)
Times(s, k) == IF k <= 0 THEN "" ELSE s \o Times(s, k - 1)
Fill(s, j, i, n) ==
  IF j > Len(s) THEN ""
  ELSE IF SubSeq(s, j, j) # "#" THEN SubSeq(s, j, j) \o Fill(s, j + 1, i, n)
  ELSE LET x == SubSeq(s, j + 1, j + 1) IN
    (CASE x = "0" -> ToString(i) [] x = "1" -> ToString(i + 1) [] x = "p" -> ToString(i - 1)
       [] x = "n" -> ToString(n) [] x = "m" -> ToString(n + 1)
       [] x = "," -> IF i < n THEN ", " ELSE ""
       [] x = ";" -> IF i > 1 THEN ", " ELSE ""
       [] OTHER -> Times(SubSeq(s, j - 1, j - 1), n)) \o Fill(s, j + 2, i, n)
RECURSIVE Reps(_, _, _), Whole(_, _, _)
Reps(s, i, n) == IF i > n THEN "" ELSE Fill(s, 1, i, n) \o Reps(s, i + 1, n)
Whole(ps, k, n) == IF k > Len(ps) THEN ""
  ELSE (IF ps[k][1] = 0 THEN Fill(ps[k][2], 1, 1, n) ELSE Reps(ps[k][2], 1, n)) \o Whole(ps, k + 1, n)

(* ------------------------------ the schemes ------------------------------ *)
(* v: the verdict; canon: the text is spelled as the generator spells it;     *)
(* quad: reading it takes time in the square of n.                            *)
S(nm, v, canon, quad, ps) == [nm |-> nm, v |-> v, canon |-> canon, quad |-> quad, ps |-> ps]
Y == "ok"   No == "reject"
F0 == "fun @f(@x: i32): i32 {\n%entry:\n"
Schemes == {
  S("chain", Y, 1, 0, <<K(F0 \o "  %v = add @x, 1\n  jump %b1\n"), R("%b#0:\n  jump %b#1\n"), K("%b#m:\n  ret %v\n}\n")>>),
  S("chain-param", Y, 1, 0, <<K("fun @f(): i32 {\n%entry:\n  jump %a(1)\n%a(%v: i32):\n  jump %b1\n"), R("%b#0:\n  jump %b#1\n"), K("%b#m:\n  ret %v\n}\n")>>),
  S("chain-missing", No, 0, 0, <<K(F0 \o "  jump %b1\n"), R("%b#0:\n  jump %b#1\n"), K("%b#m:\n  ret %v\n}\n")>>),
  S("chain-args", Y, 1, 0, <<K(F0 \o "  jump %b1(@x)\n"), R("%b#0(%v#0: i32):\n  jump %b#1(%v#0)\n"), K("%b#m(%v#m: i32):\n  ret %v#m\n}\n")>>),
  S("chain-mixed", Y, 0, 0, <<K("fun @f(%x: i32): i32 {\n%entry:\n  %v = add %x, 1\n  jump %b#m\n%b1:\n  ret %v\n"), R("%b#1:\n  jump %b#0\n"), K("}\n")>>),
  S("diamonds", Y, 1, 0, <<K(F0 \o "  %v = add @x, 1\n  jump %j1\n"),
     R("%j#0:\n  br 1, %t#0, %e#0\n%t#0:\n  jump %j#1\n%e#0:\n  jump %j#1\n"), K("%j#m:\n  ret %v\n}\n")>>),
  S("diamonds-missing", No, 0, 0, <<K(F0 \o "  jump %j1\n"),
     R("%j#0:\n  br 1, %t#0, %e#0\n%t#0:\n  jump %j#1\n%e#0:\n  jump %j#1\n"), K("%j#m:\n  ret %v\n}\n")>>),
  S("cycle", Y, 1, 0, <<K(F0 \o "  %v = add @x, 1\n  jump %b1\n"), R("%b#0:\n  jump %b#1\n"), K("%b#m:\n  br %v, %b1, %end\n%end:\n  ret %v\n}\n")>>),
  S("exits", Y, 0, 0, <<K("fun @f(%x: i32): i32 {\n%entry:\n  %v = add %x, 1\n  jump %b1\n"),
     R("%b#0:\n  br 1, %end, %b#1\n"), K("%b#m:\n  jump %end\n%end:\n  ret %v\n}\n")>>),
  S("backs", Y, 1, 0, <<K(F0 \o "  %v = add @x, 1\n  jump %b1\n"), R("%b#0:\n  br 1, %b#1, %b#0\n"), K("%b#m:\n  ret %v\n}\n")>>),
  S("to-first", Y, 1, 0, <<K(F0 \o "  jump %a\n%a:\n  %v = add @x, 1\n  jump %b1\n"), R("%b#0:\n  br 1, %b#1, %a\n"), K("%b#m:\n  ret %v\n}\n")>>),
  S("steps", Y, 1, 1, <<K(F0 \o "  %v0 = add @x, 1\n  jump %b1\n"), R("%b#0:\n  %v#0 = add %v#p, 1\n  jump %b#1\n"), K("%b#m:\n  ret %v#n\n}\n")>>),
  S("far-uses", Y, 1, 1, <<K(F0 \o "  %v = add @x, 1\n  jump %b1\n"), R("%b#0:\n  %w#0 = add %v, 1\n  jump %b#1\n"), K("%b#m:\n  ret %v\n}\n")>>),
  S("adds", Y, 1, 0, <<K(F0 \o "  %v0 = add @x, 1\n"), R("  %v#0 = add %v#p, #0\n"), K("  ret %v#n\n}\n")>>),
  S("temporaries", Y, 0, 0, <<K("fun @f(%x: i32): i32 {\n%entry:\n  %0 = add %x, 1\n"), R("  %#0 = add %#p, #0\n"), K("  ret %#n\n}\n")>>),
  S("stores", Y, 1, 0, <<K(F0 \o "  %p = alloc i32\n"), R("  store #0, %p\n"), K("  %v = load %p\n  ret %v\n}\n")>>),
  S("loads", Y, 1, 0, <<K("global @g = alloc i32, 1\n\n" \o F0), R("  %v#0 = load @g\n"), K("  ret @x\n}\n")>>),
  S("allocs", Y, 1, 0, <<K(F0), R("  %v#0 = alloc [i32, #0]\n"), K("  ret @x\n}\n")>>),
  S("calls", Y, 1, 0, <<K("decl @g()\n\n" \o F0), R("  call @g()\n"), K("  ret @x\n}\n")>>),
  S("call-args", Y, 1, 0, <<K("decl @g("), R("#;i32"), K(")\n\nfun @f() {\n%entry:\n  call @g("), R("#;#0"), K(")\n  ret\n}\n")>>),
  S("call-few", No, 0, 0, <<K("decl @g(i32"), R(", i32"), K(")\n\nfun @f() {\n%entry:\n  call @g("), R("#;#0"), K(")\n  ret\n}\n")>>),
  S("params", Y, 1, 0, <<K("fun @f("), R("#;@x#0: i32"), K("): i32 {\n%entry:\n  ret @x#n\n}\n")>>),
  S("params-twice", No, 0, 0, <<K("fun @f(@x: i32"), R(", @x: i32"), K("): i32 {\n%entry:\n  ret @x\n}\n")>>),
  S("block-params", Y, 1, 0, <<K("fun @f(): i32 {\n%entry:\n  jump %a("), R("#;#0"), K(")\n%a("), R("#;%x#0: i32"), K("):\n  ret %x#n\n}\n")>>),
  S("block-args-few", No, 0, 0, <<K("fun @f(): i32 {\n%entry:\n  jump %a(0"), R(", #0"), K(")\n%a("), R("#;%x#0: i32"), K("):\n  ret %x#n\n}\n")>>),
  S("elements", Y, 1, 0, <<K("global @g = alloc [i32, #n], {"), R("#;#0"), K("}\n")>>),
  S("elements-more", No, 0, 0, <<K("global @g = alloc [i32, #n], {0"), R(", #0"), K("}\n")>>),
  S("elements-bad", No, 0, 0, <<K("global @g = alloc [i32, #n], {"), R("#;{#0}"), K("}\n")>>),
  S("rows", Y, 1, 0, <<K("global @g = alloc [[i32, 2], #n], {"), R("#;{#0, undef}"), K("}\n")>>),
  S("local-elements", Y, 1, 0, <<K("fun @f() {\n%entry:\n  %a = alloc [i32, #n]\n  store {"), R("#;#0"), K("}, %a\n  ret\n}\n")>>),
  S("globals", Y, 1, 0, <<R("global @g#0 = alloc i32, #0\n"), K("\nfun @f() {\n%entry:\n  store 1, @g#n\n  ret\n}\n")>>),
  S("globals-twice", No, 0, 0, <<R("global @g = alloc i32, #0\n"), K("global @g = alloc i32, 0\n")>>),
  S("declarations", Y, 1, 0, <<R("decl @g#0(*i32, [i32, #0]): i32\n"), K("")>>),
  S("functions", Y, 1, 0, <<R("fun @f#0(@x: i32): i32 {\n%entry:\n  %v = add @x, 1\n  ret %v\n}\n"), K("")>>),
  S("callers", Y, 1, 0, <<K("decl @f0(i32): i32\n"), R("fun @f#0(@x: i32): i32 {\n%entry:\n  %v = call @f#p(@x)\n  ret %v\n}\n"), K("")>>),
  S("functions-bad", No, 0, 0, <<R("fun @f#0(@x: i32): i32 {\n%entry:\n  %v = add @y, 1\n  ret %v\n}\n"), K("")>>),
  S("unreachable", Y, 0, 0, <<K(F0 \o "  ret @x\n"), R("%b#0:\n  jump %b#1\n"), K("%b#m:\n  jump %b1\n}\n")>>),
  S("entry-back", No, 0, 0, <<K(F0 \o "  jump %b1\n"), R("%b#0:\n  jump %b#1\n"), K("%b#m:\n  jump %entry\n}\n")>>),
  S("pointers", Y, 1, 0, <<K("fun @f(@p: *i32): i32 {\n%entry:\n  %p0 = getptr @p, 0\n"), R("  %p#0 = getptr %p#p, 1\n"), K("  %v = load %p#n\n  ret %v\n}\n")>>),
  S("types", Y, 1, 0, <<K("fun @f("), R("#;@x#0: *([i32, #0], *i32): [i32, #0]"), K(") {\n%entry:\n  ret\n}\n")>>),
  S("long-name", Y, 1, 0, <<K("fun @f#*(@x#*: i32): i32 {\n%entry#*:\n  %v#* = add @x#*, 1\n  ret %v#*\n}\n")>>),
  S("long-number", Y, 0, 0, <<K("global @g = alloc i32, 0#*7\n")>>),
  S("long-temporary", Y, 0, 0, <<K("fun @f(): i32 {\n%entry:\n  %10#* = add 1, 2\n  ret %10#*\n}\n")>>),
  S("blanks", Y, 0, 0, <<K("\n#*decl #*\t#*@f #*( #*)\r\n\n#*")>>),
  S("line-comments", Y, 0, 0, <<K("decl @f("), R("// #0 *)\n"), K("i32)\n")>>),
  S("block-comments", Y, 0, 0, <<K("decl @f("), R("/* #0 */"), K("i32)\n")>>),
  S("comments-end", Y, 0, 0, <<K("decl @f()\n"), R("/***//**//* #0 */ // x\n"), K("")>>),
  S("long-comment", Y, 0, 0, <<K("decl @f(/*a#* *#*/i32) // b#*")>>),
  S("many-lines-comment", Y, 0, 0, <<K("decl @f(/*\n#* *\n#**#*/i32)")>>),
  S("open-comment", No, 0, 0, <<K("decl @f(/*"), R("/* * / "), K("i32)\n")>>),
  S("bad-items", No, 0, 0, <<K(""), R("#;x"), K("\n")>>),
  S("bad-words", No, 0, 0, <<K("decl @f("), R("foo#0 "), K(")\n")>>),
  S("bad-chars", No, 0, 0, <<K("decl @f()\n"), R("; "), K("\n")>>),
  S("bad-lines", No, 0, 0, <<K("decl @f()\n"), R("global @a#0 = alloc i32,\n"), K("\n")>>),
  S("bad-statements", No, 0, 0, <<K(F0), R("  %v#0 = add @x\n"), K("  ret @x\n}\n")>>),
  S("bad-symbols", No, 0, 0, <<K(F0), R("  %v#0 = add @nosuch, 1\n"), K("  ret @x\n}\n")>>),
  S("bad-types", No, 0, 0, <<K(F0), R("  %v#0 = load @x\n"), K("  ret @x\n}\n")>>),
  S("closers", No, 0, 0, <<R("}"), K("\n")>>),
  S("openers", No, 0, 0, <<R("fun "), K("\n")>>),
  S("entries", No, 0, 0, <<K("fun @f() {\n"), R("%b#0:\n"), K("}\n")>>),
  S("labels-twice", No, 0, 0, <<K("fun @f() {\n%b:\n  ret\n"), R("%b:\n  ret\n"), K("}\n")>>) }

(* ------------------------------- the check ------------------------------- *)
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Count(q) ==
  LET B(f) == IF f.decl THEN 0 ELSE Len(f.bs)
      I(f) == IF f.decl THEN 0 ELSE SumOf([b \in 1..Len(f.bs) |-> Len(f.bs[b].is)])
      A(f) == Len(f.pts) + (IF f.decl THEN 0 ELSE SumOf([b \in 1..Len(f.bs) |-> Len(f.bs[b].pts)]))
  IN <<Len(q.gs), Len(q.fs), SumOf([i \in 1..Len(q.fs) |-> B(q.fs[i])]), SumOf([i \in 1..Len(q.fs) |-> I(q.fs[i])]),
       SumOf([i \in 1..Len(q.fs) |-> A(q.fs[i])])>>
Judge(s, n) ==
  LET l == Lex(Chars(Whole(s.ps, 1, n))) IN
  IF l.end # "ok" THEN [v |-> IF l.end = "err" THEN "reject" ELSE "any", n |-> <<0, 0, 0, 0, 0>>]
  ELSE LET m == Program(l.toks) IN [v |-> m.v, n |-> IF m.v = "ok" THEN Count(m.q) ELSE <<0, 0, 0, 0, 0>>]
Linear(a, b, n) == [k \in 1..5 |-> a[k] + (n - 1) * (b[k] - a[k])]

Init == c \in Schemes /\ d = 0
Next == /\ d = 0 /\ d' = 1 /\ UNCHANGED c
        /\ \E a \in {TLCEval(Judge(c, 1))}, b \in {TLCEval(Judge(c, 2))} :
             \E n \in {IF c.quad = 1 THEN Quad ELSE Large} :
               PrintT("@@" \o ToJson([nm |-> c.nm, v |-> c.v, canon |-> c.canon, ps |-> c.ps,
                                      small |-> <<1, Linear(a.n, b.n, 1), 2, Linear(a.n, b.n, 2)>>,
                                      n |-> n, cnt |-> Linear(a.n, b.n, n)]))
Spec == Init /\ [][Next]_<<c, d>>

Inv == d = 1 => LET a == TLCEval(Judge(c, 1))  b == TLCEval(Judge(c, 2)) IN
  \A n \in Small : LET r == TLCEval(Judge(c, n)) IN r.v = c.v /\ r.n = Linear(a.n, b.n, n)
=============================================================================
