------------------------------- MODULE Table -------------------------------
(* Exhaustive tables over KoopaIR: where IRSim walks at random, this module   *)
(* lists everything in a small universe.                                      *)
(*   typing    every building call over a pool of operands that has a value  *)
(*             of every type, constness and provenance (other function,      *)
(*             removed, global), accepted and refused                        *)
(*   decls     every way of making blocks and functions                      *)
(*   rewrite   every ordered pair of shapes: a value of the first becomes    *)
(*             one of the second; every single-slot update of every shape    *)
(*   eq        all pairs of a list of values that has every shape twice and  *)
(*             every shape with one thing changed                            *)
(*   layout    every history of Depth layout edits of a small function       *)
(*   remove    every history of Depth removals of a small program            *)
(* The first line printed is the common prefix of all behaviours ("base").   *)
EXTENDS IRJson

CONSTANTS Mode, Depth, Chunk

VARIABLES S, hist, part, ph
vars == <<S, hist, part, ph>>

(* A history with the state it leads to. *)
Do(H, e, T)   == TLCEval([S |-> T, h |-> Append(H.h, [e |-> e, rej |-> FALSE, d |-> Delta(H.S, T)])])
Refuse(H, e)  == [H EXCEPT !.h = Append(@, [e |-> e, rej |-> TRUE, d |-> Delta(H.S, H.S)])]
Via(e, w)     == e @@ [via |-> w]

NF(H, nm, pts, pns, rt, decl) ==
  Do(H, [op |-> "newfunc", nm |-> nm, pts |-> [i \in 1..Len(pts) |-> TyStr(pts[i])], pns |-> pns, rt |-> TyStr(rt), decl |-> decl],
     DoNewFunc(H.S, nm, pts, pns, rt, decl))
NB(H, f, nm, pts, pns) ==
  Do(H, [op |-> "newbb", f |-> f, nm |-> nm, pts |-> [i \in 1..Len(pts) |-> TyStr(pts[i])], pns |-> pns], DoNewBB(H.S, f, nm, pts, pns))
NV(H, f, c, w) ==
  IF Typed(H.S, f, c) THEN Do(H, Via(EvC("new", f, c), w), DoNew(H.S, f, c)) ELSE Refuse(H, Via(EvC("new", f, c), w))
Rm(H, v) == LET e == [op |-> "rmval", v |-> v] IN IF OkRemoveVal(H.S, v) THEN Do(H, e, DoRemoveVal(H.S, v)) ELSE Refuse(H, e)
Rep(H, f, v, c) ==
  LET e == EvC("replace", f, c) @@ [v |-> v]
  IN IF Typed(H.S, f, c) THEN Do(H, e, DoReplace(H.S, f, v, c)) ELSE Refuse(H, e)
Upd(H, f, v, w, i, t, d) == Do(H, [op |-> "update", f |-> f, v |-> v, what |-> w, i |-> i, to |-> t], DoUpdate(H.S, v, d))

K(k, ops)       == Cand(k, ops, <<>>, "", 0, 0, I32)
KT(k, ty)       == Cand(k, <<>>, <<>>, "", 0, 0, ty)
KI(x)           == Cand("int", <<>>, <<>>, ToString(x), 0, 0, I32)
KB(o, a, b)     == Cand("binary", <<a, b>>, <<>>, o, 0, 0, I32)
KBr(c, t, f, ta, fa) == Cand("branch", <<c>> \o ta \o fa, <<t, f>>, "", 0, Len(ta), I32)
KJ(b, a)        == Cand("jump", a, <<b>>, "", 0, 0, I32)
KC(f, a)        == Cand("call", a, <<>>, "", f, 0, I32)

BinOps == {"ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod",
           "and", "or", "xor", "shl", "shr", "sar"}

(* ------------------------------- the base -------------------------------- *)
H0 == [S |-> Empty, h |-> <<>>]
PI == Ptr(I32)
A2 == Arr(I32, 2)
F == 6                                    \* the function that is built
Base1 ==
  LET h1 == NF(NF(NF(NF(H0, "@g", <<I32>>, <<"">>, I32, TRUE), "@h", <<I32>>, <<"">>, I32, TRUE),
                  "@k", <<I32, PI>>, <<"", "">>, Unit, TRUE), "@z", <<>>, <<>>, PI, TRUE)
      h2 == NF(NF(h1, "@o", <<I32>>, <<"@p">>, Unit, FALSE), "@f", <<I32, I32, PI, Ptr(A2)>>, <<"", "", "", "">>, I32, FALSE)
      h3 == NF(h2, "@gone", <<I32>>, <<"">>, I32, TRUE)
      h4 == Do(h3, [op |-> "rmfunc", f |-> 7], DoRemoveFunc(h3.S, 7))
      g(H, c) == NV(H, 0, c, "")
      l(H, c) == NV(H, F, c, "")
      h5 == g(g(g(g(g(h4, KI(5)), KT("zero", A2)), K("agg", <<6, 6>>)), K("galloc", <<6>>)), K("galloc", <<8>>))
      b(H, ts) == NB(H, F, "", ts, [i \in 1..Len(ts) |-> ""])
      h6 == b(b(b(b(b(b(h5, <<>>), <<>>), <<I32>>), <<PI>>), <<I32, PI>>), <<I32, I32>>)     \* b1..b6; v11..v16
      h7 == NB(h6, 5, "%x", <<>>, <<>>)                                                     \* b7, of another function
      h8 == b(h7, <<>>)
      h9 == Do(h8, [op |-> "rmbb", f |-> F, b |-> 8], DoRemoveBB(h8.S, 8))                  \* b8, removed
      h10 == l(l(l(l(l(h9, KI(1)), KT("zero", A2)), KT("undef", PI)), K("agg", <<17, 17>>)), KT("alloc", I32))  \* 17..21
      h11 == l(l(l(l(l(h10, KT("alloc", PI)), K("load", <<21>>)), K("store", <<17, 21>>)), KC(1, <<2>>)), KC(3, <<2, 4>>))  \* 22..26
      h12 == l(l(l(l(h11, K("getelemptr", <<5, 2>>)), KT("alloc", Fun(<<I32>>, Unit))), KI(9)), KT("zero", PI))   \* 27..30
      h13 == Rm(h12, 29)                                                                    \* 29, removed
      h14 == NV(h13, 5, KI(3), "")                                                          \* 31, of another function
      h15 == l(l(l(h14, KT("alloc", Arr(PI, 2))), KT("zero", Arr(I32, 1))), KT("undef", I32)) \* 32..34
  IN h15
ASSUME Mode \in {"layout", "remove"} \/ \A i \in 1..Len(Base1.h) : ~Base1.h[i].rej
ASSUME Mode \in {"layout", "remove"} \/ (Len(Base1.S.v) = 34 /\ Len(Base1.S.b) = 8 /\ AllTyped(Base1.S) /\ UsesExact(Base1.S))

(* -------------------------------- typing --------------------------------- *)
(* i32 parameters, pointers, arrays, constants and not, unit, removed, foreign *)
P == {2, 4, 5, 6, 7, 9, 10, 11, 12, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34}
PSmall == {2, 4, 17, 18, 23, 24, 29, 31}
A == {2, 4, 17, 24}                        \* i32, *i32, constant i32, unit
Seqs(X, n) == UNION {[1..m -> X] : m \in 0..n}
Types == {I32, Unit, PI, A2, Ptr(A2), Arr(A2, 3), Fun(<<>>, Unit), Fun(<<I32>>, I32), Ptr(Fun(<<>>, Unit)), Ptr(Ptr(I32)), Ptr(Unit)}
GP == {6, 7, 8, 9, 10, 2, 17}              \* operands of global values, and two that are none

(* In parts, which TLC lists in parallel. *)
Groups == 12
LocalCands(g) ==
  CASE g = 1 -> {KT(k, t) : k \in {"zero", "undef", "alloc"}, t \in Types} \cup {KI(x) : x \in {0, -1, 2147483647}}
                \cup {K("load", <<i>>) : i \in P} \cup {K("ret", a) : a \in Seqs(P, 1)}
    [] g = 2 -> {K("agg", s) : s \in Seqs({2, 4, 6, 7, 8, 17, 18, 19, 20, 24, 29, 30, 31, 33, 34}, 2) \cup [1..3 -> {6, 17, 18, 2, 20, 30}] \cup [1..4 -> {17, 33}]}
    [] g = 3 -> {K("store", <<i, j>>) : i \in P, j \in P}
    [] g = 4 -> {K("getptr", <<i, j>>) : i \in P, j \in P}
    [] g = 5 -> {K("getelemptr", <<i, j>>) : i \in P, j \in P}
    [] g = 6 -> {KB("add", i, j) : i \in P, j \in P}
    [] g = 7 -> {KB(o, i, j) : o \in BinOps, i \in PSmall, j \in PSmall}
    [] g = 8 -> {KBr(c, s, t, <<>>, <<>>) : c \in P, s \in 1..8, t \in 1..8}
    [] g = 9 -> {KBr(2, s, t, ta, fa) : s \in 1..3, t \in 1..6, ta \in Seqs(A, 2), fa \in Seqs({2, 4}, 2)}
    [] g = 10 -> {KBr(2, s, t, ta, fa) : s \in 4..6, t \in 1..6, ta \in Seqs(A, 2), fa \in Seqs({2, 4}, 2)}
    [] g = 11 -> {KJ(b, a) : b \in 1..8, a \in Seqs(A \cup {29, 31}, 2) \cup [1..3 -> {2, 4}]}
    [] OTHER -> {KC(f, a) : f \in 1..7, a \in Seqs(A \cup {6, 29, 31}, 2) \cup [1..3 -> {2, 4}] \cup [1..4 -> {2, 4, 5}]}
GlobalCands(z) ==
  {KT(k, t) : k \in {"zero", "undef"}, t \in Types} \cup {KI(x) : x \in {0, -1, 2147483647}}
  \cup {K("agg", s) : s \in Seqs(GP, 3)} \cup {K("galloc", <<i>>) : i \in GP}

(* "with" means branch_with_args and jump_with_args, also without arguments. *)
Calls(g) ==
  SetToSeq({<<F, c, "with">> : c \in LocalCands(g)}
           \cup {<<F, c, "plain">> : c \in {d \in LocalCands(g) : (d.k = "branch" /\ Len(d.ops) = 1) \/ (d.k = "jump" /\ d.ops = <<>>)}}
           \cup (IF g = 1 THEN {<<0, c, "">> : c \in GlobalCands(0)} ELSE {}))
(* The call without arguments takes no target that has parameters. *)
TryNew(H, x) ==
  LET H1 == NV(H, x[1], x[2], x[3])
  IN IF H1.h[Len(H1.h)].rej THEN H1 ELSE Rm(H1, Len(H1.S.v))
(* The same candidates as replacements of a value. *)
TryRep(H, x) ==
  IF x[1] # F THEN H
  ELSE LET H1 == NV(H, F, KI(77), "")
           H2 == Rep(H1, F, Len(H1.S.v), x[2])
       IN Rm(H2, Len(H1.S.v))

(* -------------------------------- decls ---------------------------------- *)
DTy == {I32, Unit, PI, A2, Fun(<<I32>>, Unit)}
Nm == {"", "%p", "@q"}
BadNm == {"x", "%", "@", "p%"}
Decls(z) ==
  SetToSeq(
    {<<"bb", nm, ts, ns>> : nm \in Nm \cup BadNm, ts \in {<<>>, <<I32>>, <<Unit>>}, ns \in {<<"">>}}
    \cup UNION {{<<"bb", "%b", ts, ns>> : ts \in [1..m -> DTy], ns \in [1..m -> Nm] \cup [1..m -> {"", "x", "%"}]} : m \in 1..2}
    \cup {<<"bb", "", ts, [i \in 1..3 |-> ""]>> : ts \in [1..3 -> {I32, Unit, PI}]}
    \cup {<<"fun", w, nm, ts, [i \in 1..Len(ts) |-> ""], rt>> :
             w \in {"def", "decl", "names"}, nm \in {"@n", "%n"} \cup BadNm \cup {""}, ts \in {<<>>, <<I32>>, <<Unit>>}, rt \in {I32, Unit}}
    \cup UNION {{<<"fun", w, "@n", ts, [i \in 1..m |-> ""], rt>> : w \in {"def", "decl"}, ts \in [1..m -> DTy], rt \in DTy} : m \in 1..2}
    \cup UNION {{<<"fun", "names", "@n", ts, ns, I32>> : ts \in [1..m -> DTy], ns \in [1..m -> {"", "%p", "x"}]} : m \in 1..2})
NmOk(nm) == nm \notin BadNm
TryDecl(H, x) ==
  IF x[1] = "bb"
  THEN LET ts == x[3]
           ns == [i \in 1..Len(ts) |-> x[4][i]]
           w == IF ts = <<>> THEN "plain" ELSE IF \E i \in 1..Len(ts) : ns[i] # "" THEN "names" ELSE "types"
           e == [op |-> "newbb", f |-> F, nm |-> x[2], pts |-> [i \in 1..Len(ts) |-> TyStr(ts[i])], pns |-> ns, via |-> w]
       IN IF NmOk(x[2]) /\ \A i \in 1..Len(ts) : ts[i] # Unit /\ NmOk(ns[i])
          THEN LET H1 == Do(H, e, DoNewBB(H.S, F, x[2], ts, ns))
                   b == Len(H1.S.b)
               IN Do(H1, [op |-> "rmbb", f |-> F, b |-> b], DoRemoveBB(H1.S, b))
          ELSE Refuse(H, e)
  ELSE LET ts == x[4]
           e == [op |-> "newfunc", nm |-> x[3], pts |-> [i \in 1..Len(ts) |-> TyStr(ts[i])], pns |-> x[5], rt |-> TyStr(x[6]),
                 decl |-> x[2] = "decl", via |-> x[2]]
       IN IF NmOk(x[3]) /\ x[3] # "" /\ \A i \in 1..Len(ts) : ts[i] # Unit /\ NmOk(x[5][i])
          THEN LET H1 == Do(H, e, DoNewFunc(H.S, x[3], ts, x[5], x[6], x[2] = "decl"))
                   f == Len(H1.S.f)
               IN Do(H1, [op |-> "rmfunc", f |-> f], DoRemoveFunc(H1.S, f))
          ELSE Refuse(H, e)

(* -------------------------------- shapes --------------------------------- *)
(* Shapes that differ from each other in one thing or in everything. *)
Shapes ==
  {KT(k, t) : k \in {"zero", "undef", "alloc"}, t \in {I32, A2, PI}}
  \cup {KI(x) : x \in {0, 1, -1}}
  \cup {K("agg", s) : s \in {<<17>>, <<34>>, <<17, 34>>, <<34, 17>>, <<17, 17>>, <<17, 17, 17>>, <<6, 17>>, <<18, 18>>, <<18, 20>>}}
  \cup {K("load", <<i>>) : i \in {4, 9, 21, 22, 27}}
  \cup {K("store", s) : s \in {<<2, 4>>, <<3, 4>>, <<2, 21>>, <<4, 22>>, <<17, 9>>}}
  \cup {K(k, s) : k \in {"getptr", "getelemptr"}, s \in {<<5, 2>>, <<5, 3>>, <<10, 2>>, <<5, 17>>}}
  \cup {KB(o, i, j) : o \in {"add", "sub", "eq"}, i \in {2, 3}, j \in {2, 3}}
  \cup {KBr(c, s, t, <<>>, <<>>) : c \in {2, 3}, s \in {1, 2}, t \in {1, 2}}
  \cup {KBr(2, 3, 1, <<x>>, <<>>) : x \in {2, 3}} \cup {KBr(3, 1, 3, <<>>, <<x>>) : x \in {2, 3}} \cup {KBr(2, 3, 2, <<2>>, <<>>)}
  \cup {KBr(2, 3, 6, <<x>>, <<y, z>>) : x \in {2, 3}, y \in {2, 3}, z \in {2, 17}}
  \cup {KBr(2, 6, 3, <<2, 3>>, <<2>>), KBr(2, 5, 6, <<2, 4>>, <<3, 2>>), KBr(2, 6, 5, <<3, 2>>, <<2, 4>>)}
  \cup {KJ(1, <<>>), KJ(2, <<>>), KJ(3, <<2>>), KJ(3, <<3>>), KJ(6, <<2, 2>>), KJ(6, <<2, 3>>), KJ(6, <<3, 2>>), KJ(5, <<2, 4>>)}
  \cup {KC(f, <<x>>) : f \in {1, 2}, x \in {2, 3, 17}} \cup {KC(3, <<2, 4>>), KC(3, <<3, 4>>), KC(4, <<>>)}
  \cup {K("ret", <<>>), K("ret", <<2>>), K("ret", <<3>>), K("ret", <<17>>), K("ret", <<4>>)}
ShapeSeq == SetToSeq(Shapes)

(* ------------------------------- rewrites -------------------------------- *)
(* One slot changed, whatever it was. *)
Slots(T, v) ==
  LET d == T.v[v] IN
  {<<"op", i, w>> : i \in 1..Len(d.ops), w \in {3, 17, 4, 30, 9, 10, 21}} \cup {<<"bb", i, b>> : i \in 1..Len(d.bbs), b \in 1..6}
SlotOk(T, v, s) ==
  LET d == T.v[v] IN
  IF s[1] = "op" THEN ValTy(T, s[3]) = ValTy(T, d.ops[s[2]]) /\ (d.k = "agg" => T.v[s[3]].k \in ConstK)
  ELSE BParTys(T, s[3]) = BParTys(T, d.bbs[s[2]]) /\ (d.k = "branch" => (Len(d.ops) = 1 \/ s[3] # d.bbs[3 - s[2]]))
Update1(H, v, s) ==
  LET d == H.S.v[v] IN
  IF s[1] = "op" THEN Upd(H, F, v, "op", s[2], ToString(s[3]), [d EXCEPT !.ops[s[2]] = s[3]])
  ELSE Upd(H, F, v, "bb", s[2], ToString(s[3]), [d EXCEPT !.bbs[s[2]] = s[3]])
(* All updates of one slot, one after the other, and then two more of another slot. *)
TryUpd(H, c) ==
  LET H1 == NV(H, F, c, "with")
      v == Len(H1.S.v)
      ss == SetToSeq({s \in Slots(H1.S, v) : SlotOk(H1.S, v, s)})
      H2 == FoldLeft(LAMBDA h, s : IF SlotOk(h.S, v, s) THEN Update1(h, v, s) ELSE h, H1, ss)
  IN Rm(H2, v)
Pairs(z) == SetToSeq((1..Len(ShapeSeq)) \X (1..Len(ShapeSeq)))
TryPair(H, p) ==
  LET H1 == NV(H, F, ShapeSeq[p[1]], "with")
      v == Len(H1.S.v)
  IN Rm(Rep(H1, F, v, ShapeSeq[p[2]]), v)

(* ------------------------------- equality -------------------------------- *)
Twice(z) == ShapeSeq \o ShapeSeq
EqBase(z) ==
  LET H1 == FoldLeft(LAMBDA h, c : NV(h, F, c, "with"), Base1, Twice(0))
      m  == Len(Base1.S.v)
      n  == Len(ShapeSeq)
      ids == [i \in 1..2 * n |-> m + i]
      ints == SelectSeq(ids, LAMBDA i : ValTy(H1.S, i) = I32)
      allocs == SelectSeq(ids, LAMBDA i : H1.S.v[i].k = "alloc" /\ H1.S.v[i].ty = PI)
      consts == SelectSeq(ids, LAMBDA i : H1.S.v[i].k \in ConstK /\ ValTy(H1.S, i) \in {I32, A2})
      brs == SelectSeq(ids, LAMBDA i : H1.S.v[i].k = "branch" /\ Len(H1.S.v[i].ops) > 1 /\ i <= m + n)
      \* users of values that are equal but not the same
      H2 == FoldLeft(LAMBDA h, i : NV(NV(h, F, KB("add", i, 2), ""), F, KJ(3, <<i>>), "with"), H1, ints)
      H3 == FoldLeft(LAMBDA h, i : NV(NV(h, F, K("load", <<i>>), ""), F, K("store", <<2, i>>), ""), H2, allocs)
      H4 == FoldLeft(LAMBDA h, i : NV(h, F, K("agg", <<i, i>>), ""), H3, consts)
      \* arguments that change sides, and lists that end early
      Sh(h, i) ==
        LET d == h.S.v[i]
            h1 == NV(h, F, AsCand(h.S, i), "with")
            v == Len(h1.S.v)
        IN IF d.n > 0 THEN Upd(h1, F, v, "shift", 0, "", [d EXCEPT !.n = @ - 1])
           ELSE Upd(h1, F, v, "unshift", 0, "", [d EXCEPT !.n = @ + 1])
      Po(h, i) ==
        LET d == h.S.v[i]
            k == Len(d.ops)
            h1 == NV(h, F, AsCand(h.S, i), "with")
        IN Upd(h1, F, Len(h1.S.v), "pop", 0, "",
               [d EXCEPT !.ops = SubSeq(@, 1, k - 1), !.n = IF d.k = "branch" /\ @ = k - 1 THEN @ - 1 ELSE @])
      H5 == FoldLeft(Sh, H4, brs)
      pops == SelectSeq([i \in 1..n |-> m + i], LAMBDA i : H1.S.v[i].k \in {"agg", "jump", "call"} /\ Len(H1.S.v[i].ops) > 0) \o brs
  IN FoldLeft(Po, H5, pops)
EqEnd(H) ==
  LET vs == SetToSortSeq(Visible(H.S, F), <)
      V == H.S
  IN Do(H, [op |-> "eq", f |-> F, vs |-> vs,
            m |-> [i \in 1..Len(vs) |-> [j \in 1..Len(vs) |-> VEq(V, vs[i], vs[j])]]], V)

(* -------------------------------- layout --------------------------------- *)
LBase(z) ==
  LET h1 == NF(H0, "@f", <<>>, <<>>, Unit, FALSE)
      h2 == FoldLeft(LAMBDA h, i : NB(h, 1, "", <<>>, <<>>), h1, <<1, 2, 3>>)
      h3 == FoldLeft(LAMBDA h, i : NV(h, 1, K("ret", <<>>), ""), h2, <<1, 2, 3, 4>>)
      P1(h, b) == Do(h, [op |-> "bbins", f |-> 1, b |-> b, how |-> "back", ref |-> 0, dup |-> FALSE],
                     DoBBIns(h.S, 1, Len(h.S.f[1].lay) + 1, b))
      I1(h, b, v) == Do(h, [op |-> "ins", f |-> 1, b |-> b, v |-> v, how |-> "back", ref |-> 0, dup |-> FALSE],
                        DoInstIns(h.S, 1, b, Len(h.S.f[1].lay[BBPos(h.S, 1, b)].is) + 1, v))
  IN I1(I1(I1(P1(P1(h3, 1), 2), 1, 1), 1, 2), 2, 3)

Emit(e, T) == S' = T /\ hist' = Append(hist, [e |-> e, rej |-> FALSE, d |-> Delta(S, T)])
No(e) == S' = S /\ hist' = Append(hist, [e |-> e, rej |-> TRUE, d |-> Delta(S, S)])
Narrow == Depth > 2
Lay == S.f[1].lay
(* Position to insert at, by how: before and after something present. *)
Spots(s, key(_)) ==
  {<<"back", 0, Len(s) + 1>>, <<"front", 0, 1>>}
  \cup {<<"before", key(s[p]), p>> : p \in (IF Narrow THEN {q \in 1..Len(s) : q = Len(s)} ELSE 1..Len(s))}
  \cup {<<"after", key(s[p]), p + 1>> : p \in (IF Narrow THEN {q \in 1..Len(s) : q = 1} ELSE 1..Len(s))}
LayoutStep ==
  \/ \E b \in 1..3 : \E sp \in Spots(Lay, LAMBDA x : x.b) :
       LET here == b \in LayBBs(S, 1) IN
       /\ Narrow /\ here => sp[1] = "back"
       /\ Emit([op |-> "bbins", f |-> 1, b |-> b, how |-> sp[1], ref |-> sp[2], dup |-> here], IF here THEN S ELSE DoBBIns(S, 1, sp[3], b))
  \/ \E b \in 1..3 : \E how \in {"key", "cursor"} :
       LET here == b \in LayBBs(S, 1) IN
       /\ how = "cursor" => here
       /\ Narrow => (how = "key" /\ here)
       /\ Emit([op |-> "bbrm", f |-> 1, b |-> b, how |-> how, absent |-> ~here], IF here THEN DoBBRemove(S, 1, b) ELSE S)
  \/ Emit([op |-> "bbclear", f |-> 1], DoBBClear(S, 1))
  \/ \E p \in 1..Len(Lay) : \E v \in 1..4 : \E sp \in Spots(Lay[p].is, LAMBDA x : x) :
       LET here == v \in ToSet(Lay[p].is) IN
       /\ here \/ v \notin Placed(S, 1)
       /\ Narrow => (here => sp[1] = "front")
       /\ Emit([op |-> "ins", f |-> 1, b |-> Lay[p].b, v |-> v, how |-> sp[1], ref |-> sp[2], dup |-> here],
               IF here THEN S ELSE DoInstIns(S, 1, Lay[p].b, sp[3], v))
  \/ \E p \in 1..Len(Lay) : \E v \in 1..4 : \E how \in {"key", "cursor"} :
       LET here == v \in ToSet(Lay[p].is) IN
       /\ how = "cursor" => here
       /\ Narrow => (how = "cursor" \/ v = 3)
       /\ Emit([op |-> "irm", f |-> 1, b |-> Lay[p].b, v |-> v, how |-> how, absent |-> ~here],
               IF here THEN DoInstRemove(S, 1, Lay[p].b, v) ELSE S)
  \/ \E p, q \in 1..Len(Lay) : \E v \in ToSet(Lay[p].is) : \E how \in {"insert-first", "remove-first"} :
       /\ p # q
       /\ Emit([op |-> "imove", f |-> 1, b |-> Lay[p].b, to |-> Lay[q].b, v |-> v, how |-> how],
               DoInstIns(DoInstRemove(S, 1, Lay[p].b, v), 1, Lay[q].b, Len(Lay[q].is) + 1, v))
  \/ \E p \in 1..Len(Lay) : Emit([op |-> "iclear", f |-> 1, b |-> Lay[p].b], DoInstClear(S, 1, Lay[p].b))

(* -------------------------------- removal -------------------------------- *)
(* More globals and functions, so that there is an order to keep. *)
RBase(z) ==
  LET h1 == NV(NV(NV(Base1, 0, K("galloc", <<7>>), ""), 0, K("galloc", <<6>>), ""), 0, K("galloc", <<6>>), "")
      h2 == NF(NF(NF(h1, "@t", <<>>, <<>>, Unit, TRUE), "@u", <<I32, I32>>, <<"", "%w">>, Unit, FALSE), "@v", <<>>, <<>>, Unit, TRUE)
      h3 == NB(NB(h2, F, "%n", <<PI>>, <<"%q">>), F, "%m", <<>>, <<>>)
  IN NV(h3, F, KJ(9, <<4>>), "with")
Called(f) == \E i \in LiveV(S) : S.v[i].fn = f /\ S.v[i].own # f
RemoveStep ==
  \/ \E v \in {i \in LiveV(S) : S.v[i].k \notin ArgK} :
       LET e == [op |-> "rmval", v |-> v] IN IF OkRemoveVal(S, v) THEN Emit(e, DoRemoveVal(S, v)) ELSE Len(hist) = Depth - 1 /\ No(e)
  \/ \E b \in {i \in 1..Len(S.b) : S.b[i].live} :
       LET e == [op |-> "rmbb", f |-> S.b[b].own, b |-> b] IN IF OkRemoveBB(S, b) THEN Emit(e, DoRemoveBB(S, b)) ELSE Len(hist) = Depth - 1 /\ No(e)
  \/ \E f \in 1..Len(S.f) : ~Called(f) /\ Emit([op |-> "rmfunc", f |-> f], IF f \in LiveF(S) THEN DoRemoveFunc(S, f) ELSE S)

(* ------------------------------- printing -------------------------------- *)
Prefix == CASE Mode = "layout" -> LBase(0) [] Mode = "remove" -> RBase(0) [] Mode = "eq" -> EqBase(0) [] OTHER -> Base1
B == TLCEval(Prefix)
Items(g) == CASE Mode \in {"typing", "replace"} -> Calls(g) [] Mode = "decls" -> Decls(0) [] Mode = "rewrite" -> Pairs(0)
              [] OTHER -> ShapeSeq
Histories == Mode \in {"layout", "remove"}
Try(H, x) == CASE Mode = "typing" -> TryNew(H, x) [] Mode = "replace" -> TryRep(H, x) [] Mode = "decls" -> TryDecl(H, x)
               [] Mode = "rewrite" -> TryPair(H, x) [] OTHER -> TryUpd(H, x)

Say(x) == PrintT("@@" \o ToJson(x))
(* ph: 0 start, 11.. listing, 3 choosing a chunk, 1 building, 2 done.  part: the calls of this chunk. *)
Init == S = B.S /\ hist = <<>> /\ part = <<>> /\ ph = 0
Next ==
  \/ ph = 0 /\ Say([base |-> B.h]) /\ ph' = 2 /\ UNCHANGED <<S, hist, part>>
  \/ ph = 0 /\ (Histories \/ Mode = "eq") /\ ph' = 1 /\ UNCHANGED <<S, hist, part>>
  \/ ph = 0 /\ ~Histories /\ Mode # "eq" /\ ph' \in (IF Mode \in {"typing", "replace"} THEN 11..10 + Groups ELSE {11}) /\ part' = <<>> /\ UNCHANGED <<S, hist>>
  \/ ph > 10 /\ ph' = 3 /\ part' = Items(ph - 10) /\ UNCHANGED <<S, hist>>
  \/ /\ ph = 3 /\ ph' = 1 /\ UNCHANGED <<S, hist>>
     /\ \E k \in 0..(Len(part) - 1) \div Chunk :
          part' = SubSeq(part, k * Chunk + 1, IF (k + 1) * Chunk > Len(part) THEN Len(part) ELSE (k + 1) * Chunk)
  \/ ph = 1 /\ ~Histories /\ Mode # "eq" /\ ph' = 2 /\ hist' = hist /\ part' = <<>>
     /\ LET R == FoldLeft(Try, [S |-> S, h |-> <<>>], part) IN Say(R.h) /\ S' = R.S
  \/ ph = 1 /\ Mode = "eq" /\ Say(EqEnd([S |-> S, h |-> <<>>]).h) /\ ph' = 2 /\ UNCHANGED <<S, hist, part>>
  \/ ph = 1 /\ Mode = "layout" /\ Len(hist) < Depth /\ LayoutStep /\ UNCHANGED <<ph, part>>
  \/ ph = 1 /\ Mode = "remove" /\ Len(hist) < Depth /\ RemoveStep /\ UNCHANGED <<ph, part>>
  \/ ph = 1 /\ Histories /\ Len(hist) = Depth /\ Say(hist) /\ ph' = 2 /\ UNCHANGED <<S, hist, part>>
Spec == Init /\ [][Next]_vars
Inv == UsesExact(S) /\ ParentExact(S) /\ LayoutDistinct(S) /\ NoDangling(S) /\ GlobalsClosed(S)
       /\ (Mode \in {"eq", "rewrite", "update"} \/ AllTyped(S)) 
=============================================================================
