------------------------------- MODULE Front -------------------------------
(* The text front end as a function: the language's grammar, scoping and     *)
(* typing rules, and the program that a text denotes.                        *)
(* Input: a sequence of tokens [s, nl]; nl: on a later line than the token   *)
(* before.  Meaning(ts) is [v, p]:                                           *)
(*    v = "ok"      the text is well formed and denotes the program p        *)
(*    v = "reject"  the text breaks a rule of the language                   *)
(*    v = "any"     neither is promised (a use whose definition reaches it   *)
(*                  on some paths only, a call of a function that is defined *)
(*                  later, names shared between kinds of symbols)            *)
EXTENDS Prog

(* ----------------------------- token classes ----------------------------- *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Keywords == {"i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr",
             "br", "jump", "call", "ret", "fun", "decl"}
Operators == {"ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod",
              "and", "or", "xor", "shl", "shr", "sar"}
Cls(s) == LET c == SubSeq(s, 1, 1) IN
          IF c \in {"@", "%"} THEN "sym" ELSE IF c \in Digits \cup {"-"} THEN "int"
          ELSE IF s \in Keywords THEN "kw" ELSE IF s \in Operators THEN "op" ELSE "ch"
DigitVal == [c \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = c]
RECURSIVE Nat_(_, _, _)
Nat_(s, i, acc) == IF i > Len(s) THEN acc ELSE Nat_(s, i + 1, acc * 10 + DigitVal[SubSeq(s, i, i)])
RECURSIVE Neg_(_, _, _)
Neg_(s, i, acc) == IF i > Len(s) THEN acc ELSE Neg_(s, i + 1, acc * 10 - DigitVal[SubSeq(s, i, i)])
(* Integers that do not fit in 32 bits: nothing is promised about them.  (The canonical spelling is assumed.) *)
Mag(s) == IF SubSeq(s, 1, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s
Wide(s) ==
  LET m == Mag(s) IN
  Len(m) > 10 \/ (Len(m) = 10 /\ LET q == Nat_(SubSeq(m, 1, 9), 1, 0)  d == DigitVal[SubSeq(m, 10, 10)] IN
                                q > 214748364 \/ (q = 214748364 /\ d > (IF m = s THEN 7 ELSE 8)))
IntOf(s) == IF SubSeq(s, 1, 1) = "-" THEN Neg_(s, 2, 0) ELSE Nat_(s, 1, 0)
IsLong(s) == \E i \in 1..Len(LongLen) : LongLen[i] = s
LenOf(s) == IF IsLong(s) THEN -(CHOOSE i \in 1..Len(LongLen) : LongLen[i] = s) ELSE IntOf(s)
(* `%digits`: a temporary, which is not a name. *)
Temp(s) == \A i \in 2..Len(s) : SubSeq(s, i, i) \in Digits
NameTok(s) == IF SubSeq(s, 1, 1) = "%" /\ Temp(s) THEN "" ELSE s

(* ------------------------------- grammar --------------------------------- *)
(* Every reader takes the position of the next token and gives               *)
(* <<position after, tree>>, or <<-e, 0>> when the rule does not match, where*)
(* e is the first token that can not be there.                               *)
Fail(i) == <<IF i > 0 THEN -i ELSE i, 0>>
At(ts, i) == IF i > Len(ts) \/ i < 1 THEN "" ELSE ts[i].s
ClsAt(ts, i) == IF i > Len(ts) \/ i < 1 THEN "end" ELSE ts[i].c
Eat(ts, i, s) == IF i < 1 THEN i ELSE IF At(ts, i) = s THEN i + 1 ELSE -i

RECURSIVE PType(_, _), PTypes(_, _, _), PTypeList(_, _)
PType(ts, i) ==
  IF i < 1 THEN Fail(i) ELSE
  CASE At(ts, i) = "i32" -> <<i + 1, I32>>
    [] At(ts, i) = "*" -> LET b == PType(ts, i + 1) IN IF b[1] < 1 THEN b ELSE <<b[1], Ptr(b[2])>>
    [] At(ts, i) = "[" ->
         LET b == PType(ts, i + 1)  j == Eat(ts, b[1], ",") IN
         IF j < 1 \/ ClsAt(ts, j) # "int" THEN Fail(j)
         ELSE IF LenOf(At(ts, j)) <= 0 /\ ~IsLong(At(ts, j)) THEN Fail(j)
         ELSE IF Eat(ts, j + 1, "]") < 1 THEN Fail(j + 1)
         ELSE <<j + 2, Arr(b[2], LenOf(At(ts, j)))>>
    [] At(ts, i) = "(" ->
         LET l == PTypeList(ts, i) IN
         IF l[1] < 1 THEN l
         ELSE IF At(ts, l[1]) # ":" THEN <<l[1], Fun(l[2], Unit)>>
         ELSE LET r == PType(ts, l[1] + 1) IN IF r[1] < 1 THEN r ELSE <<r[1], Fun(l[2], r[2])>>
    [] OTHER -> Fail(i)
PTypes(ts, i, acc) ==
  LET t == PType(ts, i) IN
  IF t[1] < 1 THEN t
  ELSE IF At(ts, t[1]) = "," THEN PTypes(ts, t[1] + 1, Append(acc, t[2]))
  ELSE IF At(ts, t[1]) = ")" THEN <<t[1] + 1, Append(acc, t[2])>> ELSE Fail(t[1])
PTypeList(ts, i) ==
  LET j == Eat(ts, i, "(") IN
  IF j < 1 THEN Fail(j) ELSE IF At(ts, j) = ")" THEN <<j + 1, <<>>>> ELSE PTypes(ts, j, <<>>)

POptRet(ts, i) == IF At(ts, i) = ":" THEN PType(ts, i + 1) ELSE <<i, Unit>>

PSym(ts, i) == IF ClsAt(ts, i) = "sym" THEN <<i + 1, <<"sym", At(ts, i)>>>> ELSE Fail(i)
PVal(ts, i) ==
  IF i < 1 THEN Fail(i)
  ELSE IF ClsAt(ts, i) \in {"sym", "int"} THEN <<i + 1, <<ClsAt(ts, i), At(ts, i)>>>>
  ELSE IF At(ts, i) = "undef" THEN <<i + 1, <<"undef">>>> ELSE Fail(i)

RECURSIVE PVals(_, _, _), PInit(_, _), PInits(_, _, _)
PVals(ts, i, acc) ==
  LET t == PVal(ts, i) IN
  IF t[1] < 1 THEN t
  ELSE IF At(ts, t[1]) = "," THEN PVals(ts, t[1] + 1, Append(acc, t[2]))
  ELSE IF At(ts, t[1]) = ")" THEN <<t[1] + 1, Append(acc, t[2])>> ELSE Fail(t[1])
PValList(ts, i) ==
  LET j == Eat(ts, i, "(") IN
  IF j < 1 THEN Fail(j) ELSE IF At(ts, j) = ")" THEN <<j + 1, <<>>>> ELSE PVals(ts, j, <<>>)
POptVals(ts, i) == IF At(ts, i) = "(" THEN PValList(ts, i) ELSE <<i, <<>>>>

PInit(ts, i) ==
  IF i < 1 THEN Fail(i) ELSE
  CASE ClsAt(ts, i) = "int" -> <<i + 1, <<"int", At(ts, i)>>>>
    [] At(ts, i) = "undef" -> <<i + 1, <<"undef">>>>
    [] At(ts, i) = "zeroinit" -> <<i + 1, <<"zero">>>>
    [] At(ts, i) = "{" -> LET l == PInits(ts, i + 1, <<>>) IN IF l[1] < 1 THEN l ELSE <<l[1], <<"agg", l[2]>>>>
    [] OTHER -> Fail(i)
PInits(ts, i, acc) ==
  LET t == PInit(ts, i) IN
  IF t[1] < 1 THEN t
  ELSE IF At(ts, t[1]) = "," THEN PInits(ts, t[1] + 1, Append(acc, t[2]))
  ELSE IF At(ts, t[1]) = "}" THEN <<t[1] + 1, Append(acc, t[2])>> ELSE Fail(t[1])

(* ( name : type, ... ) as <<names, types>> *)
RECURSIVE PParams(_, _, _, _)
PParams(ts, i, ns, tys) ==
  LET n == PSym(ts, i)  j == Eat(ts, n[1], ":")  t == PType(ts, j)
  IN IF t[1] < 1 THEN t
     ELSE IF At(ts, t[1]) = "," THEN PParams(ts, t[1] + 1, Append(ns, n[2][2]), Append(tys, t[2]))
     ELSE IF At(ts, t[1]) = ")" THEN <<t[1] + 1, <<Append(ns, n[2][2]), Append(tys, t[2])>>>> ELSE Fail(t[1])
PParamList(ts, i) ==
  LET j == Eat(ts, i, "(") IN
  IF j < 1 THEN Fail(j) ELSE IF At(ts, j) = ")" THEN <<j + 1, <<<<>>, <<>>>>>> ELSE PParams(ts, j, <<>>, <<>>)

(* Statements: [k, nm, x, ty, os (operands), fn, bbs, n] *)
St(k, nm, x, ty, os, fn, bbs, n) ==
  [k |-> k, nm |-> nm, x |-> x, ty |-> ty, os |-> os, fn |-> fn, bbs |-> bbs, n |-> n]

PCall(ts, i, nm) ==
  LET f == PSym(ts, i + 1)  l == PValList(ts, f[1]) IN
  IF l[1] < 1 THEN l ELSE <<l[1], St("call", nm, "", Unit, l[2], f[2][2], <<>>, 0)>>

(* val , val  /  sym , val  /  init , sym *)
PPair(ts, i, First(_, _), Second(_, _), k, nm, x) ==
  LET a == First(ts, i)  b == Second(ts, Eat(ts, a[1], ","))
  IN IF b[1] < 1 THEN b ELSE <<b[1], St(k, nm, x, Unit, <<a[2], b[2]>>, "", <<>>, 0)>>
PSrc(ts, i) == IF ClsAt(ts, i) = "sym" THEN PSym(ts, i) ELSE PInit(ts, i)

PStmt(ts, i) ==
  CASE ClsAt(ts, i) = "sym" ->
         LET nm == At(ts, i)  j == Eat(ts, i + 1, "=")  k == At(ts, j) IN
         IF j < 1 THEN Fail(j)
         ELSE CASE k = "alloc" -> LET t == PType(ts, j + 1) IN
                                  IF t[1] < 1 THEN t ELSE <<t[1], St("alloc", nm, "", t[2], <<>>, "", <<>>, 0)>>
                [] k = "load" -> LET s == PSym(ts, j + 1) IN
                                 IF s[1] < 1 THEN s ELSE <<s[1], St("load", nm, "", Unit, <<s[2]>>, "", <<>>, 0)>>
                [] k \in {"getptr", "getelemptr"} -> PPair(ts, j + 1, PSym, PVal, k, nm, "")
                [] k = "call" -> PCall(ts, j, nm)
                [] k \in Operators -> PPair(ts, j + 1, PVal, PVal, "binary", nm, k)
                [] OTHER -> Fail(j)
    [] At(ts, i) = "store" -> PPair(ts, i + 1, PSrc, PSym, "store", "", "")
    [] At(ts, i) = "call" -> PCall(ts, i, "")
    [] At(ts, i) = "br" ->
         LET c == PVal(ts, i + 1)
             t == PSym(ts, Eat(ts, c[1], ","))
             ta == POptVals(ts, t[1])
             f == PSym(ts, Eat(ts, ta[1], ","))
             fa == POptVals(ts, f[1])
         IN IF fa[1] < 1 THEN Fail(fa[1])
            ELSE <<fa[1], St("branch", "", "", Unit, <<c[2]>> \o ta[2] \o fa[2], "", <<t[2][2], f[2][2]>>, Len(ta[2]))>>
    [] At(ts, i) = "jump" ->
         LET t == PSym(ts, i + 1)  a == POptVals(ts, t[1]) IN
         IF a[1] < 1 THEN Fail(a[1]) ELSE <<a[1], St("jump", "", "", Unit, a[2], "", <<t[2][2]>>, 0)>>
    [] At(ts, i) = "ret" ->
         (* a value has to start on the line of `ret` *)
         IF i + 1 > Len(ts) \/ ts[i + 1].nl THEN <<i + 1, St("ret", "", "", Unit, <<>>, "", <<>>, 0)>>
         ELSE LET v == PVal(ts, i + 1) IN
              IF v[1] < 1 THEN v ELSE <<v[1], St("ret", "", "", Unit, <<v[2]>>, "", <<>>, 0)>>
    [] OTHER -> Fail(i)

(* The statements of a block with the positions at which they start. *)
RECURSIVE PStmts(_, _, _, _)
PStmts(ts, i, acc, at) ==
  LET s == PStmt(ts, i) IN
  IF s[1] < 1 THEN s
  ELSE IF s[2].k \in TermK THEN <<s[1], <<Append(acc, s[2]), Append(at, i)>>>>
  ELSE PStmts(ts, s[1], Append(acc, s[2]), Append(at, i))

PBlock(ts, i) ==
  LET n == PSym(ts, i)
      ps == IF At(ts, n[1]) = "(" THEN PParamList(ts, n[1]) ELSE <<n[1], <<<<>>, <<>>>>>>
      j == Eat(ts, ps[1], ":")
      b == IF j < 1 THEN Fail(j) ELSE PStmts(ts, j, <<>>, <<>>)
  IN IF b[1] < 1 THEN b ELSE <<b[1], [nm |-> n[2][2], pns |-> ps[2][1], pts |-> ps[2][2], ss |-> b[2][1], at |-> i, sat |-> b[2][2]]>>
RECURSIVE PBlocks(_, _, _)
PBlocks(ts, i, acc) ==
  IF At(ts, i) = "}" THEN (IF acc = <<>> THEN Fail(i) ELSE <<i + 1, acc>>)
  ELSE LET b == TLCEval(PBlock(ts, i)) IN IF b[1] < 1 THEN b ELSE PBlocks(ts, b[1], Append(acc, b[2]))

(* at: position of the item; in: of the initializer, or of the body. *)
PItem(ts, i) ==
  LET n == PSym(ts, i + 1) IN
  IF At(ts, i) \notin {"global", "decl", "fun"} THEN Fail(i) ELSE
  IF n[1] < 1 THEN n ELSE
  CASE At(ts, i) = "global" ->
         LET t == PType(ts, Eat(ts, Eat(ts, n[1], "="), "alloc"))
             j == Eat(ts, t[1], ",")
             v == PInit(ts, j)
         IN IF v[1] < 1 THEN v ELSE <<v[1], [it |-> "global", nm |-> n[2][2], ty |-> t[2], init |-> v[2], at |-> i, in |-> j]>>
    [] At(ts, i) = "decl" ->
         LET l == PTypeList(ts, n[1])  r == POptRet(ts, l[1]) IN
         IF r[1] < 1 THEN Fail(r[1])
         ELSE <<r[1], [it |-> "decl", nm |-> n[2][2], pns |-> <<>>, pts |-> l[2], rt |-> r[2], bs |-> <<>>, at |-> i, in |-> r[1]]>>
    [] OTHER ->
         LET l == PParamList(ts, n[1])  r == POptRet(ts, l[1])
             j == Eat(ts, r[1], "{")
             b == IF j < 1 THEN Fail(j) ELSE PBlocks(ts, j, <<>>)
         IN IF b[1] < 1 THEN Fail(b[1])
            ELSE <<b[1], [it |-> "fun", nm |-> n[2][2], pns |-> l[2][1], pts |-> l[2][2], rt |-> r[2], bs |-> b[2], at |-> i, in |-> j]>>
(* <<position after, items>>; if an item does not match: <<-e, items before, where it starts>>. *)
RECURSIVE PItems(_, _, _)
PItems(ts, i, acc) ==
  IF i > Len(ts) THEN <<i, acc>>
  ELSE LET t == TLCEval(PItem(ts, i)) IN IF t[1] < 1 THEN <<t[1], acc, i>> ELSE PItems(ts, t[1], Append(acc, t[2]))

(* --------------------------- scopes and types ---------------------------- *)
(* Severity 0 ok, 1 any, 2 reject. *)
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == IF 2 \in S THEN 2 ELSE IF 1 \in S THEN 1 ELSE 0
Unknown == <<"?">>
Dups(s) == \E i, j \in 1..Len(s) : i < j /\ s[i] = s[j]

(* A constant written where type t is expected: <<severity, operand>>. *)
RECURSIVE Elab(_, _)
Elab(c, t) ==
  IF t = Unknown THEN <<1, Und(t)>> ELSE
  CASE c[1] = "int"   -> IF IsLong(c[2]) THEN <<IF IsI32(t) THEN 1 ELSE 2, Lit(0)>> ELSE <<IF IsI32(t) THEN 0 ELSE 2, Lit(IntOf(c[2]))>>
    [] c[1] = "undef" -> <<0, Und(t)>>
    [] c[1] = "zero"  -> <<0, Zero(t)>>
    [] OTHER -> IF ~IsArr(t) THEN <<2, Und(t)>>
                ELSE IF ArrLen(t) # Len(c[2]) THEN <<2, Und(t)>>
                ELSE LET es == TLCEval([i \in 1..Len(c[2]) |-> Elab(c[2][i], Base(t))]) IN
                     <<MaxOf({es[i][1] : i \in 1..Len(es)}), Agg(t, [i \in 1..Len(es) |-> es[i][2]])>>

(* Types that can be the type of a variable: function types are not promised.*)
RECURSIVE Sized(_)
Sized(t) == ~IsFun(t) /\ (IsArr(t) => Sized(Base(t)))

(* The environment of a function body.                                       *)
(*  X = [gs: <<[nm, ty]>> earlier globals, gl: names of later globals,       *)
(*       fs: <<[nm, pts, rt]>> earlier functions and this one,               *)
(*       fl: names of later functions, fn: the function tree,                *)
(*       ord: reachable blocks (positions in fn.bs) breadth first,           *)
(*       sk: renumbered skeleton, doms: dominators]                          *)
(* env: local definitions so far, <<[nm, o, ty, b]>>                         *)
Find(s, nm) == LET c == {i \in 1..Len(s) : s[i].nm = nm} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

(* Blocks from which block b is reached by at least one step. *)
Before(sk, b) == {a \in 1..Len(sk) : b \in ReachFrom(sk, ToSet(sk[a]), {})}

(* Use of symbol nm in block b: <<severity, operand, type>>. *)
Use(X, env, b, nm) ==
  LET g == Find(X.gs, nm)  p == Find(X.ps, nm)
      l == {i \in 1..Len(env) : env[i].nm = nm /\ env[i].b \in X.doms[b]}
  IN IF g # 0 THEN <<0, G(g), Ptr(X.gs[g].ty)>>
     ELSE IF p # 0 THEN <<0, Pm(p), X.ps[p].ty>>
     ELSE IF l # {} THEN LET i == CHOOSE i \in l : TRUE IN <<0, env[i].o, env[i].ty>>
     ELSE IF nm \in X.gl THEN <<1, Und(I32), Unknown>>
     ELSE IF \E d \in X.defs : d[1] = nm /\ d[2] \in Before(X.sk, b) THEN <<1, Und(I32), Unknown>>
     ELSE <<2, Und(I32), Unknown>>

(* A value written where type t is expected. *)
ValOf(X, env, b, c, t) ==
  IF c[1] = "sym" THEN
    LET u == Use(X, env, b, c[2]) IN
    <<IF u[1] # 0 THEN u[1] ELSE IF t = Unknown \/ u[3] = Unknown THEN 1 ELSE IF u[3] = t THEN 0 ELSE 2, u[2]>>
  ELSE Elab(c, t)
ArgsOf(X, env, b, cs, tys) ==
  IF Len(cs) # Len(tys) THEN <<2, <<>>>>
  ELSE LET vs == TLCEval([i \in 1..Len(cs) |-> ValOf(X, env, b, cs[i], tys[i])]) IN
       <<MaxOf({vs[i][1] : i \in 1..Len(vs)}), [i \in 1..Len(vs) |-> vs[i][2]]>>

BlkNo(X, nm) == LET c == {i \in 1..Len(X.ord) : X.fn.bs[X.ord[i]].nm = nm} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
TgtTys(X, nm) == LET b == BlkNo(X, nm) IN IF b = 0 THEN <<>> ELSE X.fn.bs[X.ord[b]].pts

(* One statement: <<severity, instruction>>. *)
ElabSt(X, env, b, s) ==
  LET nm == IF s.nm = "" THEN "" ELSE NameTok(s.nm)
      R(v, k, ty, ops, fn, bbs) ==
        <<v, [k |-> k, ty |-> ty, nm |-> nm, ops |-> ops, x |-> s.x, fn |-> fn, bbs |-> bbs, n |-> s.n]>>
      PtrUse == Use(X, env, b, s.os[1][2])
      Pt == PtrUse[3]
  IN CASE s.k = "alloc" -> R(IF Sized(s.ty) THEN 0 ELSE 1, "alloc", Ptr(s.ty), <<>>, 0, <<>>)
       [] s.k = "load" ->
            IF Pt = Unknown THEN R(Max2(1, PtrUse[1]), "load", Unknown, <<>>, 0, <<>>)
            ELSE IF ~IsPtr(Pt) THEN R(2, "load", Unknown, <<>>, 0, <<>>)
            ELSE R(IF IsFun(Base(Pt)) THEN 1 ELSE 0, "load", Base(Pt), <<PtrUse[2]>>, 0, <<>>)
       [] s.k = "getptr" ->
            LET i == ValOf(X, env, b, s.os[2], I32) IN
            IF Pt = Unknown THEN R(Max2(1, Max2(PtrUse[1], i[1])), "getptr", Unknown, <<>>, 0, <<>>)
            ELSE IF ~IsPtr(Pt) THEN R(2, "getptr", Unknown, <<>>, 0, <<>>)
            ELSE R(Max2(IF Sized(Base(Pt)) THEN 0 ELSE 1, i[1]), "getptr", Pt, <<PtrUse[2], i[2]>>, 0, <<>>)
       [] s.k = "getelemptr" ->
            LET i == ValOf(X, env, b, s.os[2], I32) IN
            IF Pt = Unknown THEN R(Max2(1, Max2(PtrUse[1], i[1])), "getelemptr", Unknown, <<>>, 0, <<>>)
            ELSE IF ~IsPtr(Pt) THEN R(2, "getelemptr", Unknown, <<>>, 0, <<>>)
            ELSE IF ~IsArr(Base(Pt)) THEN R(2, "getelemptr", Unknown, <<>>, 0, <<>>)
            ELSE R(i[1], "getelemptr", Ptr(Base(Base(Pt))), <<PtrUse[2], i[2]>>, 0, <<>>)
       [] s.k = "binary" ->
            LET a == ArgsOf(X, env, b, s.os, <<I32, I32>>) IN R(a[1], "binary", I32, a[2], 0, <<>>)
       [] s.k = "store" ->
            LET d == Use(X, env, b, s.os[2][2])
                v == ValOf(X, env, b, s.os[1], IF d[3] # Unknown /\ IsPtr(d[3]) THEN Base(d[3]) ELSE Unknown)
            IN IF d[3] = Unknown THEN R(Max2(1, Max2(d[1], v[1])), "store", Unit, <<>>, 0, <<>>)
               ELSE IF ~IsPtr(d[3]) THEN R(2, "store", Unit, <<>>, 0, <<>>)
               ELSE R(Max2(IF Sized(Base(d[3])) THEN 0 ELSE 1, v[1]), "store", Unit, <<v[2], d[2]>>, 0, <<>>)
       [] s.k = "call" ->
            LET f == Find(X.fs, s.fn)
                a == IF f = 0 THEN <<0, <<>>>> ELSE ArgsOf(X, env, b, s.os, X.fs[f].pts)
            IN IF f = 0 THEN R(IF s.fn \in X.fl THEN 1 ELSE 2, "call", Unknown, <<>>, 0, <<>>)
               ELSE R(Max2(a[1], IF s.nm # "" /\ IsUnit(X.fs[f].rt) THEN 2 ELSE 0), "call", X.fs[f].rt, a[2], f, <<>>)
       [] s.k = "jump" ->
            LET a == ArgsOf(X, env, b, s.os, TgtTys(X, s.bbs[1])) IN
            R(Max2(a[1], IF BlkNo(X, s.bbs[1]) = 0 THEN 2 ELSE 0), "jump", Unit, a[2], 0, <<BlkNo(X, s.bbs[1])>>)
       [] s.k = "branch" ->
            LET c == ValOf(X, env, b, s.os[1], I32)
                t == ArgsOf(X, env, b, SubSeq(s.os, 2, 1 + s.n), TgtTys(X, s.bbs[1]))
                e == ArgsOf(X, env, b, SubSeq(s.os, 2 + s.n, Len(s.os)), TgtTys(X, s.bbs[2]))
                nb == <<BlkNo(X, s.bbs[1]), BlkNo(X, s.bbs[2])>>
            IN R(MaxOf({c[1], t[1], e[1], IF 0 \in ToSet(nb) THEN 2 ELSE 0,
                        IF s.bbs[1] = s.bbs[2] /\ Len(s.os) > 1 THEN 2 ELSE 0}),
                 "branch", Unit, <<c[2]>> \o t[2] \o e[2], 0, nb)
       [] OTHER ->
            IF IsUnit(X.rt) # (s.os = <<>>) THEN R(2, "ret", Unit, <<>>, 0, <<>>)
            ELSE IF s.os = <<>> THEN R(0, "ret", Unit, <<>>, 0, <<>>)
            ELSE LET v == ValOf(X, env, b, s.os[1], X.rt) IN R(v[1], "ret", Unit, <<v[2]>>, 0, <<>>)

(* A block: <<severity, instructions, environment>>. *)
RECURSIVE ElabSts(_, _, _, _, _, _, _)
ElabSts(X, env, b, ss, i, v, acc) ==
  IF i > Len(ss) THEN <<v, acc, env>>
  ELSE LET r == TLCEval(ElabSt(X, env, b, ss[i]))
           env2 == IF ss[i].nm = "" THEN env
                   ELSE Append(env, [nm |-> ss[i].nm, o |-> In(b, i), ty |-> r[2].ty, b |-> b])
       IN ElabSts(X, env2, b, ss, i + 1, Max2(v, r[1]), Append(acc, r[2]))
RECURSIVE ElabBlocks(_, _, _, _, _)
ElabBlocks(X, env, k, v, acc) ==
  IF k > Len(X.ord) THEN <<v, acc>>
  ELSE LET B == X.fn.bs[X.ord[k]]
           env1 == env \o [i \in 1..Len(B.pts) |-> [nm |-> B.pns[i], o |-> Bp(k, i), ty |-> B.pts[i], b |-> k]]
           r == TLCEval(ElabSts(X, env1, k, B.ss, 1, v, <<>>))
       IN ElabBlocks(X, r[3], k + 1, r[1],
            Append(acc, [nm |-> NameTok(B.nm), pts |-> B.pts, pnm |-> [i \in 1..Len(B.pns) |-> NameTok(B.pns[i])], is |-> r[2]]))

(* Targets by position in the text; 0 for a label that is not defined. *)
LabelNo(F, nm) == LET c == {i \in 1..Len(F.bs) : F.bs[i].nm = nm} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
RawSkel(F) == TLCEval([b \in 1..Len(F.bs) |->
                LET t == F.bs[b].ss[Len(F.bs[b].ss)].bbs IN
                TLCEval(SelectSeq([i \in 1..Len(t) |-> LabelNo(F, t[i])], LAMBDA x : x # 0))])
UndefTargets(F, b) == LET t == F.bs[b].ss[Len(F.bs[b].ss)].bbs IN \E i \in 1..Len(t) : LabelNo(F, t[i]) = 0

(* What is known when the body of a function is read. *)
FunX(gs, gl, fs, fl, F) ==
  LET raw == RawSkel(F)
      labels == [i \in 1..Len(F.bs) |-> F.bs[i].nm]
      ord == TLCEval(Bfs(raw))
      sk == Renumber(raw, ord)
      syms == F.pns \o Cat([k \in 1..Len(ord) |->
                 F.bs[ord[k]].pns \o SelectSeq([i \in 1..Len(F.bs[ord[k]].ss) |-> F.bs[ord[k]].ss[i].nm], LAMBDA s : s # "")])
      defs == UNION {{<<F.bs[ord[k]].pns[i], k>> : i \in 1..Len(F.bs[ord[k]].pns)}
                     \cup {<<F.bs[ord[k]].ss[i].nm, k>> : i \in 1..Len(F.bs[ord[k]].ss)} : k \in 1..Len(ord)}
  IN [gs |-> gs, gl |-> gl, fs |-> fs, fl |-> fl, fn |-> F, ord |-> ord, sk |-> sk,
      ps |-> [i \in 1..Len(F.pns) |-> [nm |-> F.pns[i], ty |-> F.pts[i]]], rt |-> F.rt, defs |-> defs,
      doms |-> TLCEval([b \in 1..Len(sk) |-> Dom(sk, b)]), syms |-> syms, labels |-> labels,
      gnames |-> {gs[i].nm : i \in 1..Len(gs)}, fnames |-> {fs[i].nm : i \in 1..Len(fs)} \cup fl]
HardFun(X) ==
  \/ Dups(X.labels)
  \/ \E k \in 1..Len(X.ord) : UndefTargets(X.fn, X.ord[k]) \/ 1 \in ToSet(X.sk[k])
  \/ Dups(X.syms) \/ \E i \in 1..Len(X.syms) : X.syms[i] \in X.gnames
SoftFun(X) ==
  \/ \E i \in 1..Len(X.syms) : X.syms[i] \in X.gl \cup X.fnames \cup ToSet(X.labels)
  \/ X.fn.bs[1].pns # <<>>

(* A function: <<severity, function term>>. *)
ElabFun(gs, gl, fs, fl, F) ==
  IF F.it = "decl" THEN <<0, [nm |-> F.nm, decl |-> TRUE, pts |-> F.pts, pnm |-> <<>>, rt |-> F.rt, bs |-> <<>>]>>
  ELSE
  LET X == TLCEval(FunX(gs, gl, fs, fl, F)) IN
  IF HardFun(X) THEN <<2, 0>>
  ELSE LET r == ElabBlocks(X, <<>>, 1, 0, <<>>) IN
       <<Max2(r[1], IF SoftFun(X) THEN 1 ELSE 0),
         [nm |-> F.nm, decl |-> FALSE, pts |-> F.pts, pnm |-> [i \in 1..Len(F.pns) |-> NameTok(F.pns[i])], rt |-> F.rt, bs |-> r[2]]>>

(* Types that are not promised anywhere in a header. *)
HeadSoft(F) == \E i \in 1..Len(F.pts) : ~Sized(F.pts[i])
               \/ (~IsUnit(F.rt) /\ ~Sized(F.rt))
               \/ \E b \in 1..Len(F.bs) : \E j \in 1..Len(F.bs[b].pts) : ~Sized(F.bs[b].pts[j])

(* Items in order: <<severity, globals, functions>>. *)
RECURSIVE ElabItems(_, _, _, _, _, _)
ElabItems(its, i, v, gs, fs, fsigs) ==
  IF i > Len(its) THEN <<v, gs, fs>>
  ELSE LET it == its[i]
           later == {j \in i + 1..Len(its) : TRUE}
       IN IF it.it = "global" THEN
            LET e == Elab(it.init, it.ty) IN
            ElabItems(its, i + 1, MaxOf({v, e[1], IF Sized(it.ty) THEN 0 ELSE 1}),
                      Append(gs, [nm |-> it.nm, ty |-> it.ty, init |-> e[2]]), fs, fsigs)
          ELSE
            LET sg == Append(fsigs, [nm |-> it.nm, pts |-> it.pts, rt |-> it.rt])
                r == TLCEval(ElabFun(gs, {its[j].nm : j \in {j \in later : its[j].it = "global"}}, sg,
                                     {its[j].nm : j \in {j \in later : its[j].it # "global"}}, it))
            IN ElabItems(its, i + 1, MaxOf({v, r[1], IF HeadSoft(it) THEN 1 ELSE 0}), gs, Append(fs, r[2]), sg)

(* Does a reachable block of some function lead back to its first block? *)
EntryPred(its) == \E i \in 1..Len(its) : its[i].it = "fun" /\
  LET raw == RawSkel(its[i]) IN \E b \in Reach(raw) : 1 \in ToSet(raw[b])

Verdict(v) == CASE v = 0 -> "ok" [] v = 1 -> "any" [] OTHER -> "reject"
NoProg == [gs |-> <<>>, fs |-> <<>>]

(* Types as tokens. *)
RECURSIVE TyTk(_), TysTk(_, _)
TyTk(t) ==
  CASE IsI32(t)  -> <<"i32">>
    [] IsPtr(t)  -> <<"*">> \o TyTk(t[2])
    [] IsArr(t)  -> <<"[">> \o TyTk(t[2]) \o <<",", LenStr(t[3]), "]">>
    [] OTHER     -> <<"(">> \o TysTk(t[2], 1) \o <<")">> \o (IF IsUnit(t[3]) THEN <<>> ELSE <<":">> \o TyTk(t[3]))
TysTk(ts, i) == IF i > Len(ts) THEN <<>> ELSE (IF i > 1 THEN <<",">> ELSE <<>>) \o TyTk(ts[i]) \o TysTk(ts, i + 1)

(* Lexical classes are put on the tokens once. *)
Classed(toks) == TLCEval([i \in 1..Len(toks) |-> [s |-> toks[i].s, nl |-> toks[i].nl, c |-> Cls(toks[i].s)]])

(* The program itself, and its listing. *)
Program(toks) ==
  LET ts == Classed(toks)
      t == TLCEval(PItems(ts, 1, <<>>))
      names == [i \in 1..Len(t[2]) |-> t[2][i].nm]
  IN IF \E i \in 1..Len(ts) : ts[i].c = "int" /\ Wide(ts[i].s) /\ ~IsLong(ts[i].s) THEN [v |-> "any", why |-> "wide", q |-> NoProg]
     ELSE IF t[1] < 1 THEN [v |-> "reject", why |-> "syntax", q |-> NoProg]
     ELSE IF Dups(names) THEN [v |-> "reject", why |-> "names", q |-> NoProg]
     ELSE LET r == TLCEval(ElabItems(t[2], 1, 0, <<>>, <<>>, <<>>)) IN
          [v |-> Verdict(r[1]), why |-> IF EntryPred(t[2]) THEN "entry" ELSE "rules",
           q |-> IF r[1] = 0
                 THEN [gs |-> [i \in 1..Len(r[2]) |-> [nm |-> NameTok(r[2][i].nm), ty |-> r[2][i].ty, init |-> r[2][i].init]], fs |-> r[3]]
                 ELSE NoProg]
Meaning(toks) == LET m == Program(toks) IN [v |-> m.v, why |-> m.why, p |-> IF m.v = "ok" THEN PJ(m.q) ELSE NoProg]
=============================================================================
