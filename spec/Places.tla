------------------------------- MODULE Places -------------------------------
(* Where the first report about an ill-formed text has to point (C26).       *)
(* Where(toks) is the set of tokens (by position; Len + 1 is the end of the  *)
(* text) of which one has to be named:                                       *)
(*   - a text that breaks the grammar: the first token with which no         *)
(*     well-formed text goes on; for a function without blocks also its      *)
(*     first token;                                                          *)
(*   - a statement that breaks a rule: its first token, the token of its     *)
(*     instruction, its labels or callee, or the operand that is wrong;      *)
(*   - an initializer: the constant that is wrong;                           *)
(*   - a name that is taken: the definition;                                 *)
(*   - a label that is taken, or a parameter: the header it stands in;       *)
(* in the first item that breaks a rule.  Where nothing is promised (see     *)
(* Front) a report may point there too.                                      *)
EXTENDS Front

Upto(a, b) == a..b
(* Local definitions: the parameters of blocks first, then in the order in which blocks are visited. *)
Defs_(X) == LET E(F(_)) == Cat([k \in 1..Len(X.ord) |-> F(X.fn.bs[X.ord[k]])] ) IN
  E(LAMBDA B : [i \in 1..Len(B.pns) |-> <<B.pns[i], B.at>>]) \o E(LAMBDA B : [i \in 1..Len(B.ss) |-> <<B.ss[i].nm, B.sat[i]>>])
(* Is the name nm, defined at token `at`, taken?  By a global, a parameter, or a definition that comes before it. *)
Taken(X, nm, at) ==
  /\ nm # ""
  /\ \/ nm \in X.gnames \/ nm \in ToSet(X.fn.pns)
     \/ LET d == Defs_(X)  me == {n \in 1..Len(d) : d[n] = <<nm, at>>} IN
        \E n \in me : \E m \in 1..Len(d) : m # n /\ d[m][1] = nm /\ (m < n \/ d[m][2] <= at)

(* Constants of an initializer that starts at i: <<position after, set>>. *)
RECURSIVE InitPl(_, _, _), InitsPl(_, _, _, _)
InitPl(ts, i, t) ==
  LET c == PInit(ts, i) IN
  IF At(ts, i) = "{" /\ IsArr(t) /\ ArrLen(t) = Len(c[2][2]) THEN InitsPl(ts, i + 1, Base(t), {})
  ELSE <<c[1], IF t # Unknown /\ Elab(c[2], t)[1] # 0 THEN {i} ELSE {}>>
InitsPl(ts, i, t, acc) ==
  LET r == InitPl(ts, i, t) IN
  IF At(ts, r[1]) = "," THEN InitsPl(ts, r[1] + 1, t, acc \cup r[2]) ELSE <<r[1] + 1, acc \cup r[2]>>

(* Severity of each operand of a statement. *)
PtrSev(u) == IF u[1] # 0 THEN u[1] ELSE IF u[3] = Unknown THEN 1 ELSE IF IsPtr(u[3]) THEN 0 ELSE 2
ArrSev(u) == IF PtrSev(u) # 0 THEN PtrSev(u) ELSE IF IsArr(Base(u[3])) THEN 0 ELSE 2
ArgSev(X, env, b, cs, tys) == [i \in 1..Len(cs) |-> IF Len(cs) # Len(tys) THEN 0 ELSE ValOf(X, env, b, cs[i], tys[i])[1]]
OpSev(X, env, b, s) ==
  LET U(j) == Use(X, env, b, s.os[j][2])
      V(j, t) == ValOf(X, env, b, s.os[j], t)[1]
  IN CASE s.k = "alloc" -> <<>>
       [] s.k = "load" -> <<PtrSev(U(1))>>
       [] s.k = "getptr" -> <<PtrSev(U(1)), V(2, I32)>>
       [] s.k = "getelemptr" -> <<ArrSev(U(1)), V(2, I32)>>
       [] s.k = "binary" -> <<V(1, I32), V(2, I32)>>
       [] s.k = "store" -> LET d == U(2) IN <<IF d[3] = Unknown THEN 0 ELSE IF IsPtr(d[3]) THEN V(1, Base(d[3])) ELSE 0, PtrSev(d)>>
       [] s.k = "call" -> LET f == Find(X.fs, s.fn) IN IF f = 0 THEN [i \in 1..Len(s.os) |-> 0] ELSE ArgSev(X, env, b, s.os, X.fs[f].pts)
       [] s.k = "jump" -> ArgSev(X, env, b, s.os, TgtTys(X, s.bbs[1]))
       [] s.k = "branch" -> <<V(1, I32)>> \o ArgSev(X, env, b, SubSeq(s.os, 2, 1 + s.n), TgtTys(X, s.bbs[1]))
                            \o ArgSev(X, env, b, SubSeq(s.os, 2 + s.n, Len(s.os)), TgtTys(X, s.bbs[2]))
       [] OTHER -> IF s.os = <<>> THEN <<>> ELSE IF IsUnit(X.rt) THEN <<2>> ELSE <<V(1, X.rt)>>

(* The second label of a branch with n true arguments that starts at `at`. *)
SecondLabel(ts, at, n) == at + 5 + (IF At(ts, at + 4) = "(" THEN (IF n = 0 THEN 2 ELSE 2 * n + 1) ELSE 0)
LabelToks(ts, s, at) == CASE s.k = "jump" -> {at + 1} [] s.k = "branch" -> {at + 3, SecondLabel(ts, at, s.n)} [] OTHER -> {}
(* Tokens of a statement of block B that breaks a rule. *)
StPl(ts, X, env, b, B, i) ==
  LET s == B.ss[i]  at == B.sat[i]
      kw == IF s.nm = "" THEN at ELSE at + 2
      sev == TLCEval(OpSev(X, env, b, s))
      fb == SecondLabel(ts, at, s.n)
      (* tokens of operand j *)
      Tok(j) == CASE s.k = "store" ->
                       IF j = 2 THEN {B.sat[i + 1] - 1}
                       ELSE IF s.os[1][1] = "sym" THEN {at + 1}
                       ELSE LET d == Use(X, env, b, s.os[2][2]) IN InitPl(ts, at + 1, Base(d[3]))[2]
                  [] s.k \in {"binary", "getptr", "getelemptr"} -> {kw + 2 * j - 1}
                  [] s.k \in {"load", "ret"} -> {kw + 1}
                  [] s.k = "call" -> {kw + 1 + 2 * j}
                  [] s.k = "jump" -> {at + 1 + 2 * j}
                  [] OTHER -> IF j = 1 THEN {at + 1} ELSE IF j <= 1 + s.n THEN {at + 1 + 2 * j} ELSE {fb + 2 * (j - 1 - s.n)}
  IN {at, kw} \cup UNION {Tok(j) : j \in {j \in 1..Len(sev) : sev[j] # 0}}
     \cup LabelToks(ts, s, at)
     \cup (CASE s.k = "call" -> {kw + 1} [] s.k = "alloc" -> (kw + 1)..(B.sat[i + 1] - 1) [] OTHER -> {})

RECURSIVE StsPl(_, _, _, _, _, _, _)
StsPl(ts, X, env, b, B, i, acc) ==
  IF i > Len(B.ss) THEN <<acc, env>>
  ELSE LET s == B.ss[i]
           r == TLCEval(ElabSt(X, env, b, s))
           env2 == IF s.nm = "" THEN env ELSE Append(env, [nm |-> s.nm, o |-> In(b, i), ty |-> r[2].ty, b |-> b])
           pl == (IF r[1] # 0 THEN StPl(ts, X, env, b, B, i) ELSE {}) \cup (IF Taken(X, s.nm, B.sat[i]) THEN {B.sat[i]} ELSE {})
       IN StsPl(ts, X, env2, b, B, i + 1, TLCEval(acc \cup pl))
RECURSIVE BlocksPl(_, _, _, _, _)
BlocksPl(ts, X, env, k, acc) ==
  IF k > Len(X.ord) THEN acc
  ELSE LET B == X.fn.bs[X.ord[k]]
           env1 == env \o [i \in 1..Len(B.pts) |-> [nm |-> B.pns[i], o |-> Bp(k, i), ty |-> B.pts[i], b |-> k]]
           r == TLCEval(StsPl(ts, X, env1, k, B, 1, {}))
           hd == IF \E i \in 1..Len(B.pns) : Taken(X, B.pns[i], B.at) THEN (B.at + 1)..(B.sat[1] - 1) ELSE {}
           last == B.sat[Len(B.sat)]
           end == IF UndefTargets(X.fn, X.ord[k]) \/ 1 \in ToSet(X.sk[k])
                  THEN {last} \cup LabelToks(ts, B.ss[Len(B.ss)], last) ELSE {}
       IN BlocksPl(ts, X, r[2], k + 1, TLCEval(acc \cup r[1] \cup hd \cup end))

(* One item that ends before token e: <<severity, tokens>>. *)
FunPl(ts, X, e) ==
  LET F == X.fn
      soft == SoftFun(X) \/ HeadSoft(F)
      pl == BlocksPl(ts, X, <<>>, 1, {})
            \cup (IF Dups(F.pns) \/ \E i \in 1..Len(F.pns) : F.pns[i] \in X.gnames THEN (F.at + 2)..(F.in - 1) ELSE {})
            \cup {F.bs[i].at : i \in {i \in 1..Len(F.bs) : \E j \in 1..i - 1 : X.labels[j] = X.labels[i]}}
  IN IF soft THEN F.at..(e - 1) ELSE pl
ItemPl(ts, its, i, e, gs, sigs) ==
  LET it == its[i]
      dup == \E j \in 1..i - 1 : its[j].nm = it.nm
      name == IF dup THEN {it.at, it.at + 1} ELSE {}
      later(g) == {its[j].nm : j \in {j \in i + 1..Len(its) : (its[j].it = "global") = g}}
  IN IF it.it = "global" THEN
       LET v == Elab(it.init, it.ty)[1] IN
       <<MaxOf({v, IF dup THEN 2 ELSE 0, IF Sized(it.ty) THEN 0 ELSE 1}),
         IF Sized(it.ty) THEN name \cup InitPl(ts, it.in, it.ty)[2] ELSE it.at..(e - 1)>>
     ELSE IF it.it = "decl" THEN <<MaxOf({IF dup THEN 2 ELSE 0, IF HeadSoft(it) THEN 1 ELSE 0}), IF HeadSoft(it) THEN it.at..(e - 1) ELSE name>>
     ELSE LET v == ElabFun(gs, later(TRUE), sigs, later(FALSE), it)[1] IN
          <<MaxOf({v, IF dup THEN 2 ELSE 0, IF HeadSoft(it) THEN 1 ELSE 0}),
            name \cup (IF v = 0 /\ ~HeadSoft(it) THEN {} ELSE FunPl(ts, TLCEval(FunX(gs, later(TRUE), sigs, later(FALSE), it)), e))>>
RECURSIVE ItemsPl(_, _, _, _, _, _, _)
ItemsPl(ts, its, i, e, gs, sigs, acc) ==
  IF i > Len(its) THEN acc
  ELSE LET it == its[i]
           g2 == IF it.it = "global" THEN Append(gs, [nm |-> it.nm, ty |-> it.ty]) ELSE gs
           s2 == IF it.it = "global" THEN sigs ELSE Append(sigs, [nm |-> it.nm, pts |-> it.pts, rt |-> it.rt])
           r == TLCEval(ItemPl(ts, its, i, IF i < Len(its) THEN its[i + 1].at ELSE e, gs, s2))
       IN IF r[1] = 2 THEN acc \cup r[2] ELSE ItemsPl(ts, its, i + 1, e, g2, s2, TLCEval(acc \cup r[2]))

(* The first token that can not be there; Len + 1 if there is none. *)
Stuck(t, n) == IF t[1] < 1 THEN -t[1] ELSE n + 1
NoBlocks(ts, e, i) == /\ At(ts, i) = "fun" /\ At(ts, e) = "}" /\ At(ts, e - 1) = "{"
                      /\ (At(ts, e - 2) \in {")", "i32", "]"})
Where(toks) ==
  LET ts == Classed(toks)
      t == TLCEval(PItems(ts, 1, <<>>))
      e == Stuck(t, Len(ts))
      sem == ItemsPl(ts, t[2], 1, IF t[1] < 1 THEN t[3] ELSE e, <<>>, <<>>, {})
  IN IF t[1] >= 1 THEN sem
     ELSE sem \cup {e} \cup (IF NoBlocks(ts, e, t[3]) THEN {t[3]} ELSE {})
(* Blocks that no path leads to: each is warned about, by its first token. *)
DeadToks(toks) == LET ts == Classed(toks)  t == PItems(ts, 1, <<>>) IN
  UNION {LET it == t[2][n] IN IF it.it # "fun" THEN {} ELSE {it.bs[b].at : b \in (1..Len(it.bs)) \ ToSet(Bfs(RawSkel(it)))} : n \in 1..Len(t[2])}

(* For texts that are cut off by characters that are no token: may the first report be about these? *)
CutOff(toks) == LET ts == Classed(toks)  t == PItems(ts, 1, <<>>) IN Stuck(t, Len(ts)) >= Len(ts)
=============================================================================
