------------------------------- MODULE IRSim -------------------------------
(* Random walks of KoopaIR, printed as JSON behaviours for replay on the    *)
(* implementation.  Each step carries the call, whether it must be refused, *)
(* and what it changes in the state.                                        *)
EXTENDS IRJson

CONSTANTS Steps, Profile

VARIABLES S, hist, tick
vars == <<S, hist, tick>>

Pick(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
Coin(n) == RandomElement(1..n) = 1

U == {I32, Ptr(I32), Arr(I32, 2), Ptr(Arr(I32, 2)), Arr(Arr(I32, 2), 3),
      Ptr(Arr(Arr(I32, 2), 3)), Ptr(Ptr(I32)), Arr(Ptr(I32), 2), Ptr(Fun(<<I32>>, Unit))}
(* Parameter and allocation types lean towards i32. *)
UPick(z) == IF Coin(2) THEN {I32} ELSE Pick(U)
BinOps == {"ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod",
           "and", "or", "xor", "shl", "shr", "sar"}
Names == {"%a", "%b", "@c", "%1", "%long_name", "@g"}
BadNames == {"x", "%", "@", ""}

Emit(e, rej, T) ==
  /\ S' = T
  /\ hist' = Append(hist, [e |-> e, rej |-> rej, d |-> Delta(S, T)])
  /\ tick' = tick + 1
Refuse(e) == Emit(e, TRUE, S)

(* ------------------------------ choosing -------------------------------- *)
OfTy(f, t)  == {i \in Visible(S, f) : ValTy(S, i) = t}
NotVoid(f)  == {i \in Visible(S, f) : ~IsUnit(ValTy(S, i))}
Ptrs(f)     == {i \in Visible(S, f) : IsPtr(ValTy(S, i))}
ArrPtrs(f)  == {i \in Ptrs(f) : IsArr(Base(ValTy(S, i)))}
Consts(f)   == {i \in Visible(S, f) : S.v[i].k \in ConstK}
AnyV        == 1..Len(S.v)
Defs        == {f \in LiveF(S) : ~S.f[f].decl}

CanFill(f, tys) == \A i \in 1..Len(tys) : OfTy(f, tys[i]) # {}
Fill(f, tys) == IF CanFill(f, tys)
                THEN {TLCEval([i \in 1..Len(tys) |-> RandomElement(OfTy(f, tys[i]))])}
                ELSE {}

(* Well-typed candidates of kind k, as a set with at most one element. *)
GoodCands(f, k) ==
  CASE k = "int"   -> {Cand(k, <<>>, <<>>, ToString(x), 0, 0, I32) : x \in Pick({0, 1, 2, 7, -1, 2147483647})}
    [] k \in {"zero", "undef", "alloc"} -> {Cand(k, <<>>, <<>>, "", 0, 0, t) : t \in UPick(0)}
    [] k = "agg"   -> UNION {{Cand(k, TLCEval([i \in 1..m |-> RandomElement({c \in Consts(f) : ValTy(S, c) = ValTy(S, v)})]),
                                    <<>>, "", 0, 0, I32) : m \in Pick(1..3)}
                              : v \in Pick({c \in Consts(f) : TyStr(ValTy(S, c)) \in {"i32", "*i32", "[i32, 2]", "[i32, 1]"}})}
    [] k = "galloc"-> {Cand(k, <<i>>, <<>>, "", 0, 0, I32) : i \in Pick(Consts(0))}
    [] k = "load"  -> {Cand(k, <<i>>, <<>>, "", 0, 0, I32) : i \in Pick(Ptrs(f))}
    [] k = "store" -> UNION {{Cand(k, <<i, d>>, <<>>, "", 0, 0, I32) : i \in Pick(OfTy(f, Base(ValTy(S, d))))}
                             : d \in Pick(Ptrs(f))}
    [] k = "getptr"-> UNION {{Cand(k, <<p, i>>, <<>>, "", 0, 0, I32) : i \in Pick(OfTy(f, I32))} : p \in Pick(Ptrs(f))}
    [] k = "getelemptr" -> UNION {{Cand(k, <<p, i>>, <<>>, "", 0, 0, I32) : i \in Pick(OfTy(f, I32))} : p \in Pick(ArrPtrs(f))}
    [] k = "binary"-> UNION {UNION {{Cand(k, <<l, r>>, <<>>, o, 0, 0, I32) : l \in Pick(OfTy(f, I32))}
                                    : r \in Pick(OfTy(f, I32))} : o \in Pick(BinOps)}
    [] k = "branch"-> UNION {UNION {UNION {UNION {
                        {Cand(k, <<c>> \o ta \o fa, <<tb, fb>>, "", 0, Len(ta), I32) : c \in Pick(OfTy(f, I32))}
                          : ta \in Fill(f, BParTys(S, tb))}
                          : fa \in Fill(f, BParTys(S, fb))}
                          : tb \in Pick(LiveB(S, f))}
                          : fb \in Pick(LiveB(S, f))}
    [] k = "jump"  -> UNION {{Cand(k, a, <<b>>, "", 0, 0, I32) : a \in Fill(f, BParTys(S, b))} : b \in Pick(LiveB(S, f))}
    [] k = "call"  -> UNION {{Cand(k, a, <<>>, "", g, 0, I32) : a \in Fill(f, S.f[g].pts)} : g \in Pick(LiveF(S))}
    [] k = "ret"   -> IF Coin(3) THEN {Cand(k, <<>>, <<>>, "", 0, 0, I32)}
                      ELSE {Cand(k, <<i>>, <<>>, "", 0, 0, I32) : i \in Pick(NotVoid(f))}
    [] OTHER -> {}

Arity == [agg |-> 2, galloc |-> 1, load |-> 1, store |-> 2, getptr |-> 2, getelemptr |-> 2,
          binary |-> 2, ret |-> 1]
(* Operands from anywhere: other functions, removed values, any type. *)
Wild(m) == IF AnyV = {} /\ m > 0 THEN {} ELSE {TLCEval([i \in 1..m |-> RandomElement(AnyV)])}
WildCands(f, k) ==
  CASE k = "int"   -> {}
    [] k \in {"zero", "undef", "alloc"} -> {Cand(k, <<>>, <<>>, "", 0, 0, t) : t \in Pick({I32, Unit})}
    [] k = "agg" -> UNION {{Cand(k, o, <<>>, "", 0, 0, I32) : o \in Wild(m)} : m \in Pick(0..3)}
    [] k = "branch" -> UNION {UNION {UNION {{Cand(k, o, <<tb, fb>>, "", 0, n, I32) : o \in Wild(1 + n + m)}
                           : n \in Pick(0..2), m \in Pick(0..2)} : tb \in Pick(1..Len(S.b))} : fb \in Pick(1..Len(S.b))}
    [] k = "jump" -> UNION {{Cand(k, o, <<b>>, "", 0, 0, I32) : o \in UNION {Wild(m) : m \in Pick(0..2)}} : b \in Pick(1..Len(S.b))}
    [] k = "call" -> UNION {{Cand(k, o, <<>>, "", g, 0, I32) : o \in UNION {Wild(m) : m \in Pick(0..3)}} : g \in Pick(1..Len(S.f))}
    [] OTHER -> {Cand(k, o, <<>>, IF k = "binary" THEN "add" ELSE "", 0, 0, I32) : o \in Wild(Arity[k])}
(* One operand of a well-typed candidate replaced by anything, or one       *)
(* argument dropped or added.                                               *)
NearCands(f, k) ==
  UNION {
    IF Len(c.ops) = 0 THEN {}
    ELSE UNION {{[c EXCEPT !.ops[i] = w] : w \in Pick(IF Coin(4) THEN AnyV ELSE Visible(S, f))} : i \in Pick(1..Len(c.ops))}
         \cup (IF k \in {"agg", "jump", "call"} /\ Coin(2) THEN {[c EXCEPT !.ops = Tail(@)]} ELSE {})
         \cup (IF k \in {"jump", "call"} /\ Coin(2) THEN {[c EXCEPT !.ops = Append(@, c.ops[1])]} ELSE {})
    : c \in GoodCands(f, k)}

KOf == IF Profile = "eq" THEN {"int", "zero", "undef", "agg", "alloc", "load", "getelemptr", "binary", "branch", "jump", "call", "ret", "store", "getptr"}
       ELSE ConstK \cup InstK
Places == IF Coin(4) THEN {0} ELSE Pick(Defs \cup {0})
KFor(f) == IF f = 0 THEN {"int", "zero", "undef", "agg", "galloc"} ELSE KOf

(* ------------------------------- actions -------------------------------- *)
New ==
  \E f \in Places : \E k \in Pick(KFor(f)) :
    \E c \in (IF Coin(3) THEN Pick(NearCands(f, k)) ELSE IF Coin(6) THEN Pick(WildCands(f, k)) ELSE GoodCands(f, k)) :
      IF Typed(S, f, c) THEN Emit(EvC("new", f, c), FALSE, DoNew(S, f, c))
      ELSE Refuse(EvC("new", f, c))

(* The same again, or the same with one thing different. *)
Twin ==
  \E f \in Pick(Defs) : \E v \in Pick({i \in Locals(S, f) : S.v[i].k \notin ArgK}) :
    LET c0 == AsCand(S, v) IN
    \E c \in Pick({c0}
        \cup (IF c0.k = "binary" THEN {[c0 EXCEPT !.x = o] : o \in BinOps} \cup {[c0 EXCEPT !.ops = <<c0.ops[2], c0.ops[1]>>]} ELSE {})
        \cup (IF c0.k = "int" THEN {[c0 EXCEPT !.x = "3"]} ELSE {})
        \cup (IF c0.k = "branch" /\ Len(c0.ops) = 1 THEN {[c0 EXCEPT !.bbs = <<c0.bbs[2], c0.bbs[1]>>]} ELSE {})
        \cup (IF c0.k = "ret" THEN {[c0 EXCEPT !.ops = <<>>]} ELSE {})
        \cup (IF c0.k = "call" THEN {[c0 EXCEPT !.fn = g] : g \in {h \in LiveF(S) : FnTy(S, h) = FnTy(S, c0.fn)}} ELSE {})
        \cup {[c0 EXCEPT !.ops[i] = w] : i \in Pick(1..Len(c0.ops)), w \in Visible(S, f)}) :
      /\ TRUE = Typed(S, f, c)
      /\ Emit(EvC("new", f, c), FALSE, DoNew(S, f, c))

Raw ==
  \E f \in Pick(Defs) : \E w \in Pick({i \in Visible(S, f) : S.v[i].k \notin ArgK \cup {"galloc"}}) :
    Emit([op |-> "raw", f |-> f, src |-> w], FALSE, DoRaw(S, f, w))

(* What may be rewritten in place: an instruction or constant of f.  If it  *)
(* has users its type stays; a placed instruction stays an instruction.     *)
Rewritable(f) == {i \in Locals(S, f) : S.v[i].k \in ConstK \cup InstK}
ReplOK(f, v, k, ty) ==
  /\ (S.v[v].uses # {} => ty = S.v[v].ty)
  /\ (v \in Placed(S, f) => k \in InstK)
  /\ ((\E u \in S.v[v].uses : S.v[u].k = "agg") => k \in ConstK)

Replace ==
  \E f \in Pick(Defs) : \E v \in Pick(Rewritable(f)) :
    \E k \in Pick(KOf) : \E c \in (IF Coin(5) THEN Pick(NearCands(f, k)) ELSE GoodCands(f, k)) :
      /\ v \notin Reach(S, ToSet(c.ops))
      /\ LET e == EvC("replace", f, c) @@ [v |-> v] IN
         IF Typed(S, f, c)
         THEN /\ TRUE = ReplOK(f, v, k, ResTy(S, c))
              /\ Emit(e, FALSE, DoReplace(S, f, v, c))
         ELSE Refuse(e)

(* The most common rewrite: an instruction becomes another of its type. *)
ReplaceSame ==
  \E f \in Pick(Defs) : \E v \in Pick(Rewritable(f)) :
    \E c \in UNION {GoodCands(f, k) : k \in (IF IsI32(S.v[v].ty) THEN {"binary", "int", "load"}
                                            ELSE IF IsUnit(S.v[v].ty) THEN {"store", "jump", "branch", "ret"}
                                            ELSE {"alloc", "getptr", "getelemptr", "undef"})} :
      /\ TRUE = Typed(S, f, c) /\ v \notin Reach(S, ToSet(c.ops))
      /\ ResTy(S, c) = S.v[v].ty /\ TRUE = ReplOK(f, v, c.k, ResTy(S, c))
      /\ Emit(EvC("replace", f, c) @@ [v |-> v], FALSE, DoReplace(S, f, v, c))

ReplaceRaw ==
  \E f \in Pick(Defs) : \E v \in Pick(Rewritable(f)) :
    \E w \in Pick({i \in Visible(S, f) : S.v[i].k \notin ArgK \cup {"galloc"} /\ ValTy(S, i) = ValTy(S, v)}) :
      /\ w # v /\ v \notin Reach(S, {w}) /\ TRUE = ReplOK(f, v, S.v[w].k, S.v[w].ty)
      /\ Emit([op |-> "replraw", f |-> f, v |-> v, src |-> w], FALSE, DoReplaceRaw(S, f, v, w))

Update ==
  \E f \in Pick(Defs) : \E v \in Pick({i \in Rewritable(f) : Len(S.v[i].ops) + Len(S.v[i].bbs) > 0 \/ S.v[i].k \in {"int", "call", "ret"}}) :
    LET d == S.v[v]
        E(w, i, t) == [op |-> "update", f |-> f, v |-> v, what |-> w, i |-> i, to |-> t]
    IN \/ \E i \in Pick(1..Len(d.ops)) :
            \E w \in Pick({u \in OfTy(f, ValTy(S, d.ops[i])) : d.k = "agg" => S.v[u].k \in ConstK}) :
              /\ v \notin Reach(S, {w})
              /\ Emit(E("op", i, ToString(w)), FALSE, DoUpdate(S, v, [d EXCEPT !.ops[i] = w]))
       \/ \E i \in Pick(1..Len(d.bbs)) :
            \E b \in Pick({c \in LiveB(S, f) : BParTys(S, c) = BParTys(S, d.bbs[i])}) :
              LET nb == [d.bbs EXCEPT ![i] = b] IN
              /\ d.k = "branch" /\ nb[1] = nb[2] => Len(d.ops) = 1
              /\ Emit(E("bb", i, ToString(b)), FALSE, DoUpdate(S, v, [d EXCEPT !.bbs = nb]))
       \/ /\ d.k = "binary"
          /\ \E o \in Pick(BinOps) : Emit(E("x", 0, o), FALSE, DoUpdate(S, v, [d EXCEPT !.x = o]))
       \/ /\ d.k = "int"
          /\ \E o \in Pick({"5", "-9"}) : Emit(E("x", 0, o), FALSE, DoUpdate(S, v, [d EXCEPT !.x = o]))
       \/ /\ d.k = "call"
          /\ \E g \in Pick({h \in LiveF(S) : FnTy(S, h) = FnTy(S, d.fn)}) :
               Emit(E("fn", 0, ToString(g)), FALSE, DoUpdate(S, v, [d EXCEPT !.fn = g]))
       \/ /\ d.k = "ret" /\ Len(d.ops) = 1
          /\ Emit(E("none", 0, ""), FALSE, DoUpdate(S, v, [d EXCEPT !.ops = <<>>]))
       \/ /\ d.k = "ret" /\ Len(d.ops) = 0
          /\ \E w \in Pick({u \in NotVoid(f) : v \notin Reach(S, {u})}) :
               Emit(E("some", 0, ToString(w)), FALSE, DoUpdate(S, v, [d EXCEPT !.ops = <<w>>]))

(* The setters reach the argument lists themselves: lists may get shorter,  *)
(* and an argument may change sides.  What results is no longer well typed, *)
(* but users and equality must still be exact.                              *)
Loose ==
  \E f \in Pick(Defs) : \E v \in Pick({i \in Rewritable(f) : S.v[i].k \in {"agg", "jump", "call", "branch"}}) :
    LET d == S.v[v]
        m == Len(d.ops)
        E(w) == [op |-> "update", f |-> f, v |-> v, what |-> w, i |-> 0, to |-> ""]
    IN \/ /\ m > (IF d.k = "branch" THEN 1 ELSE 0)
          /\ Emit(E("pop"), FALSE, DoUpdate(S, v, [d EXCEPT !.ops = SubSeq(@, 1, m - 1),
                                                           !.n = IF d.k = "branch" /\ @ = m - 1 THEN @ - 1 ELSE @]))
       \/ /\ d.k = "branch" /\ d.n > 0
          /\ Emit(E("shift"), FALSE, DoUpdate(S, v, [d EXCEPT !.n = @ - 1]))
       \/ /\ d.k = "branch" /\ d.n < m - 1
          /\ Emit(E("unshift"), FALSE, DoUpdate(S, v, [d EXCEPT !.n = @ + 1]))

SetName ==
  \/ \E v \in Pick({i \in LiveV(S) : S.v[i].own = 0 \/ S.v[i].own \in Defs}) : \E nm \in Pick(Names \cup {"-"}) :
       Emit([op |-> "name", v |-> v, nm |-> nm], FALSE,
            [S EXCEPT !.v[v].nm = IF nm = "-" THEN "" ELSE nm])
  \/ \E v \in Pick(LiveV(S)) : \E nm \in Pick(BadNames) :
       Refuse([op |-> "name", v |-> v, nm |-> nm])

RemoveVal ==
  \E v \in Pick({i \in LiveV(S) : S.v[i].k \notin ArgK /\ (S.v[i].own # 0 => i \notin Placed(S, S.v[i].own))}) :
    LET e == [op |-> "rmval", v |-> v] IN
    IF OkRemoveVal(S, v) THEN Emit(e, FALSE, DoRemoveVal(S, v)) ELSE Refuse(e)
(* Prefer something removable. *)
RemoveFree ==
  \E v \in Pick({i \in LiveV(S) : S.v[i].k \notin ArgK /\ S.v[i].uses = {} /\ (S.v[i].own # 0 => i \notin Placed(S, S.v[i].own))}) :
    Emit([op |-> "rmval", v |-> v], FALSE, DoRemoveVal(S, v))
RemoveDead ==
  \E v \in Pick(AnyV \ LiveV(S)) : S.f # <<>> /\ S.v[v].own \in LiveF(S) \cup {0} /\ Refuse([op |-> "rmval", v |-> v])

NewBB ==
  \E f \in Pick(Defs) : \E nm \in Pick({""} \cup Names) : \E m \in Pick({0, 0, 1, 2, 3}) :
    \E pts \in {TLCEval([i \in 1..m |-> CHOOSE t \in UPick(0) : TRUE])} :
      \E pns \in {TLCEval([i \in 1..m |-> RandomElement({"", "%p", "%q"})])} :
        Emit([op |-> "newbb", f |-> f, nm |-> nm, pts |-> [i \in 1..m |-> TyStr(pts[i])], pns |-> pns], FALSE,
             DoNewBB(S, f, nm, pts, pns))
NewBBBad ==
  \E f \in Pick(Defs) :
    \/ \E nm \in Pick(BadNames) :
         Refuse([op |-> "newbb", f |-> f, nm |-> IF nm = "" THEN "@" ELSE nm, pts |-> <<>>, pns |-> <<>>])
    \/ \E m \in Pick(1..2) :
         Refuse([op |-> "newbb", f |-> f, nm |-> "", pts |-> [i \in 1..m |-> IF i = m THEN "unit" ELSE "i32"],
                 pns |-> [i \in 1..m |-> IF Coin(2) THEN "%p" ELSE ""]])
RemoveBB ==
  \E b \in Pick({i \in 1..Len(S.b) : S.b[i].live /\ i \notin LayBBs(S, S.b[i].own)}) :
    LET e == [op |-> "rmbb", f |-> S.b[b].own, b |-> b] IN
    IF OkRemoveBB(S, b) THEN Emit(e, FALSE, DoRemoveBB(S, b)) ELSE Refuse(e)
NameBB ==
  \E b \in Pick({i \in 1..Len(S.b) : S.b[i].live}) : \E nm \in Pick(Names) :
    Emit([op |-> "namebb", f |-> S.b[b].own, b |-> b, nm |-> nm], FALSE, [S EXCEPT !.b[b].nm = nm])

NewFunc ==
  \E nm \in Pick({"@f", "@g", "%h", "@main"}) : \E m \in Pick({0, 1, 1, 2, 3}) :
   \E pts \in {TLCEval([i \in 1..m |-> CHOOSE t \in UPick(0) : TRUE])} :
    \E pns \in {TLCEval([i \in 1..m |-> RandomElement({"", "@x", "%y"})])} :
     \E rt \in Pick({Unit, I32, Ptr(I32)}) : \E decl \in Pick({TRUE, FALSE, FALSE, FALSE}) :
      Emit([op |-> "newfunc", nm |-> nm, pts |-> [i \in 1..m |-> TyStr(pts[i])], pns |-> pns,
            rt |-> TyStr(rt), decl |-> decl], FALSE,
           DoNewFunc(S, nm, pts, pns, rt, decl))
NewFuncBad ==
  \E decl \in Pick({TRUE, FALSE}) :
    \/ \E nm \in Pick(BadNames) :
         Refuse([op |-> "newfunc", nm |-> nm, pts |-> <<>>, pns |-> <<>>, rt |-> "unit", decl |-> decl])
    \/ Refuse([op |-> "newfunc", nm |-> "@f", pts |-> <<"i32", "unit">>, pns |-> <<"", "">>, rt |-> "unit", decl |-> decl])
Called(f) == TRUE = \E i \in LiveV(S) : S.v[i].fn = f /\ S.v[i].own # f
RemoveFunc ==
  \E f \in Pick(LiveF(S)) : ~Called(f) /\
    Emit([op |-> "rmfunc", f |-> f], FALSE, DoRemoveFunc(S, f))
(* Removing what is not there changes nothing and answers "nothing". *)
RemoveFuncDead ==
  \E f \in Pick(1..Len(S.f) \ LiveF(S)) : Emit([op |-> "rmfunc", f |-> f], FALSE, S)

(* ------------------------------- layout --------------------------------- *)
Placing == {f \in Defs : LiveB(S, f) # {}}
BBIns ==
  \E f \in Pick(Placing) : \E b \in Pick(LiveB(S, f)) :
    LET l == S.f[f].lay
        E(how, ref, dup) == [op |-> "bbins", f |-> f, b |-> b, how |-> how, ref |-> ref, dup |-> dup]
        Go(how, ref, pos) == IF b \in LayBBs(S, f) THEN Emit(E(how, ref, TRUE), FALSE, S)
                             ELSE Emit(E(how, ref, FALSE), FALSE, DoBBIns(S, f, pos, b))
    IN \/ Go("back", 0, Len(l) + 1)
       \/ Go("front", 0, 1)
       \/ \E p \in Pick(1..Len(l)) : Go("before", l[p].b, p)
       \/ \E p \in Pick(1..Len(l)) : Go("after", l[p].b, p + 1)
BBNewPlace ==
  \E f \in Pick(Placing) : \E b \in Pick(LiveB(S, f) \ LayBBs(S, f)) :
    Emit([op |-> "bbins", f |-> f, b |-> b, how |-> "back", ref |-> 0, dup |-> FALSE], FALSE,
         DoBBIns(S, f, Len(S.f[f].lay) + 1, b))
BBRm ==
  \E f \in Pick(Placing) : \E b \in Pick(LiveB(S, f)) : \E how \in Pick({"key", "cursor"}) :
    IF b \in LayBBs(S, f) THEN Emit([op |-> "bbrm", f |-> f, b |-> b, how |-> how, absent |-> FALSE], FALSE, DoBBRemove(S, f, b))
    ELSE Emit([op |-> "bbrm", f |-> f, b |-> b, how |-> "key", absent |-> TRUE], FALSE, S)
BBPop ==
  \E f \in Pick({g \in Placing : S.f[g].lay # <<>>}) : \E how \in Pick({"popf", "popb"}) :
    LET l == S.f[f].lay
        b == l[IF how = "popf" THEN 1 ELSE Len(l)].b
    IN Emit([op |-> "bbrm", f |-> f, b |-> b, how |-> how, absent |-> FALSE], FALSE, DoBBRemove(S, f, b))
BBClear == \E f \in Pick(Placing) : Emit([op |-> "bbclear", f |-> f], FALSE, DoBBClear(S, f))

Insts(f) == {i \in Locals(S, f) : S.v[i].k \in InstK}
InstIns ==
  \E f \in Pick({g \in Placing : S.f[g].lay # <<>>}) : \E p \in Pick(1..Len(S.f[f].lay)) :
    LET b == S.f[f].lay[p].b
        s == S.f[f].lay[p].is
        here == ToSet(s)
    IN \E v \in Pick((Insts(f) \ Placed(S, f)) \cup (IF Coin(6) THEN here ELSE {})) :
       LET E(how, ref, dup) == [op |-> "ins", f |-> f, b |-> b, v |-> v, how |-> how, ref |-> ref, dup |-> dup]
           Go(how, ref, pos) == IF v \in here THEN Emit(E(how, ref, TRUE), FALSE, S)
                                ELSE Emit(E(how, ref, FALSE), FALSE, DoInstIns(S, f, b, pos, v))
       IN \/ Go("back", 0, Len(s) + 1)
          \/ Go("front", 0, 1)
          \/ \E q \in Pick(1..Len(s)) : Go("before", s[q], q)
          \/ \E q \in Pick(1..Len(s)) : Go("after", s[q], q + 1)
InstRm ==
  \E f \in Pick({g \in Placing : S.f[g].lay # <<>>}) : \E p \in Pick(1..Len(S.f[f].lay)) : \E how \in Pick({"key", "cursor"}) :
    LET b == S.f[f].lay[p].b
        s == S.f[f].lay[p].is
    IN \/ \E v \in Pick(ToSet(s)) :
            Emit([op |-> "irm", f |-> f, b |-> b, v |-> v, how |-> how, absent |-> FALSE], FALSE, DoInstRemove(S, f, b, v))
       \/ \E v \in Pick(Insts(f) \ ToSet(s)) :
            Emit([op |-> "irm", f |-> f, b |-> b, v |-> v, how |-> "key", absent |-> TRUE], FALSE, S)
InstPop ==
  \E f \in Pick({g \in Placing : S.f[g].lay # <<>>}) : \E how \in Pick({"popf", "popb"}) :
   \E p \in Pick({q \in 1..Len(S.f[f].lay) : S.f[f].lay[q].is # <<>>}) :
    LET b == S.f[f].lay[p].b
        s == S.f[f].lay[p].is
        v == s[IF how = "popf" THEN 1 ELSE Len(s)]
    IN Emit([op |-> "irm", f |-> f, b |-> b, v |-> v, how |-> how, absent |-> FALSE], FALSE, DoInstRemove(S, f, b, v))
InstMove ==
  \E f \in Pick({g \in Placing : Len(S.f[g].lay) > 1}) :
    \E p \in Pick({q \in 1..Len(S.f[f].lay) : S.f[f].lay[q].is # <<>>}) :
     \E q \in Pick(1..Len(S.f[f].lay) \ {p}) : \E how \in Pick({"insert-first", "remove-first"}) :
      LET b1 == S.f[f].lay[p].b
          b2 == S.f[f].lay[q].b
      IN \E v \in Pick(ToSet(S.f[f].lay[p].is)) :
           Emit([op |-> "imove", f |-> f, b |-> b1, to |-> b2, v |-> v, how |-> how], FALSE,
                DoInstIns(DoInstRemove(S, f, b1, v), f, b2, Len(S.f[f].lay[q].is) + 1, v))
InstClear ==
  \E f \in Pick({g \in Placing : S.f[g].lay # <<>>}) : \E p \in Pick(1..Len(S.f[f].lay)) :
    Emit([op |-> "iclear", f |-> f, b |-> S.f[f].lay[p].b], FALSE, DoInstClear(S, f, S.f[f].lay[p].b))

(* ------------------------------ equality -------------------------------- *)
LastN(X, n) == LET s == SetToSortSeq(X, <) IN IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Eq ==
  \E f \in Pick(Defs) : \E s \in {LastN(Visible(S, f), 14)} :
    Len(s) > 3 /\
    Emit([op |-> "eq", f |-> f, vs |-> s,
          m |-> [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> VEq(S, s[i], s[j])]]], FALSE, S)

(* ------------------------------- weights -------------------------------- *)
Rep(n, k) == [i \in 1..n |-> k]
Menu ==
  CASE Profile = "uses" ->
         Rep(14, "new") \o Rep(4, "twin") \o Rep(2, "raw") \o Rep(4, "replace") \o Rep(4, "replsame") \o Rep(3, "replraw") \o Rep(8, "update") \o Rep(2, "loose")
         \o Rep(1, "name") \o Rep(2, "rmval") \o Rep(4, "rmfree") \o Rep(2, "newbb") \o Rep(1, "rmbb")
         \o Rep(2, "newfunc") \o Rep(1, "rmfunc") \o Rep(1, "bbnew") \o Rep(1, "ins")
    [] Profile = "layout" ->
         Rep(8, "new") \o Rep(3, "newbb") \o Rep(4, "bbnew") \o Rep(3, "bbins") \o Rep(1, "bbrm") \o Rep(1, "bbclear")
         \o Rep(14, "ins") \o Rep(3, "irm") \o Rep(4, "imove") \o Rep(1, "iclear") \o Rep(1, "newfunc") \o Rep(1, "rmfree")
    [] Profile = "pops" ->
         Rep(8, "new") \o Rep(3, "newbb") \o Rep(6, "bbnew") \o Rep(1, "bbrm") \o Rep(14, "ins") \o Rep(1, "irm") \o Rep(1, "bbpop") \o Rep(1, "ipop")
    [] Profile = "typing" ->
         Rep(30, "new") \o Rep(4, "twin") \o Rep(6, "replace") \o Rep(3, "replsame") \o Rep(1, "raw") \o Rep(3, "newbb") \o Rep(1, "newbbbad")
         \o Rep(3, "newfunc") \o Rep(1, "newfuncbad") \o Rep(1, "name") \o Rep(1, "rmfree")
    [] Profile = "remove" ->
         Rep(12, "new") \o Rep(2, "update") \o Rep(5, "rmval") \o Rep(6, "rmfree") \o Rep(1, "rmdead") \o Rep(3, "newbb") \o Rep(4, "rmbb")
         \o Rep(3, "newfunc") \o Rep(2, "rmfunc") \o Rep(1, "rmfuncdead") \o Rep(2, "name") \o Rep(1, "namebb")
         \o Rep(2, "bbnew") \o Rep(2, "ins") \o Rep(1, "bbrm") \o Rep(1, "irm")
    [] OTHER (* eq *) ->
         Rep(12, "new") \o Rep(14, "twin") \o Rep(4, "raw") \o Rep(2, "update") \o Rep(5, "loose") \o Rep(2, "replsame") \o Rep(3, "newbb")
         \o Rep(2, "newfunc") \o Rep(1, "name") \o Rep(5, "eq")

Act(a) ==
  CASE a = "new" -> New [] a = "twin" -> Twin [] a = "raw" -> Raw
    [] a = "replace" -> Replace [] a = "replsame" -> ReplaceSame [] a = "replraw" -> ReplaceRaw
    [] a = "update" -> Update [] a = "loose" -> Loose [] a = "name" -> SetName
    [] a = "rmval" -> RemoveVal [] a = "rmfree" -> RemoveFree [] a = "rmdead" -> RemoveDead
    [] a = "newbb" -> NewBB [] a = "newbbbad" -> NewBBBad [] a = "rmbb" -> RemoveBB [] a = "namebb" -> NameBB
    [] a = "newfunc" -> NewFunc [] a = "newfuncbad" -> NewFuncBad
    [] a = "rmfunc" -> RemoveFunc [] a = "rmfuncdead" -> RemoveFuncDead
    [] a = "bbins" -> BBIns [] a = "bbnew" -> BBNewPlace [] a = "bbrm" -> BBRm [] a = "bbclear" -> BBClear
    [] a = "ins" -> InstIns [] a = "irm" -> InstRm [] a = "imove" -> InstMove [] a = "iclear" -> InstClear
    [] a = "bbpop" -> BBPop [] a = "ipop" -> InstPop
    [] a = "eq" -> Eq

Init == S = Empty /\ hist = <<>> /\ tick = 0

Start ==
  /\ tick < 3
  /\ \/ tick = 0 /\ NewFunc
     \/ tick # 0 /\ \E f \in Pick(Defs \cup {0}) : IF f = 0 THEN NewFunc ELSE NewBB
Walk ==
  /\ tick >= 3 /\ Len(hist) < Steps
  /\ \E i \in {RandomElement(1..Len(Menu))} : Act(Menu[i])
Skip ==
  /\ Len(hist) < Steps /\ tick' = tick + 1 /\ UNCHANGED <<S, hist>>
Done ==
  /\ Len(hist) = Steps
  /\ PrintT("@@" \o ToJson(hist))
  /\ hist' = Append(hist, [e |-> [op |-> "end"], rej |-> FALSE, d |-> Delta(S, S)])
  /\ UNCHANGED <<S, tick>>
Next == Start \/ Walk \/ Skip \/ Done
Spec == Init /\ [][Next]_vars

Inv == UsesExact(S) /\ ParentExact(S) /\ LayoutDistinct(S) /\ (Profile \in {"eq", "uses"} \/ AllTyped(S)) /\ NoDangling(S) /\ GlobalsClosed(S)
============================================================================
