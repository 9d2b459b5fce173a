------------------------------- MODULE RawSim -------------------------------
(* The raw (C) form of programs, for libkoopa.  For a program P:             *)
(*   Users(P)   who uses each entity (the user lists of the raw form);       *)
(*   Faults(P)  every single fault that can be put into the raw form of P:   *)
(*              where, what, and the error codes that must report it.        *)
(* A raw form is a graph of objects; a fault site names one field of one     *)
(* object by a path from the program:                                        *)
(*   p values | p funcs                        the slices of the program     *)
(*   f F ty|name|params|bbs|pts                function F, its type's params *)
(*   b F B name|params|insts|pty I             block B of F                  *)
(*   i F B I ty|name|op M|bb K|fn|args|targs|fargs   instruction             *)
(*   ... op M ty|elems                         a constant operand            *)
(*   g I name|init ...                         global                        *)
EXTENDS ProgSim

CONSTANT NFaults  \* how many faults (and pairs of faults) to take per program

(* -------------------------------- users ---------------------------------- *)
Insts(P0, f) == Cat([b \in 1..Len(P0.fs[f].bs) |-> [i \in 1..Len(P0.fs[f].bs[b].is) |-> <<b, i>>]])
UseL(f, bi) == N(f) \o ":i" \o N(bi[1]) \o "." \o N(bi[2])
InstOf(P0, f, bi) == P0.fs[f].bs[bi[1]].is[bi[2]]
Uses(P0, f, o) == LET S == SelectSeq(Insts(P0, f), LAMBDA bi : o \in ToSet(InstOf(P0, f, bi).ops))
                  IN [i \in 1..Len(S) |-> UseL(f, S[i])]
UsesB(P0, f, b) == LET S == SelectSeq(Insts(P0, f), LAMBDA bi : b \in ToSet(InstOf(P0, f, bi).bbs))
                   IN [i \in 1..Len(S) |-> UseL(f, S[i])]
Users(P0) ==
  [i \in 1..Len(P0.gs) |-> <<"g" \o N(i), Cat([f \in 1..Len(P0.fs) |-> Uses(P0, f, G(i))])>>]
  \o Cat([f \in 1..Len(P0.fs) |->
       LET E(o) == <<N(f) \o ":" \o OpS(o), Uses(P0, f, o)>> IN
       [i \in 1..(IF P0.fs[f].decl THEN 0 ELSE Len(P0.fs[f].pts)) |-> E(Pm(i))]
       \o Cat([b \in 1..Len(P0.fs[f].bs) |->
            <<<<N(f) \o ":B" \o N(b), UsesB(P0, f, b)>>>>
            \o [i \in 1..Len(P0.fs[f].bs[b].pts) |-> E(Bp(b, i))]
            \o [i \in 1..Len(P0.fs[f].bs[b].is) |-> E(In(b, i))]])])

(* -------------------------------- faults --------------------------------- *)
Utf8 == 1  Kind == 7  Null == 8  Type == 9  Num == 10
F(at, w, a, e) == [at |-> at, w |-> w, a |-> a, e |-> e]
NullAt(at) == F(at, "null", "", {Null})
BadName(at) == F(at, "name", "", {Utf8})
(* kinds: 0 unknown, 1 type, 2 function, 3 block, 4 value *)
SliceF(at, k, n) ==
  [i \in 1..4 |-> F(at, "kind", N((k + i) % 5), {Kind})]
  \o (IF n = 0 THEN <<>>
      ELSE <<F(at, "buf", "", {Null})>> \o [i \in 1..n |-> F(at, "elem", N(i), {Null})])
(* a type term with a null in it *)
TyNull(s) == <<"*?", "[?, 2]", "(?): i32", "(i32): ?", "**?", "(i32, *?)">>

ConstF(at, o, hasParam) ==
  CASE o[1] \in {"undef", "zero"} ->
         <<NullAt(at \o <<"ty">>), F(at \o <<"ty">>, "ty", "unit", {Type}),
           F(at \o <<"ty">>, "ty", "[i32, 0]", {Type}), F(at \o <<"ty">>, "ty", "*[[i32, 0], 2]", {Type}),
           F(at \o <<"ty">>, "ty", "[?, 2]", {Null}), F(at \o <<"ty">>, "ty", "*?", {Null})>>
    [] o[1] = "agg" ->
         SliceF(at \o <<"elems">>, 4, Len(o[3]))
         \o <<F(at \o <<"elems">>, "len0", "", {Type})>>
         \o (IF Len(o[3]) < 2 THEN <<>>
             ELSE [i \in 1..Len(o[3]) |-> F(at \o <<"elems">>, "set" \o N(i),
                     IF Base(o[2]) = I32 THEN "undef:*i32" ELSE "#1", {Type})])
         \o (IF hasParam THEN <<F(at \o <<"elems">>, "set1", "p1", {Type})>> ELSE <<>>)
    [] OTHER -> <<>>

(* Some type other than t. *)
OtherTy(t) == IF t = I32 THEN {Ptr(I32), Arr(I32, 1), Arr(I32, 2), Ptr(Unit), Fn1}
              ELSE {I32, Ptr(t), Arr(t, 2), Arr(t, 1), Arr(t, 3)}
                   \cup (IF IsPtr(t) THEN {Base(t)} \ {Unit} ELSE {})
                   \cup (IF IsArr(t) THEN {Base(t), Arr(Base(t), IF ArrLen(t) = -1 THEN 2 ELSE IF ArrLen(t) < 0 THEN 3 ELSE ArrLen(t) + 1)} ELSE {})
SomeOther(t) == RandomElement(OtherTy(t))
Put1(at, o) == F(at, "op", OpS(o), {Type})
WrongOp(t) == IF t # I32 /\ Coin(3) THEN Lit(1) ELSE IF Coin(3) THEN Zero(SomeOther(t)) ELSE Und(SomeOther(t))
NoPtr(z) == RandomElement({Lit(3), Zero(I32), Und(Arr(I32, 2)), Zero(Arr(Ptr(I32), 1)), Und(Fn1)})
NoArrPtr(z) == RandomElement({Lit(0), Und(Ptr(I32)), Und(Arr(I32, 2)), Zero(Ptr(Ptr(Arr(I32, 2)))), Und(Ptr(Fn1)), Und(Ptr(Unit))})

(* Operands that do not fit, per operand position. *)
Misfit(P0, f, i, at) ==
  LET T(m) == OTy(P0, f, i.ops[m])
      A1(m, o) == Put1(at \o <<"op", m>>, o)
  IN CASE i.k = "load"       -> <<A1(1, NoPtr(0))>>
       [] i.k = "store"      -> <<A1(1, WrongOp(T(1))), A1(2, Und(SomeOther(T(2)))), A1(2, Und(T(1)))>>
       [] i.k = "getptr"     -> <<A1(1, NoPtr(0)), A1(2, WrongOp(I32))>>
       [] i.k = "getelemptr" -> <<A1(1, NoArrPtr(0)), A1(2, WrongOp(I32))>>
       [] i.k = "binary"     -> <<A1(1, WrongOp(I32)), A1(2, WrongOp(I32))>>
       [] i.k = "branch"     -> <<A1(1, WrongOp(I32))>> \o [m \in 1..(Len(i.ops) - 1) |-> A1(m + 1, WrongOp(T(m + 1)))]
       [] i.k \in {"jump", "call"} -> [m \in 1..Len(i.ops) |-> A1(m, WrongOp(T(m)))]
       [] OTHER -> <<>>

CountF(at, n) == (IF n = 0 THEN <<>> ELSE <<F(at, "drop", "", {Type, Num})>>) \o <<F(at, "add", "#1", {Type, Num})>>

InstF(P0, f, b, j) ==
  LET i == P0.fs[f].bs[b].is[j]
      at == <<"i", f, b, j>>
      n == Len(i.ops)
      units == SelectSeq(Ids(j - 1), LAMBDA m : IsUnit(P0.fs[f].bs[b].is[m].ty))
      hp == Len(P0.fs[f].pts) > 0
      Op(m) == at \o <<"op", m>>
  IN (IF i.k = "ret" THEN <<>> ELSE Cat([m \in 1..n |-> <<NullAt(Op(m))>>]))
     \o [m \in 1..n |-> F(Op(m), "op", "undef:unit", {Type})]
     \o [m \in 1..n |-> F(Op(m), "op", "zero:unit", {Type})]
     \o (IF units = <<>> THEN <<>>
         ELSE [m \in 1..n |-> F(Op(m), "op", OpS(In(b, units[Len(units)])), {Type})])
     \o Cat([m \in 1..n |-> ConstF(Op(m), i.ops[m], hp)])
     \o Misfit(P0, f, i, at)
     \o [k \in 1..Len(i.bbs) |-> NullAt(at \o <<"bb", k>>)]
     \o (CASE i.k = "call" -> <<NullAt(at \o <<"fn">>)>> \o SliceF(at \o <<"args">>, 4, n) \o CountF(at \o <<"args">>, n)
           [] i.k = "jump" -> SliceF(at \o <<"args">>, 4, n) \o CountF(at \o <<"args">>, n)
           [] i.k = "branch" -> SliceF(at \o <<"targs">>, 4, i.n) \o SliceF(at \o <<"fargs">>, 4, n - 1 - i.n)
                                \o CountF(at \o <<"targs">>, i.n) \o CountF(at \o <<"fargs">>, n - 1 - i.n)
           [] i.k = "alloc" -> <<NullAt(at \o <<"ty">>), F(at \o <<"ty">>, "ty", "*unit", {Type}),
                                 F(at \o <<"ty">>, "ty", TyStr(Base(i.ty)) \o "", IF IsPtr(Base(i.ty)) THEN {} ELSE {Type}),
                                 F(at \o <<"ty">>, "ty", "*[*i32, 0]", {Type}), F(at \o <<"ty">>, "ty", "*?", {Null}),
                                 F(at \o <<"ty">>, "ty", "*(i32): ?", {Null})>>
           [] OTHER -> <<>>)
     \o (IF i.nm = "" THEN <<>> ELSE <<BadName(at \o <<"name">>)>>)

BlockF(P0, f, b) ==
  LET B == P0.fs[f].bs[b]  at == <<"b", f, b>> IN
  SliceF(at \o <<"params">>, 4, Len(B.pts)) \o SliceF(at \o <<"insts">>, 4, Len(B.is))
  \o Cat([i \in 1..Len(B.pts) |-> <<NullAt(at \o <<"pty", i>>), F(at \o <<"pty", i>>, "ty", "unit", {Type}),
                                    F(at \o <<"pty", i>>, "ty", "[?, 1]", {Null})>>
                                  \o (IF B.pnm[i] = "" THEN <<>> ELSE <<BadName(at \o <<"pnm", i>>)>>)])
  \o (IF B.nm = "" THEN <<>> ELSE <<BadName(at \o <<"name">>)>>)
  \o Cat([j \in 1..Len(B.is) |-> InstF(P0, f, b, j)])

FunF(P0, f) ==
  LET Fn == P0.fs[f]  at == <<"f", f>>  n == Len(Fn.pts)
      ty == TyStr(Fun(Fn.pts, Fn.rt))
      WithP(ps) == TyStr(Fun(ps, Fn.rt))
  IN <<NullAt(at \o <<"ty">>), NullAt(at \o <<"name">>), BadName(at \o <<"name">>),
       F(at \o <<"ty">>, "ty", "i32", {Type}), F(at \o <<"ty">>, "ty", "*" \o ty, {Type}),
       F(at \o <<"ty">>, "ty", "[i32, 3]", {Type}), NullAt(at \o <<"ret">>),
       F(at \o <<"ty">>, "ty", WithP(<<Unit>> \o Tail(Append(Fn.pts, I32))), IF n = 0 THEN {Type, Num} ELSE {Type})>>
     \o SliceF(at \o <<"pts">>, 1, n)
     \o SliceF(at \o <<"params">>, 4, IF Fn.decl THEN 0 ELSE n)
     \o (IF Fn.decl THEN <<>> ELSE
          <<F(at \o <<"ty">>, "ty", WithP(Append(Fn.pts, I32)), {Num}), F(at \o <<"params">>, "add", "arg", {Num})>>
          \o (IF n = 0 THEN <<>> ELSE <<F(at \o <<"ty">>, "ty", WithP(Tail(Fn.pts)), {Num}), F(at \o <<"params">>, "drop", "", {Num})>>)
          \o SelectSeq([i \in 1..n |-> BadName(at \o <<"pnm", i>>)], LAMBDA x : Fn.pnm[x.at[4]] # "")
          \o SliceF(at \o <<"bbs">>, 3, Len(Fn.bs)))
     \o Cat([b \in 1..Len(Fn.bs) |-> BlockF(P0, f, b)])

GlobF(P0, g) ==
  LET at == <<"g", g>> IN
  <<NullAt(at \o <<"init">>)>> \o ConstF(at \o <<"init">>, P0.gs[g].init, FALSE)
  \o <<F(at \o <<"init">>, "op", "undef:unit", {Type}), F(at \o <<"init">>, "op", "zero:[i32, 0]", {Type})>>
  \o (IF P0.gs[g].nm = "" THEN <<>> ELSE <<BadName(at \o <<"name">>)>>)

Faults(P0) ==
  SelectSeq(
    SliceF(<<"p", "values">>, 4, Len(P0.gs)) \o SliceF(<<"p", "funcs">>, 2, Len(P0.fs))
    \o Cat([g \in 1..Len(P0.gs) |-> GlobF(P0, g)])
    \o Cat([f \in 1..Len(P0.fs) |-> FunF(P0, f)]),
    LAMBDA x : x.e # {})

FOut(fs) == [at |-> fs.at, w |-> fs.w, a |-> fs.a, e |-> SetToSeq(fs.e)]
(* In a pair, the second fault is one that no other fault can make good. *)
Hard(fs) == SelectSeq(fs, LAMBDA x : x.w \in {"null", "kind", "buf", "elem"})
PickFaults(fs) ==
  IF Len(fs) = 0 THEN <<>>
  ELSE IF Len(fs) <= NFaults THEN [i \in 1..Len(fs) |-> <<FOut(fs[i])>>]
  ELSE TLCEval([i \in 1..NFaults |->
         IF i % 8 = 0 THEN LET h == Hard(fs)  x == fs[RandomElement(1..Len(fs))]  y == h[RandomElement(1..Len(h))]
                           IN IF x.at = y.at THEN <<FOut(y)>> ELSE <<FOut(x), FOut(y)>>
         ELSE <<FOut(fs[RandomElement(1..Len(fs))])>>])

RDone ==
  /\ ph = "done"
  /\ \E fs \in {IF NFaults = 0 THEN <<>> ELSE TLCEval(Faults(P))} :
     PrintT("@@" \o ToJson([p |-> A.p, text |-> A.text, src |-> A.src, names |-> A.names, users |-> Users(P),
                            nf |-> Len(fs), faults |-> PickFaults(fs)]))
  /\ ph' = "end" /\ UNCHANGED <<P, A>>

RNext == Globals \/ Header \/ Cfg \/ Body \/ Names \/ RDone
RSpec == Init /\ [][RNext]_vars
=============================================================================
