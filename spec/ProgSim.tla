------------------------------ MODULE ProgSim ------------------------------
(* Random well-formed programs, built entity by entity: globals, function   *)
(* headers, then per function a control-flow graph, block parameters and    *)
(* the instructions, in an order in which definitions come before uses.     *)
(* Mode: "text"  as written by hand: names, temporaries, any block order,   *)
(*               unreachable blocks, calls without a name                   *)
(*       "rt"    as built through the API, blocks laid out breadth first    *)
(*       "api"   as built through the API, any block order, forward calls   *)
EXTENDS Prog

CONSTANTS Mode, MaxG, MaxF, MaxB, MaxI

VARIABLES ph, P, A
vars == <<ph, P, A>>

Coin(n) == RandomElement(1..n) = 1
Pick(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
PickSeq(s) == IF s = <<>> THEN {} ELSE {s[RandomElement(1..Len(s))]}

Fn1 == Fun(<<I32>>, I32)
U == {I32, Ptr(I32), Arr(I32, 2), Ptr(Arr(I32, 2)), Arr(Arr(I32, 2), 3), Ptr(Ptr(I32)),
      Arr(Ptr(I32), 2), Ptr(Arr(Arr(I32, 1), 2)), Arr(I32, 1), Ptr(Arr(I32, -1)), Arr(I32, -2), Ptr(Fn1), Ptr(Fun(<<Ptr(I32), I32>>, Unit))}
AnyTy(z) == IF Coin(2) THEN I32 ELSE RandomElement(U)
BinOps == {"ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod",
           "and", "or", "xor", "shl", "shr", "sar"}
Ints == {0, 1, 2, 3, 4, 10, -1, -2, 255, 1000000, 2147483647, -2147483647 - 1}

(* A constant of type t. *)
RECURSIVE ConstOf(_, _)
ConstOf(t, d) ==
  IF IsI32(t) /\ Coin(2) THEN Lit(RandomElement(Ints))
  ELSE IF IsArr(t) /\ ArrLen(t) > 0 /\ d > 0 /\ ~Coin(3)
       THEN Agg(t, TLCEval([i \in 1..ArrLen(t) |-> ConstOf(Base(t), d - 1)]))
  ELSE IF IsI32(t) /\ ~Coin(4) THEN Lit(RandomElement(Ints))
  ELSE IF Coin(2) THEN Zero(t) ELSE Und(t)
(* A constant that may be written where a value is expected. *)
PlainConst(t, z) ==
  IF Mode = "api" /\ Coin(3) THEN ConstOf(t, 2)
  ELSE IF IsI32(t) /\ ~Coin(5) THEN Lit(RandomElement(Ints)) ELSE Und(t)

(* An operand of type t among the visible ones or a constant. *)
OperandOf(V, t) ==
  LET c == SelectSeq(V, LAMBDA e : e[2] = t) IN
  IF c # <<>> /\ ~Coin(4) THEN c[RandomElement(IF Len(c) > 3 /\ Coin(2) THEN (Len(c) - 2)..Len(c) ELSE 1..Len(c))][1]
  ELSE PlainConst(t, 0)
StoreOperandOf(V, t) == IF Coin(3) THEN ConstOf(t, 2) ELSE OperandOf(V, t)
OperandsOf(V, ts) == TLCEval([i \in 1..Len(ts) |-> OperandOf(V, ts[i])])

Init == ph = "glob" /\ P = [gs |-> <<>>, fs |-> <<>>]
        /\ A = [f |-> 0, bfs |-> <<>>, k |-> 0, left |-> 0, sk |-> <<>>, doms |-> <<>>]

(* ------------------------- globals and headers --------------------------- *)
Globals ==
  /\ ph = "glob"
  /\ IF Len(P.gs) < MaxG /\ ~Coin(3)
     THEN \E t \in {AnyTy(0)} : \E c \in {TLCEval(ConstOf(t, 2))} :
            /\ P' = [P EXCEPT !.gs = Append(@, [nm |-> "", ty |-> t, init |-> c])]
            /\ UNCHANGED <<ph, A>>
     ELSE ph' = "head" /\ UNCHANGED <<P, A>>

Header ==
  /\ ph = "head"
  /\ IF Len(P.fs) < MaxF /\ (P.fs = <<>> \/ ~Coin(3))
     THEN \E n \in {RandomElement(0..3)} :
          \E ts \in {TLCEval([i \in 1..n |-> AnyTy(0)])} :
          \E r \in {IF Coin(3) THEN Unit ELSE AnyTy(0)} :
          \E d \in {Coin(4)} :
            P' = [P EXCEPT !.fs = Append(@, [nm |-> "", decl |-> d, pts |-> ts,
                   pnm |-> IF d THEN <<>> ELSE [i \in 1..n |-> ""], rt |-> r, bs |-> <<>>])]
            /\ UNCHANGED <<ph, A>>
     ELSE ph' = "cfg" /\ A' = [A EXCEPT !.f = 1] /\ UNCHANGED P

(* ----------------------------- control flow ------------------------------ *)
RandTargets(n, z) ==
  IF n = 1 THEN <<>>
  ELSE LET c == RandomElement(1..5) IN
       IF c = 1 THEN <<>>
       ELSE IF c \in 2..3 THEN <<RandomElement(2..n)>>
       ELSE <<RandomElement(2..n), RandomElement(2..n)>>
CfgOrder(sk) ==
  IF Mode = "api" THEN IF Coin(3) THEN Ids(Len(sk)) ELSE SelectSeq(Ids(Len(sk)), LAMBDA b : b \in Reach(sk)) ELSE Bfs(sk)
(* Blocks that can not be reached are filled last; they see the first block and themselves. *)
FillOrder(sk) == Bfs(sk) \o SelectSeq(Ids(Len(sk)), LAMBDA b : b \notin Reach(sk))
Seen(sk, b) == IF b \in Reach(sk) THEN Dom(sk, b) ELSE {1, b}

NextFun == /\ A' = [A EXCEPT !.f = @ + 1] /\ UNCHANGED <<P, ph>>

(* A block that a branch names twice can not take parameters. *)
Twice(sk) == {sk[b][1] : b \in {b \in 1..Len(sk) : Len(sk[b]) = 2 /\ sk[b][1] = sk[b][2]}}

Cfg ==
  /\ ph = "cfg"
  /\ IF A.f > Len(P.fs) THEN ph' = "names" /\ UNCHANGED <<P, A>>
     ELSE IF P.fs[A.f].decl THEN NextFun
     ELSE \E n \in {RandomElement(1..MaxB)} :
          \E sk0 \in {TLCEval([b \in 1..n |-> RandTargets(n, b)])} :
          \E ord \in {TLCEval(CfgOrder(sk0))} :
          \E sk \in {Renumber(sk0, ord)} :
          \E tw \in {Twice(sk)} :
          \E pts \in {TLCEval([b \in 1..Len(sk) |->
                       IF b = 1 \/ b \in tw \/ Coin(2) THEN <<>>
                       ELSE TLCEval([i \in 1..RandomElement(1..3) |-> AnyTy(0)])])} :
            /\ P' = [P EXCEPT !.fs[A.f].bs =
                 [b \in 1..Len(sk) |-> [nm |-> "", pts |-> pts[b], pnm |-> [i \in 1..Len(pts[b]) |-> ""], is |-> <<>>]]]
            /\ A' = [A EXCEPT !.bfs = FillOrder(sk), !.k = 1, !.left = RandomElement(0..MaxI), !.sk = sk,
                       !.doms = TLCEval([b \in 1..Len(sk) |-> SetToSeq(Seen(sk, b))])]
            /\ ph' = "body"

(* ------------------------------ instructions ----------------------------- *)
Kinds == <<"alloc", "alloc", "load", "load", "load", "store", "store", "getptr", "getelemptr",
           "binary", "binary", "binary", "call", "call">>
Callees == IF Mode = "api" THEN 1..Len(P.fs) ELSE 1..A.f

(* At most one candidate instruction of kind k over the visible operands V. *)
MkInst(V, k) ==
  LET ptrs == SelectSeq(V, LAMBDA e : IsPtr(e[2]) /\ ~IsFun(Base(e[2])))
      arrs == SelectSeq(ptrs, LAMBDA e : IsArr(Base(e[2])))
  IN CASE k = "alloc" -> {Inst(k, Ptr(t), <<>>, "", 0, <<>>, 0) : t \in {AnyTy(0)}}
       [] k = "load"  -> {Inst(k, Base(e[2]), <<e[1]>>, "", 0, <<>>, 0) : e \in PickSeq(ptrs)}
       [] k = "store" -> {Inst(k, Unit, <<StoreOperandOf(V, Base(e[2])), e[1]>>, "", 0, <<>>, 0) : e \in PickSeq(ptrs)}
       [] k = "getptr" -> {Inst(k, e[2], <<e[1], OperandOf(V, I32)>>, "", 0, <<>>, 0) : e \in PickSeq(ptrs)}
       [] k = "getelemptr" -> {Inst(k, Ptr(Base(Base(e[2]))), <<e[1], OperandOf(V, I32)>>, "", 0, <<>>, 0) : e \in PickSeq(arrs)}
       [] k = "binary" -> {Inst(k, I32, <<OperandOf(V, I32), OperandOf(V, I32)>>, RandomElement(BinOps), 0, <<>>, 0)}
       [] OTHER -> {Inst(k, P.fs[g].rt, OperandsOf(V, P.fs[g].pts), "", g, <<>>, 0) : g \in Pick(Callees)}

MkTerm(V, f, ts) ==
  IF Len(ts) = 0
  THEN Inst("ret", Unit, IF IsUnit(P.fs[f].rt) THEN <<>> ELSE <<OperandOf(V, P.fs[f].rt)>>, "", 0, <<>>, 0)
  ELSE IF Len(ts) = 1
  THEN Inst("jump", Unit, OperandsOf(V, P.fs[f].bs[ts[1]].pts), "", 0, ts, 0)
  ELSE Inst("branch", Unit,
            <<OperandOf(V, I32)>> \o OperandsOf(V, P.fs[f].bs[ts[1]].pts) \o OperandsOf(V, P.fs[f].bs[ts[2]].pts),
            "", 0, ts, Len(P.fs[f].bs[ts[1]].pts))

Put(f, b, i) == P' = [P EXCEPT !.fs[f].bs[b].is = Append(@, TLCEval(i))]

Body ==
  /\ ph = "body"
  /\ LET f == A.f  b == A.bfs[A.k]  V == TLCEval(VisOf(P, f, A.doms[b])) IN
     IF A.left > 0
     THEN /\ A' = [A EXCEPT !.left = @ - 1] /\ UNCHANGED ph
          /\ \E k \in PickSeq(Kinds) : \E c \in {TLCEval(MkInst(V, k))} :
               IF c = {} THEN UNCHANGED P ELSE \E i \in c : Put(f, b, i)
     ELSE /\ \E i \in {TLCEval(MkTerm(V, f, A.sk[b]))} : Put(f, b, i)
          /\ IF A.k < Len(A.bfs)
             THEN A' = [A EXCEPT !.k = @ + 1, !.left = RandomElement(0..MaxI)] /\ UNCHANGED ph
             ELSE A' = [A EXCEPT !.f = @ + 1] /\ ph' = "cfg"

(* --------------------------------- names --------------------------------- *)
(* Hand-written text: unique in each scope; some are temporaries.            *)
TextName(e, i) ==
  LET c == RandomElement(1..6)
  IN IF e[2] = 0 \/ c = 1 THEN [s |-> "@g" \o N(i), t |-> FALSE]
     ELSE IF c = 2 THEN [s |-> "%v_" \o N(i), t |-> FALSE]
     ELSE IF c = 3 THEN [s |-> "@" \o "_" \o N(i) \o "x", t |-> FALSE]
     ELSE IF c = 4 THEN [s |-> "%add" \o N(i), t |-> FALSE]
     ELSE [s |-> "%" \o (IF Coin(3) THEN RandomElement({"4294967296", "18446744073709551616", "99999999999999999999999999999999999999999"}) ELSE "") \o N(i), t |-> TRUE]
(* Through the API: anything, many clashes. *)
Pool == <<"", "", "", "@a", "%a", "@b", "%b", "@a_0", "%a_0", "%a_1", "@main", "%0", "%1", "%2", "%3", "%7", "%entry",
          "@ret", "%x_0_0", "@_">>
RECURSIVE Longer(_, _)
Longer(s, k) == IF k = 0 THEN s ELSE Longer(s \o s, k - 1)
LongPart == Longer("Long", 7) \* 512 characters
ApiName(e, i) ==
  IF Coin(60) THEN [s |-> (IF Coin(2) THEN "@" ELSE "%") \o LongPart \o RandomElement({"", "_0", "x", "y"}), t |-> FALSE] ELSE
  LET p == IF SubSeq(e[1], 1, 2) = "$f" /\ e[2] = 0 THEN SubSeq(Pool, 4, Len(Pool)) ELSE Pool
  IN [s |-> IF Coin(5) THEN "@u" \o N(i) ELSE p[RandomElement(1..Len(p))], t |-> FALSE]

(* The number of an entity within its scope, so that scopes reuse names. *)
Local(es, i) == IF es[i][2] = 0 THEN i ELSE 1000 + Cardinality({j \in 1..i : es[j][2] = es[i][2]})

NameOf(nm, es, sym) == IF \E i \in 1..Len(es) : es[i][1] = sym
                       THEN nm[CHOOSE i \in 1..Len(es) : es[i][1] = sym] ELSE [s |-> "", t |-> FALSE]
Kept(n) == IF n.t THEN "" ELSE n.s
Apply(Q, nm, es, bare) ==
  LET Nm(s) == Kept(NameOf(nm, es, s)) IN
  [gs |-> [i \in 1..Len(Q.gs) |-> [Q.gs[i] EXCEPT !.nm = Nm(SymG(i))]],
   fs |-> [f \in 1..Len(Q.fs) |->
     [Q.fs[f] EXCEPT !.nm = NameOf(nm, es, SymF(f)).s,
        !.pnm = [i \in 1..Len(Q.fs[f].pnm) |-> Nm(SymP(f, i))],
        !.bs = [b \in 1..Len(Q.fs[f].bs) |->
          [Q.fs[f].bs[b] EXCEPT !.nm = Nm(SymB(f, b)),
             !.pnm = [i \in 1..Len(Q.fs[f].bs[b].pnm) |-> Nm(SymBp(f, b, i))],
             !.is = [i \in 1..Len(Q.fs[f].bs[b].is) |->
                      [Q.fs[f].bs[b].is[i] EXCEPT !.nm = IF <<f, b, i>> \in bare THEN "" ELSE Nm(SymI(f, b, i))]]]]]]]

(* Names the printer must leave alone: nothing else in reach has the name,   *)
(* and it does not look like the result of making another name unique.       *)
Suffixed(s) == Len(s) > 2 /\ SubSeq(s, Len(s) - 1, Len(s)) \in {"_0", "_1"}
Numeric(s) == Len(s) > 1 /\ SubSeq(s, 1, 1) = "%" /\ SubSeq(s, 2, 2) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Stable(nm, es) ==
  {i \in 1..Len(es) : LET s == nm[i].s IN
     /\ s # "" /\ ~Numeric(s) /\ ~Suffixed(s)
     /\ \A j \in 1..Len(es) : j # i /\ nm[j].s = s => (es[i][2] # 0 /\ es[j][2] # 0 /\ es[j][2] # es[i][2])}

(* Calls whose value nobody uses can be written as statements. *)
Used(Q, f, b, i) == \E b2 \in 1..Len(Q.fs[f].bs) : \E j \in 1..Len(Q.fs[f].bs[b2].is) :
                      In(b, i) \in ToSet(Q.fs[f].bs[b2].is[j].ops)
Bares(Q) == UNION {UNION {{<<f, b, i>> : i \in {i \in 1..Len(Q.fs[f].bs[b].is) :
              Q.fs[f].bs[b].is[i].k = "call" /\ ~Used(Q, f, b, i) /\ Coin(2)}}
              : b \in 1..Len(Q.fs[f].bs)} : f \in 1..Len(Q.fs)}

RECURSIVE Shuffle(_), ShufAt(_, _)
Shuffle(s) == IF s = <<>> THEN <<>>
              ELSE LET i == RandomElement(1..Len(s)) IN TLCEval(ShufAt(s, i))
ShufAt(s, i) == <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
TextOrder(n) == IF n = 0 THEN <<>> ELSE <<1>> \o (IF Coin(2) THEN Shuffle(SubSeq(Ids(n), 2, n)) ELSE SubSeq(Ids(n), 2, n))

(* Blocks that nothing reaches are skipped, whatever is in them. *)
Dead(f, n, z) ==
  IF n = 0 \/ ~Coin(3) THEN <<>>
  ELSE LET c == RandomElement(1..4) IN
       <<"%dead:">> \o
       (IF c = 1 THEN <<"jump %dead">>
        ELSE IF c = 2 THEN <<"%d1 = add %nowhere, 1", "jump " \o SymB(f, n)>>
        ELSE IF c = 3 THEN <<"ret %nothing">>
        ELSE <<"br 1, " \o SymB(f, 1) \o ", %dead2", "%dead2:", "jump %dead">>)

SepPool == <<" ", " ", "  ", "\n", "\t", "\r\n", "/**/", "/* x */ ", "// c\n", "/***/\n", "/* // * / */", " /* \n */ ", "//! version\n", "\n\n">>
Seps(z) == TLCEval([i \in 1..9 |-> SepPool[RandomElement(1..Len(SepPool))]])

(* ------------------------------ the result ------------------------------- *)
NameList(nm, es) == [i \in 1..Len(es) |-> <<es[i][1], nm[i].s, es[i][2]>>]
Names ==
  /\ ph = "names"
  /\ \E es \in {TLCEval(Entities(P))} :
     \E nm \in {TLCEval([i \in 1..Len(es) |-> IF Mode = "text" THEN TextName(es[i], Local(es, i)) ELSE ApiName(es[i], i)])} :
     \E bare \in {IF Mode = "text" THEN TLCEval(Bares(P)) ELSE {}} :
     \E Q \in {TLCEval(Apply(P, nm, es, bare))} :
     \E ords \in {TLCEval([f \in 1..Len(Q.fs) |-> TextOrder(Len(Q.fs[f].bs))])} :
     \E dead \in {TLCEval([f \in 1..Len(Q.fs) |-> Dead(f, Len(Q.fs[f].bs), 0)])} :
     \E src \in {IF Mode # "text" THEN <<>> ELSE TLCEval(
                  [i \in 1..Len(Q.gs) |-> GlobT(i, Q.gs[i])]
                  \o Cat([f \in 1..Len(Q.fs) |-> FunT(f, Q.fs[f], ords[f], dead[f],
                                                      LAMBDA ff, b, j : <<ff, b, j>> \in bare)]))} :
       /\ P' = Q
       /\ A' = [p |-> PJ(Q), text |-> Text(Q), src |-> src, names |-> NameList(nm, es),
                stable |-> IF Mode = "text" THEN <<>> ELSE SetToSeq({es[i][1] : i \in Stable(nm, es)}),
                seps |-> Seps(0)]
       /\ ph' = "done"

Done == /\ ph = "done"
        /\ PrintT("@@" \o ToJson(A))
        /\ ph' = "end" /\ UNCHANGED <<P, A>>
Next == Globals \/ Header \/ Cfg \/ Body \/ Names \/ Done
Spec == Init /\ [][Next]_vars

(* The generator only builds well-formed programs, and laid out as promised. *)
Inv == ph = "done" =>
  /\ WellFormed(P)
  /\ Mode # "api" => \A f \in 1..Len(P.fs) : ~P.fs[f].decl => Bfs(Skel(P.fs[f])) = Ids(Len(P.fs[f].bs))
============================================================================
