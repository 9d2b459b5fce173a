------------------------------ MODULE ExecSim ------------------------------
(* Random programs that can be run: like those of ProgSim, but every loop   *)
(* and every recursion spends fuel from a global counter, memory is mostly  *)
(* initialised, indexes are mostly in bounds and divisors mostly not zero.  *)
(* Each program is then executed by Exec; what happens is its meaning.      *)
EXTENDS FrontSim, Exec

CONSTANTS MaxSteps, Consts \* how many operands out of 10 are constants

VARIABLE S
evars == <<ph, P, A, S>>

XU == <<I32, I32, I32, I32, Arr(I32, 2), Arr(I32, 4), Arr(Arr(I32, 2), 3), Ptr(I32), Ptr(I32), Ptr(Arr(I32, 2)), Ptr(Ptr(I32)), Arr(Ptr(I32), 2)>>
XTy(z) == XU[RandomElement(1..Len(XU))]
GU == <<I32, I32, Arr(I32, 2), Arr(I32, 4), Arr(Arr(I32, 2), 3), Ptr(I32)>>

Fd(nm, pts, rt) == [nm |-> nm, decl |-> TRUE, pts |-> pts, pnm |-> <<>>, rt |-> rt, bs |-> <<>>]
Externs == << Fd("@getint", <<>>, I32), Fd("@putint", <<I32>>, Unit), Fd("@vkch", <<I32>>, I32),
              Fd("@vk3", <<I32, I32, I32>>, I32), Fd("@vknop", <<>>, Unit),
              Fd("@vkmany", <<I32, I32, I32, I32, I32, I32, I32, I32, I32>>, I32),
              Fd("@vkbuf", <<>>, Ptr(I32)), Fd("@vkarr", <<>>, Ptr(Arr(I32, 4))),
              Fd("@vkpeek", <<Ptr(I32)>>, Unit), Fd("@vkfill", <<Ptr(I32), I32>>, Unit) >>
NExt == Len(Externs)
PutInt == 2

(* Without globals (MaxG = 0) the fuel is a local variable of every function, *)
(* and constants rarely overflow.                                            *)
Tiny == MaxG = 0
FuelAt == IF Tiny THEN In(1, 1) ELSE G(1)
SmallInts == IF Tiny THEN {0, 1, 2, 3, 5, 7, -1, -3, 31, 100}
             ELSE {0, 1, 2, 3, 5, 7, -1, -3, 31, 100, 65535, 2147483647, MinI}
RECURSIVE XConst(_, _)
XConst(t, z) ==
  IF IsI32(t) THEN Lit(RandomElement(SmallInts))
  ELSE IF IsArr(t) /\ ~Coin(3) THEN Agg(t, TLCEval([i \in 1..ArrLen(t) |-> XConst(Base(t), i)]))
  ELSE IF IsArr(t) /\ Coin(6) THEN Und(t) ELSE Zero(t)

(* Initialised global variables; the first one is the fuel. *)
XGlobals ==
  /\ ph = "glob"
  /\ IF P.gs = <<>> /\ ~Tiny
     THEN \E n \in {RandomElement(3..25)} :
          P' = [P EXCEPT !.gs = << [nm |-> "@fuel", ty |-> I32, init |-> Lit(n)],
                                   [nm |-> "@x", ty |-> I32, init |-> Lit(0)] >>]
          /\ UNCHANGED <<ph, A>>
     ELSE IF Len(P.gs) < MaxG /\ ~Coin(4)
     THEN \E k \in {RandomElement(1..Len(GU))} : \E c \in {TLCEval(XConst(GU[k], 0))} :
            /\ P' = [P EXCEPT !.gs = Append(@, [nm |-> "", ty |-> GU[k], init |-> c])]
            /\ UNCHANGED <<ph, A>>
     ELSE ph' = "head" /\ P' = [P EXCEPT !.fs = Externs] /\ UNCHANGED A

Main == [nm |-> "@main", decl |-> FALSE, pts |-> <<>>, pnm |-> <<>>, rt |-> I32, bs |-> <<>>]
XHeader ==
  /\ ph = "head"
  /\ IF Len(P.fs) < NExt + MaxF - 1 /\ ~Coin(4)
     THEN \E n \in {RandomElement(0..3)} :
          \E ts \in {TLCEval([i \in 1..n |-> XTy(i)])} :
          \E r \in {IF Coin(4) THEN Unit ELSE IF Coin(2) THEN I32 ELSE XTy(0)} :
            P' = [P EXCEPT !.fs = Append(@, [nm |-> "", decl |-> FALSE, pts |-> ts,
                   pnm |-> [i \in 1..n |-> ""], rt |-> r, bs |-> <<>>])]
            /\ UNCHANGED <<ph, A>>
     ELSE /\ P' = [P EXCEPT !.fs = Append(@, Main)]
          /\ ph' = "cfg" /\ A' = [A EXCEPT !.f = NExt + 1]

(* Retreating edges leave a block only beside an edge that goes forward.    *)
Tame(sk) == TLCEval([b \in 1..Len(sk) |->
  LET t == sk[b] IN
  IF \A j \in 1..Len(t) : t[j] > b THEN t
  ELSE IF Len(t) = 2 /\ \E j \in 1..2 : t[j] > b THEN t ELSE <<>>])
XTargets(n, b) ==
  IF b = n THEN <<>>
  ELSE LET c == RandomElement(1..14)
           next == IF Coin(3) THEN RandomElement(b + 1..n) ELSE b + 1
           far == RandomElement(b + 1..n)
       IN IF c = 1 /\ b > 2 THEN <<>>
          ELSE IF c \in 2..4 THEN <<next>>
          ELSE IF c \in 5..9 /\ b > 1 THEN LET t == RandomElement(2..b) IN (IF Coin(2) THEN <<t, next>> ELSE <<next, t>>)
          ELSE IF Coin(2) THEN <<next, far>> ELSE <<far, next>>

I0(k, ty, ops, x) == Inst(k, ty, ops, x, 0, <<>>, 0)
XCfg ==
  /\ ph = "cfg"
  /\ IF A.f > Len(P.fs) THEN ph' = "names" /\ UNCHANGED <<P, A>>
     ELSE \E n \in {RandomElement(1..MaxB)} :
          \E sk0 \in {TLCEval([b \in 1..n |-> XTargets(n, b)])} :
          \E sk \in {Tame(Renumber(sk0, Bfs(sk0)))} :
          \E tw \in {Twice(sk)} :
          \E pts \in {TLCEval([b \in 1..Len(sk) |->
                       IF b = 1 \/ b \in tw \/ Coin(3) THEN <<>>
                       ELSE TLCEval([i \in 1..RandomElement(1..3) |-> IF Coin(3) THEN XTy(0) ELSE I32])])} :
            /\ P' = [P EXCEPT !.fs[A.f].bs =
                 [b \in 1..Len(sk) |-> [nm |-> "", pts |-> pts[b], pnm |-> [i \in 1..Len(pts[b]) |-> ""],
                      is |-> IF Tiny /\ b = 1 THEN <<I0("alloc", Ptr(I32), <<>>, ""), I0("store", Unit, <<Lit(n + 5), In(1, 1)>>, "")>> ELSE <<>>]]]
            /\ A' = [A EXCEPT !.bfs = Ids(Len(sk)), !.k = 1, !.left = RandomElement((MaxI \div 3)..MaxI), !.sk = sk,
                       !.doms = TLCEval([b \in 1..Len(sk) |-> SetToSeq(Dom(sk, b))])]
            /\ ph' = "body"

(* ------------------------------ instructions ----------------------------- *)
(* `first` position of the next instruction; results: instruction sequences. *)
IBin(x, a, b) == I0("binary", I32, <<a, b>>, x)
XOp(V, t) ==
  LET c == SelectSeq(V, LAMBDA e : e[2] = t) IN
  IF IsI32(t) /\ RandomElement(1..10) <= Consts THEN Lit(RandomElement(SmallInts))
  ELSE IF c # <<>> THEN c[RandomElement(IF Len(c) > 3 /\ Coin(2) THEN (Len(c) - 2)..Len(c) ELSE 1..Len(c))][1]
  ELSE IF IsI32(t) THEN Lit(RandomElement(SmallInts)) ELSE Und(t)
(* Stored values and arguments of calls, branches: undefined once in a while. *)
XAny(V, t) == IF ~Tiny /\ Coin(25) THEN Und(t) ELSE XOp(V, t)
XOps(V, ts) == TLCEval([i \in 1..Len(ts) |-> XAny(V, ts[i])])
XStored(V, t) == IF ~IsPtr(t) /\ Coin(3) THEN XConst(t, 0) ELSE XAny(V, t)

XKinds == <<"alloc", "alloc", "load", "load", "load", "store", "store", "gep", "gep", "gepm", "getptr", "getptrm", "getptr",
            "binary", "binary", "binary", "binary", "div", "shift", "call", "call", "call", "ext", "ext", "put", "put", "put", "dead">>
Div0 == {"div", "mod"}
Shf == {"shl", "shr", "sar"}
Plain == BinOps \ (Div0 \cup Shf)

(* Can block b call function f itself?  Only where fuel has been spent. *)
Guarded(b) == /\ ~Tiny /\ Len(A.sk) > 1 /\ Len(A.sk[1]) = 2 /\ A.sk[1][1] # A.sk[1][2]
              /\ LET x == A.sk[1][1] IN
                 /\ x \in ToSet(A.doms[b])
                 /\ \A c \in 2..Len(A.sk) : x \notin ToSet(A.sk[c])
Calls(f, b) == {g \in NExt + 1..f - 1 : TRUE} \cup (IF Guarded(b) /\ P.fs[f].nm # "@main" THEN {f} ELSE {})
HasSelf(f) == \E b \in 1..Len(P.fs[f].bs) : \E j \in 1..Len(P.fs[f].bs[b].is) : P.fs[f].bs[b].is[j].fn = f

Group(V, k, f, b, n) ==
  LET ptrs == SelectSeq(V, LAMBDA e : IsPtr(e[2]))
      arrs == SelectSeq(ptrs, LAMBDA e : IsArr(Base(e[2])))
      R(m) == In(b, n + m)
      Gep(e, x) == I0("getelemptr", Ptr(Base(Base(e[2]))), <<e[1], x>>, "")
      len(e) == ArrLen(Base(e[2]))
  IN CASE k = "alloc" ->
            {LET a == I0("alloc", Ptr(t), <<>>, "") IN
             IF Coin(8) THEN <<a>> ELSE <<a, I0("store", Unit, <<IF IsPtr(t) THEN XOp(V, t) ELSE IF Coin(2) THEN XConst(t, 0) ELSE XOp(V, t), R(0)>>, "")>>
             : t \in {XTy(0)}}
       [] k = "load"  -> {<<I0("load", Base(e[2]), <<e[1]>>, "")>> : e \in PickSeq(ptrs)}
       [] k = "store" -> {<<I0("store", Unit, <<XStored(V, Base(e[2])), e[1]>>, "")>> : e \in PickSeq(ptrs)}
       [] k = "gep" -> {<<Gep(e, IF Coin(15) THEN XOp(V, I32) ELSE Lit(RandomElement(0..len(e) - 1)))>> : e \in PickSeq(arrs)}
       [] k = "gepm" -> {IF len(e) \in {2, 4} THEN <<IBin("and", XOp(V, I32), Lit(len(e) - 1)), Gep(e, R(0))>>
                         ELSE <<IBin("and", XOp(V, I32), Lit(1)), Gep(e, R(0))>> : e \in PickSeq(arrs)}
       [] k = "getptr" -> {<<I0("getptr", e[2], <<e[1], Lit(IF Coin(15) THEN RandomElement({1, -1}) ELSE 0)>>, "")>> : e \in PickSeq(ptrs)}
       [] k = "getptrm" -> \* one step along an array
            {LET j == RandomElement(0..len(e) - 1)  j2 == RandomElement(0..len(e) - 1) IN
             <<Gep(e, Lit(j)), I0("getptr", Ptr(Base(Base(e[2]))), <<R(0), Lit(j2 - j)>>, "")>> : e \in PickSeq(arrs)}
       [] k = "binary" -> {<<IBin(RandomElement(Plain), XOp(V, I32), XOp(V, I32))>>}
       [] k = "div" -> IF Coin(2) THEN {<<IBin("or", XOp(V, I32), Lit(1)), IBin(RandomElement(Div0), XOp(V, I32), R(0))>>}
                       ELSE {<<IBin(RandomElement(Div0), XOp(V, I32), IF Coin(12) THEN XOp(V, I32) ELSE Lit(RandomElement(SmallInts \ {0})))>>}
       [] k = "shift" -> IF Coin(2) THEN {<<IBin("and", XOp(V, I32), Lit(31)), IBin(RandomElement(Shf), XOp(V, I32), R(0))>>}
                         ELSE {<<IBin(RandomElement(Shf), XOp(V, I32), IF Coin(12) THEN XOp(V, I32) ELSE Lit(RandomElement(0..31)))>>}
       [] k = "call" -> {<<Inst("call", P.fs[g].rt, XOps(V, P.fs[g].pts), "", g, <<>>, 0)>> : g \in Pick(Calls(f, b))}
       [] k = "ext" -> {<<Inst("call", P.fs[g].rt, TLCEval([i \in 1..Len(P.fs[g].pts) |-> XOp(V, P.fs[g].pts[i])]), "", g, <<>>, 0)>>
                        : g \in Pick(1..NExt)}
       [] k = "put" -> {<<Inst("call", Unit, <<XOp(V, I32)>>, "", PutInt, <<>>, 0)>>}
       [] OTHER -> \* operations on constants only
            {<<IBin(x, Lit(RandomElement(SmallInts)), IF x \in Shf THEN Lit(RandomElement(0..31))
                                                      ELSE IF x \in Div0 THEN Lit(RandomElement(SmallInts \ {0}))
                                                      ELSE Lit(RandomElement(SmallInts))) >> : x \in {RandomElement(BinOps)}}

(* Arguments of a jump back to a block: often its own parameters, mixed up. *)
XArgs(V, f, b, t) ==
  LET pts == P.fs[f].bs[t].pts IN
  IF t <= b /\ t \in ToSet(A.doms[b]) /\ ~Coin(3)
  THEN TLCEval([i \in 1..Len(pts) |->
         LET c == {j \in 1..Len(pts) : pts[j] = pts[i]} IN
         IF Coin(4) THEN XAny(V, pts[i]) ELSE Bp(t, RandomElement(c))])
  ELSE XOps(V, pts)

XTerm(V, f, b, n) ==
  LET ts == A.sk[b]
      back == \E j \in 1..Len(ts) : ts[j] <= b
      fuel == <<I0("load", I32, <<FuelAt>>, ""), IBin("sub", In(b, n), Lit(1)),
                I0("store", Unit, <<In(b, n + 1), FuelAt>>, "")>>
      Br(c) == Inst("branch", Unit, <<c>> \o XArgs(V, f, b, ts[1]) \o XArgs(V, f, b, ts[2]), "", 0, ts, Len(P.fs[f].bs[ts[1]].pts))
      rec == b = 1 /\ Len(ts) = 2 /\ ts[1] # ts[2] /\ ~back
  IN IF Len(ts) = 0
     THEN <<Inst("ret", Unit, IF IsUnit(P.fs[f].rt) THEN <<>> ELSE <<XOp(V, P.fs[f].rt)>>, "", 0, <<>>, 0)>>
     ELSE IF Len(ts) = 1 THEN <<Inst("jump", Unit, XArgs(V, f, b, ts[1]), "", 0, ts, 0)>>
     ELSE IF back \/ (rec /\ ~Coin(3))
     THEN fuel \o <<IBin(IF ts[1] <= b \/ (rec /\ ~back) THEN "gt" ELSE "le", In(b, n), Lit(0)), Br(In(b, n + 3))>>
     ELSE <<Br(XOp(V, I32))>>

(* Self calls need the fuel test in the first block, which is built first.   *)
HasTest(f) == LET is == P.fs[f].bs[1].is IN
  Len(is) > 4 /\ is[Len(is)].k = "branch" /\ is[Len(is)].ops[1] = In(1, Len(is) - 1) /\ is[Len(is) - 2].k = "store"
  /\ is[Len(is) - 2].ops[2] = G(1)
XVis(f, doms) == SelectSeq(VisOf(P, f, doms), LAMBDA e : e[1] # FuelAt)

XBody ==
  /\ ph = "body"
  /\ LET f == A.f  b == A.bfs[A.k]  V == TLCEval(XVis(f, A.doms[b]))  n == Len(P.fs[f].bs[b].is) + 1 IN
     IF A.left > 0
     THEN /\ A' = [A EXCEPT !.left = @ - 1] /\ UNCHANGED ph
          /\ \E k \in PickSeq(XKinds) : \E c \in {TLCEval(Group(V, k, f, b, n))} :
               IF c = {} THEN UNCHANGED P
               ELSE \E is \in c :
                 IF \E j \in 1..Len(is) : is[j].fn = f /\ ~HasTest(f) THEN UNCHANGED P
                 ELSE P' = [P EXCEPT !.fs[f].bs[b].is = @ \o TLCEval(is)]
     ELSE /\ \E is \in {TLCEval(XTerm(V, f, b, n))} : P' = [P EXCEPT !.fs[f].bs[b].is = @ \o is]
          /\ IF A.k < Len(A.bfs)
             THEN A' = [A EXCEPT !.k = @ + 1, !.left = RandomElement((MaxI \div 3)..MaxI)] /\ UNCHANGED ph
             ELSE A' = [A EXCEPT !.f = @ + 1] /\ ph' = "cfg"

(* -------------------------- writing and running -------------------------- *)
Fixed(Q, e, i) == LET k == SelectInSeq([f \in 1..Len(Q.fs) |-> SymF(f)], LAMBDA s : s = e[1]) IN
                  IF k # 0 /\ Q.fs[k].nm # "" THEN Q.fs[k].nm
                  ELSE IF e[1] = "$g1" THEN "@fuel" ELSE IF e[1] = "$g2" THEN "@x" ELSE ""
XName(Q, e, i, j) == LET s == Fixed(Q, e, i) IN IF s # "" THEN [s |-> s, t |-> FALSE] ELSE TextName(e, j)

SomeInput(z) == TLCEval([i \in 1..30 |-> RandomElement(SmallInts \cup {4, 6, 8, 1000})])
XWrite ==
  /\ ph = "names"
  /\ \E es \in {TLCEval(Entities(P))} :
     \E nm \in {TLCEval([i \in 1..Len(es) |-> XName(P, es[i], i, Local(es, i))])} :
     \E nf \in {[s \in {es[i][1] : i \in 1..Len(es)} |-> NameOf(nm, es, s).s]} :
     \E ords \in {TLCEval([f \in 1..Len(P.fs) |-> TextOrder(Len(P.fs[f].bs))])} :
     \E lines \in {TLCEval([i \in 1..Len(P.gs) |-> GlobTk(nf, i, P.gs[i])]
                    \o Cat([f \in 1..Len(P.fs) |-> FunTk(nf, f, P.fs[f], ords[f], 0, {})]))} :
     \E inputs \in {SomeInput(Len(lines))} :
       /\ A' = [lines |-> lines, ins |-> inputs]
       /\ S' = Start(P, Len(P.fs), inputs)
       /\ ph' = "run" /\ UNCHANGED P

XRun ==
  /\ ph = "run"
  /\ \E s \in {TLCEval(Run(P, S, 40))} :
     IF s.st = "run" /\ s.n < MaxSteps THEN S' = s /\ UNCHANGED <<ph, A>>
     ELSE /\ S' = s /\ ph' = "done"
          /\ A' = [st |-> IF s.st = "run" THEN "long" ELSE s.st, ret |-> IF s.ret = Undef THEN 0 ELSE s.ret[2], why |-> s.why,
                   out |-> s.out, ins |-> A.ins, n |-> s.n, ip |-> s.ip, lines |-> A.lines]
  /\ UNCHANGED P

Quiet == UNCHANGED S
XInit == Init /\ S = <<>>
XNext == ((XGlobals \/ XHeader \/ XCfg \/ XBody \/ Done) /\ UNCHANGED S) \/ XWrite \/ XRun
XSpec == XInit /\ [][XNext]_evars
XInv == ph = "names" => WellFormed(P)
=============================================================================
