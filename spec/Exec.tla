-------------------------------- MODULE Exec --------------------------------
(* Operational semantics of Koopa IR over the programs of Prog.             *)
(*                                                                          *)
(* Values:   <<"n", i>> a 32-bit integer, <<"u">> undefined, <<"0">> the    *)
(*           null pointer, <<"a", vs>> an array, <<"s", n, v, f>> a long    *)
(*           array of n elements that are v except where f says otherwise,  *)
(*           <<"p", o, path>> a pointer into object o: the indexes that     *)
(*           lead to the element.                                           *)
(* Memory:   a sequence of objects [live, val, d, ext]; d is the depth of   *)
(*           the frame that allocated it (0: global), ext: the object       *)
(*           belongs to the environment.                                    *)
(* Frames:   [f, b, pc, args, env]; env maps block parameters and results   *)
(*           to values.                                                     *)
(* External functions are known by name; each call is written to `out`; one *)
(* that gives an integer gives the next input.                              *)
(* A step with undefined behaviour ends the run with st = "ub": using an    *)
(* undefined value (other than copying it within the program), or a pointer that is null, dangling or outside of the   *)
(* array it points into, dividing by zero, shifting by more than 31.        *)
EXTENDS Prog, I32

Num(i) == <<"n", i>>
Undef == <<"u">>
Null == <<"0">>
IsNum(v) == v[1] = "n"
IsPtrV(v) == v[1] = "p"

(* Arrays. *)
AllOf(n, e) == IF n > 64 THEN <<"s", n, e, <<>>>> ELSE <<"a", TLCEval([i \in 1..n |-> e])>>
LenOf(v) == IF v[1] = "a" THEN Len(v[2]) ELSE v[2]
ElemOf(v, i) == IF v[1] = "a" THEN v[2][i + 1] ELSE IF i \in DOMAIN v[4] THEN v[4][i] ELSE v[3]
SetElem(v, i, e) == IF v[1] = "a" THEN <<"a", [v[2] EXCEPT ![i + 1] = e]>> ELSE <<"s", v[2], v[3], (i :> e) @@ v[4]>>

(* A fresh value of a type: nothing defined, or all zero. *)
RECURSIVE UndefOf(_), ZeroOf(_)
UndefOf(t) == IF IsArr(t) THEN AllOf(ArrLen(t), UndefOf(Base(t))) ELSE Undef
ZeroOf(t) == IF IsArr(t) THEN AllOf(ArrLen(t), ZeroOf(Base(t)))
             ELSE IF IsPtr(t) THEN Null ELSE Num(0)
RECURSIVE ConstV(_)
ConstV(o) ==
  CASE o[1] = "int" -> Num(o[2])
    [] o[1] = "undef" -> UndefOf(o[2])
    [] o[1] = "zero" -> ZeroOf(o[2])
    [] OTHER -> <<"a", TLCEval([i \in 1..Len(o[3]) |-> ConstV(o[3][i])])>>

RECURSIVE AtPath(_, _, _), PutPath(_, _, _, _)
AtPath(v, path, i) == IF i > Len(path) THEN v ELSE AtPath(ElemOf(v, path[i]), path, i + 1)
PutPath(v, path, i, x) ==
  IF i > Len(path) THEN x
  ELSE SetElem(v, path[i], PutPath(ElemOf(v, path[i]), path, i + 1, x))

RECURSIVE AllNum(_)
AllNum(v) == IsNum(v) \/ (v[1] = "a" /\ \A i \in 1..Len(v[2]) : AllNum(v[2][i]))
               \/ (v[1] = "s" /\ AllNum(v[3]) /\ \A i \in DOMAIN v[4] : AllNum(v[4][i]))

(* The environment: the memory it shares, and its functions. *)
Shared == [live |-> TRUE, val |-> <<"a", <<Num(1), Num(2), Num(3), Num(4)>>>>, d |-> 0, ext |-> TRUE]
ExtPtr(P) == Len(P.gs) + 1

Start(P, main, inputs) ==
  [fr |-> << [f |-> main, b |-> 1, pc |-> 1, args |-> <<>>, env |-> <<>>] >>,
   mem |-> [i \in 1..Len(P.gs) |-> [live |-> TRUE, val |-> ConstV(P.gs[i].init), d |-> 0, ext |-> FALSE]] \o <<Shared>>,
   out |-> <<>>, ins |-> inputs, st |-> "run", ret |-> Undef, n |-> 0, ip |-> FALSE, why |-> ""]

Ub(S, why) == [S EXCEPT !.st = "ub", !.why = why]

EvalOp(S, F, o) ==
  CASE o[1] = "g" -> <<"p", o[2], <<>>>>
    [] o[1] = "p" -> F.args[o[2]]
    [] o[1] \in {"bp", "i"} -> F.env[o]
    [] OTHER -> ConstV(o)

(* The length of the array that a pointer points into an element of. *)
OuterLen(S, p) == LenOf(AtPath(S.mem[p[2]].val, SubSeq(p[3], 1, Len(p[3]) - 1), 1))
Good(S, p) == IsPtrV(p) /\ S.mem[p[2]].live

(* Moves to instruction pc + 1 with `v` as the result of o. *)
Result(S, o, v) ==
  LET n == Len(S.fr) IN [S EXCEPT !.fr[n].env = (o :> v) @@ @, !.fr[n].pc = @ + 1]
Go(S) == LET n == Len(S.fr) IN [S EXCEPT !.fr[n].pc = @ + 1]

(* Block arguments are all evaluated before any parameter changes. *)
Enter(P, S, b, vs) ==
  LET n == Len(S.fr)
      env == S.fr[n].env
      new == [o \in {Bp(b, i) : i \in 1..Len(vs)} |-> vs[o[3]]]
  IN [S EXCEPT !.fr[n].env = new @@ env, !.fr[n].b = b, !.fr[n].pc = 1]

(* ---------------------------- the environment ---------------------------- *)
ArgS(S, v) == ToString(v[2])
IntFns == {"@getint", "@vk3", "@vkmany", "@vkch", "@getchar"}
External(P, S, g, vs, res) ==
  LET nm == P.fs[g].nm
      ptr == nm \in {"@vkpeek", "@vkfill"}
      bad == \/ \E i \in 1..Len(vs) : P.fs[g].pts[i] = I32 /\ ~IsNum(vs[i])
             \/ ptr /\ ~Good(S, vs[1])
             \/ nm = "@vkpeek" /\ ~IsNum(AtPath(S.mem[vs[1][2]].val, vs[1][3], 1))
      shown == IF nm = "@vkpeek" THEN <<AtPath(S.mem[vs[1][2]].val, vs[1][3], 1)[2]>>
               ELSE IF nm = "@vkfill" THEN <<vs[2][2]>>
               ELSE [i \in 1..Len(vs) |-> vs[i][2]]
      S1 == [S EXCEPT !.out = Append(@, <<SubSeq(nm, 2, Len(nm))>> \o shown),
                      !.ip = @ \/ (ptr /\ ~S.mem[vs[1][2]].ext)]
      S2 == IF nm = "@vkfill" THEN [S1 EXCEPT !.mem[vs[1][2]].val = PutPath(@, vs[1][3], 1, vs[2])] ELSE S1
      ins == S.ins
  IN IF bad THEN Ub(S, "extern")
     ELSE CASE nm \in IntFns ->
                 Result([S2 EXCEPT !.ins = IF @ = <<>> THEN @ ELSE Tail(@)], res,
                        Num(IF ins # <<>> THEN Head(ins) ELSE IF nm = "@getchar" THEN -1 ELSE 0))
            [] nm = "@putchar" -> Result(S2, res, vs[1])
            [] nm = "@vkbuf" -> Result(S2, res, <<"p", ExtPtr(P), <<0>>>>)
            [] nm = "@vkarr" -> Result(S2, res, <<"p", ExtPtr(P), <<>>>>)
            [] OTHER -> Go(S2)

(* ------------------------------- one step -------------------------------- *)
MaxDepth == 40
Step(P, S) ==
  LET n == Len(S.fr)
      F == S.fr[n]
      i == P.fs[F.f].bs[F.b].is[F.pc]
      res == In(F.b, F.pc)
      V(m) == EvalOp(S, F, i.ops[m])
      Vs(a, z) == TLCEval([m \in 1..(z - a + 1) |-> V(a + m - 1)])
      T == [S EXCEPT !.n = @ + 1]
  IN
  CASE i.k = "alloc" ->
         LET T1 == [T EXCEPT !.mem = Append(@, [live |-> TRUE, val |-> UndefOf(Base(i.ty)), d |-> n, ext |-> FALSE])] IN
         Result(T1, res, <<"p", Len(T1.mem), <<>>>>)
    [] i.k = "load" ->
         LET p == V(1) IN
         IF ~Good(S, p) THEN Ub(T, "load") ELSE Result(T, res, AtPath(S.mem[p[2]].val, p[3], 1))
    [] i.k = "store" ->
         LET p == V(2)  v == V(1) IN
         IF ~Good(S, p) THEN Ub(T, "store")
         ELSE IF S.mem[p[2]].ext /\ ~AllNum(v) THEN Ub(T, "store")
         ELSE Go([T EXCEPT !.mem[p[2]].val = PutPath(@, p[3], 1, v)])
    [] i.k = "getptr" ->
         LET p == V(1)  x == V(2) IN
         IF ~Good(S, p) \/ ~IsNum(x) THEN Ub(T, "getptr")
         ELSE IF p[3] = <<>> THEN (IF x[2] = 0 THEN Result(T, res, p) ELSE Ub(T, "getptr"))
         ELSE LET k == p[3][Len(p[3])]  l == OuterLen(S, p) IN
              IF x[2] < -k \/ x[2] >= l - k THEN Ub(T, "getptr")
              ELSE Result(T, res, <<"p", p[2], [p[3] EXCEPT ![Len(p[3])] = k + x[2]]>>)
    [] i.k = "getelemptr" ->
         LET p == V(1)  x == V(2) IN
         IF ~Good(S, p) \/ ~IsNum(x) THEN Ub(T, "getelemptr")
         ELSE IF x[2] < 0 \/ x[2] >= LenOf(AtPath(S.mem[p[2]].val, p[3], 1)) THEN Ub(T, "getelemptr")
         ELSE Result(T, res, <<"p", p[2], Append(p[3], x[2])>>)
    [] i.k = "binary" ->
         LET a == V(1)  b == V(2) IN
         IF ~IsNum(a) \/ ~IsNum(b) THEN Ub(T, "binary")
         ELSE IF Undefined32(i.x, a[2], b[2]) THEN Ub(T, "arith")
         ELSE Result(T, res, Num(Bin32(i.x, a[2], b[2])))
    [] i.k = "jump" -> Enter(P, T, i.bbs[1], Vs(1, Len(i.ops)))
    [] i.k = "branch" ->
         LET c == V(1) IN
         IF ~IsNum(c) THEN Ub(T, "branch")
         ELSE IF c[2] # 0 THEN Enter(P, T, i.bbs[1], Vs(2, 1 + i.n))
         ELSE Enter(P, T, i.bbs[2], Vs(2 + i.n, Len(i.ops)))
    [] i.k = "call" ->
         LET vs == Vs(1, Len(i.ops)) IN
         IF P.fs[i.fn].decl THEN External(P, T, i.fn, vs, res)
         ELSE IF n >= MaxDepth THEN [T EXCEPT !.st = "long"]
         ELSE [T EXCEPT !.fr = Append(@, [f |-> i.fn, b |-> 1, pc |-> 1, args |-> vs, env |-> <<>>])]
    [] OTHER ->
         LET v == IF i.ops = <<>> THEN Undef ELSE V(1)
             mem == [o \in 1..Len(S.mem) |-> IF S.mem[o].d = n THEN [S.mem[o] EXCEPT !.live = FALSE, !.d = -1] ELSE S.mem[o]]
             T1 == [T EXCEPT !.mem = mem, !.fr = SubSeq(@, 1, n - 1)]
         IN IF n = 1 THEN (IF IsNum(v) THEN [T1 EXCEPT !.st = "done", !.ret = v] ELSE Ub(T, "main"))
            ELSE LET C == S.fr[n - 1] IN Result(T1, In(C.b, C.pc), v)

(* At most k steps, as long as there is something to do. *)
RECURSIVE Run(_, _, _)
Run(P, S, k) == IF k = 0 \/ S.st # "run" THEN S ELSE Run(P, TLCEval(Step(P, S)), k - 1)
=============================================================================
