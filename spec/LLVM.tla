-------------------------------- MODULE LLVM --------------------------------
(* What makes LLVM IR text valid (property C15), for the part of the         *)
(* language that Koopa IR is translated to.  A module is a sequence of       *)
(* lines of tokens.  Judge(lines) is "" for a valid module, a complaint, or  *)
(* "?..." for a construct that is not described here.                        *)
(*   names     unique: global ones in the module; parameters, labels and     *)
(*             results together in each function; all that is used exists    *)
(*   types     every operand has the type it is used with                    *)
(*   blocks    phis, other instructions, one terminator; the first one is    *)
(*             no target; a phi has one entry per edge that enters its block *)
(*   order     a definition dominates its uses; what a phi takes from a      *)
(*             block dominates the end of that block                         *)
EXTENDS Prog

(* Types: <<"i", bits>> <<"void">> <<"arr", n, t>> <<"ptr", t>> <<"fn", ret, params>> *)
LI32 == <<"i", "32">>
LI1 == <<"i", "1">>
LPtr(t) == <<"ptr", t>>
At(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE ""
Is(s, c) == Len(s) > 1 /\ SubSeq(s, 1, 1) = c
LDig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IntLit(s) == LET d == IF Is(s, "-") THEN SubSeq(s, 2, Len(s)) ELSE s IN
             d # "" /\ \A i \in 1..Len(d) : SubSeq(d, i, i) \in LDig

(* <<type, next position>>; next position 0: not a type. *)
RECURSIVE LTy(_, _), LSuf(_, _, _), LTys(_, _, _)
LTy(ts, i) ==
  LET t == At(ts, i) IN
  IF t = "i32" THEN LSuf(ts, i + 1, LI32)
  ELSE IF t = "i1" THEN LSuf(ts, i + 1, LI1)
  ELSE IF t = "void" THEN LSuf(ts, i + 1, <<"void">>)
  ELSE IF t = "[" /\ At(ts, i + 2) = "x"
       THEN LET e == LTy(ts, i + 3) IN
            IF e[2] = 0 \/ At(ts, e[2]) # "]" \/ ~IntLit(At(ts, i + 1)) THEN <<<<"void">>, 0>>
            ELSE LSuf(ts, e[2] + 1, <<"arr", At(ts, i + 1), e[1]>>)
  ELSE <<<<"void">>, 0>>
LSuf(ts, i, t) ==
  IF At(ts, i) = "*" THEN LSuf(ts, i + 1, LPtr(t))
  ELSE IF At(ts, i) = "(" THEN
    LET p == IF At(ts, i + 1) = ")" THEN <<<<>>, i + 2>> ELSE LTys(ts, i + 1, <<>>) IN
    IF p[2] = 0 THEN <<t, 0>> ELSE LSuf(ts, p[2], <<"fn", t, p[1]>>)
  ELSE <<t, i>>
(* Types up to the closing parenthesis. *)
LTys(ts, i, acc) ==
  LET t == LTy(ts, i) IN
  IF t[2] = 0 THEN <<acc, 0>>
  ELSE IF At(ts, t[2]) = "," THEN LTys(ts, t[2] + 1, Append(acc, t[1]))
  ELSE IF At(ts, t[2]) = ")" THEN <<Append(acc, t[1]), t[2] + 1>> ELSE <<acc, 0>>

(* An operand of type t at i: [n |-> next position or 0, u |-> names used with types, e |-> complaint] *)
Bad(e) == [n |-> 0, u |-> <<>>, e |-> e]
RECURSIVE LOp(_, _, _), LElems(_, _, _, _)
LOp(ts, i, t) ==
  LET x == At(ts, i) IN
  IF Is(x, "%") \/ Is(x, "@") THEN [n |-> i + 1, u |-> << <<x, t>> >>, e |-> ""]
  ELSE IF IntLit(x) THEN IF t[1] = "i" THEN [n |-> i + 1, u |-> <<>>, e |-> ""] ELSE Bad("integer " \o x \o " for another type")
  ELSE IF x = "null" THEN IF t[1] = "ptr" THEN [n |-> i + 1, u |-> <<>>, e |-> ""] ELSE Bad("null for another type")
  ELSE IF x \in {"zeroinitializer", "undef"} THEN IF t[1] \in {"i", "arr", "ptr"} THEN [n |-> i + 1, u |-> <<>>, e |-> ""] ELSE Bad("constant of no value type")
  ELSE IF x = "[" THEN
    IF t[1] # "arr" THEN Bad("array for another type")
    ELSE LET r == LElems(ts, i + 1, t[3], 0) IN
         IF r[1] = 0 THEN Bad(r[3])
         ELSE IF ToString(r[2]) # t[2] THEN Bad("array of another length") ELSE [n |-> r[1], u |-> <<>>, e |-> ""]
  ELSE Bad("?operand " \o x)
(* <<next position or 0, elements so far, complaint>> *)
LElems(ts, i, t, k) ==
  LET y == LTy(ts, i) IN
  IF y[2] = 0 THEN <<0, k, "element without a type">>
  ELSE IF y[1] # t THEN <<0, k, "element of another type">>
  ELSE LET o == LOp(ts, y[2], t) IN
       IF o.n = 0 THEN <<0, k, o.e>>
       ELSE IF At(ts, o.n) = "," THEN LElems(ts, o.n + 1, t, k + 1)
       ELSE IF At(ts, o.n) = "]" THEN <<o.n + 1, k + 1, "">> ELSE <<0, k, "?array">>
(* An operand with its type: as LOp, with t. *)
LTop(ts, i) ==
  LET y == LTy(ts, i) IN
  IF y[2] = 0 THEN [n |-> 0, u |-> <<>>, e |-> "?type " \o At(ts, i), t |-> <<"void">>]
  ELSE LET o == LOp(ts, y[2], y[1]) IN [n |-> o.n, u |-> o.u, e |-> o.e, t |-> y[1]]

(* ----------------------------- instructions ------------------------------ *)
(* [k, def, t, u, to, ph, e]: kind, name and type of the result, operands,   *)
(* targets, entries <<operand uses, block>> of a phi, complaint.             *)
Ins(k, def, t, u) == [k |-> k, def |-> def, t |-> t, u |-> u, to |-> <<>>, ph |-> <<>>, e |-> ""]
Err(e) == [Ins("", "", <<"void">>, <<>>) EXCEPT !.e = e]
End(ts, i) == i > Len(ts)
RECURSIVE LArgs(_, _, _, _), LPhi(_, _, _, _), Index2(_, _)
(* Arguments up to the closing parenthesis: <<next, uses, types, complaint>>. *)
LArgs(ts, i, us, tys) ==
  LET o == LTop(ts, i) IN
  IF o.n = 0 THEN <<0, us, tys, o.e>>
  ELSE IF At(ts, o.n) = "," THEN LArgs(ts, o.n + 1, us \o o.u, Append(tys, o.t))
  ELSE IF At(ts, o.n) = ")" THEN <<o.n + 1, us \o o.u, Append(tys, o.t), "">> ELSE <<0, us, tys, "?argument">>
LPhi(ts, i, t, acc) ==
  IF At(ts, i) # "[" THEN Err("?phi")
  ELSE LET o == LOp(ts, i + 1, t) IN
       IF o.n = 0 THEN Err(o.e)
       ELSE IF At(ts, o.n) # "," \/ ~Is(At(ts, o.n + 1), "%") \/ At(ts, o.n + 2) # "]" THEN Err("?phi")
       ELSE LET a == Append(acc, <<o.u, At(ts, o.n + 1)>>) IN
            IF At(ts, o.n + 3) = "," THEN LPhi(ts, o.n + 4, t, a)
            ELSE IF End(ts, o.n + 3) THEN [Ins("phi", "", t, <<>>) EXCEPT !.ph = a] ELSE Err("?phi")
Index2(t, left) == IF left = 0 THEN t ELSE IF t[1] = "arr" THEN Index2(t[3], left - 1) ELSE <<"none">>

LBin == {"add", "sub", "mul", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
LCmp == {"eq", "ne", "sgt", "slt", "sge", "sle"}
(* The part of an instruction after "name =", starting at i. *)
LInst(ts, i, fns) ==
  LET k == At(ts, i) IN
  CASE k = "alloca" ->
         LET y == LTy(ts, i + 1) IN
         IF y[2] = 0 \/ ~End(ts, y[2]) THEN Err("?alloca")
         ELSE IF y[1][1] \in {"void", "fn"} THEN Err("alloca of no value type") ELSE Ins(k, "", LPtr(y[1]), <<>>)
    [] k = "load" ->
         LET y == LTy(ts, i + 1)  o == LTop(ts, y[2] + 1) IN
         IF y[2] = 0 \/ At(ts, y[2]) # "," THEN Err("?load")
         ELSE IF o.n = 0 THEN Err(o.e)
         ELSE IF ~End(ts, o.n) THEN Err("?load")
         ELSE IF o.t # LPtr(y[1]) THEN Err("load of another type than the pointer's") ELSE Ins(k, "", y[1], o.u)
    [] k = "store" ->
         LET v == LTop(ts, i + 1)  o == LTop(ts, v.n + 1) IN
         IF v.n = 0 THEN Err(v.e)
         ELSE IF At(ts, v.n) # "," THEN Err("?store")
         ELSE IF o.n = 0 THEN Err(o.e)
         ELSE IF ~End(ts, o.n) THEN Err("?store")
         ELSE IF o.t # LPtr(v.t) THEN Err("store of another type than the pointer's") ELSE Ins(k, "", <<"void">>, v.u \o o.u)
    [] k = "getelementptr" ->
         LET s == IF At(ts, i + 1) = "inbounds" THEN i + 2 ELSE i + 1
             y == LTy(ts, s)  p == LTop(ts, y[2] + 1)  a == LTop(ts, p.n + 1)  b == LTop(ts, a.n + 1)
         IN IF y[2] = 0 \/ At(ts, y[2]) # "," THEN Err("?getelementptr")
            ELSE IF p.n = 0 THEN Err(p.e)
            ELSE IF p.t # LPtr(y[1]) THEN Err("getelementptr of another type than the pointer's")
            ELSE IF At(ts, p.n) # "," THEN Err("?getelementptr")
            ELSE IF a.n = 0 THEN Err(a.e)
            ELSE IF a.t[1] # "i" THEN Err("index that is no integer")
            ELSE IF End(ts, a.n) THEN Ins(k, "", LPtr(y[1]), p.u \o a.u)
            ELSE IF At(ts, a.n) # "," THEN Err("?getelementptr")
            ELSE IF b.n = 0 THEN Err(b.e)
            ELSE IF ~End(ts, b.n) THEN Err("?getelementptr")
            ELSE IF b.t[1] # "i" \/ y[1][1] # "arr" THEN Err("index into no array")
            ELSE Ins(k, "", LPtr(y[1][3]), p.u \o a.u \o b.u)
    [] k \in LBin \/ (k = "icmp" /\ At(ts, i + 1) \in LCmp) ->
         LET s == IF k = "icmp" THEN i + 2 ELSE i + 1
             a == LTop(ts, s)  b == LOp(ts, a.n + 1, a.t)
         IN IF a.n = 0 THEN Err(a.e)
            ELSE IF At(ts, a.n) # "," THEN Err("?operation")
            ELSE IF b.n = 0 THEN Err(b.e)
            ELSE IF ~End(ts, b.n) THEN Err("?operation")
            ELSE IF a.t[1] # "i" THEN Err("operation on no integer")
            ELSE Ins(k, "", IF k = "icmp" THEN LI1 ELSE a.t, a.u \o b.u)
    [] k = "zext" ->
         LET a == LTop(ts, i + 1)  y == LTy(ts, a.n + 1) IN
         IF a.n = 0 THEN Err(a.e)
         ELSE IF At(ts, a.n) # "to" \/ y[2] = 0 \/ ~End(ts, y[2]) THEN Err("?zext")
         ELSE IF a.t # LI1 \/ y[1] # LI32 THEN Err("extension between other types") ELSE Ins(k, "", y[1], a.u)
    [] k = "phi" -> LET y == LTy(ts, i + 1) IN IF y[2] = 0 THEN Err("?phi") ELSE LPhi(ts, y[2], y[1], <<>>)
    [] k = "call" ->
         LET y == LTy(ts, i + 1)
             f == At(ts, y[2])
             r == IF At(ts, y[2] + 2) = ")" THEN <<y[2] + 3, <<>>, <<>>, "">> ELSE LArgs(ts, y[2] + 2, <<>>, <<>>)
         IN IF y[2] = 0 \/ At(ts, y[2] + 1) # "(" THEN Err("?call")
            ELSE IF r[1] = 0 THEN Err(r[4])
            ELSE IF ~End(ts, r[1]) THEN Err("?call")
            ELSE IF f \notin DOMAIN fns THEN Err("call of " \o f \o ", which is no function")
            ELSE IF fns[f] # <<y[1], r[3]>> THEN Err("call of " \o f \o " with another type")
            ELSE Ins(k, "", y[1], r[2])
    [] k = "br" /\ At(ts, i + 1) = "label" ->
         IF Is(At(ts, i + 2), "%") /\ End(ts, i + 3) THEN [Ins("term", "", <<"void">>, <<>>) EXCEPT !.to = <<ts[i + 2]>>] ELSE Err("?br")
    [] k = "br" ->
         LET c == LTop(ts, i + 1) IN
         IF c.n = 0 THEN Err(c.e)
         ELSE IF At(ts, c.n) # "," \/ At(ts, c.n + 1) # "label" \/ At(ts, c.n + 3) # "," \/ At(ts, c.n + 4) # "label" \/ ~End(ts, c.n + 6)
              THEN Err("?br")
         ELSE IF c.t # LI1 THEN Err("branch on no i1")
         ELSE [Ins("term", "", <<"void">>, c.u) EXCEPT !.to = <<ts[c.n + 2], ts[c.n + 5]>>]
    [] k = "ret" ->
         IF At(ts, i + 1) = "void" /\ End(ts, i + 2) THEN Ins("term", "ret", <<"void">>, <<>>)
         ELSE LET o == LTop(ts, i + 1) IN
              IF o.n = 0 THEN Err(o.e) ELSE IF ~End(ts, o.n) THEN Err("?ret") ELSE Ins("term", "ret", o.t, o.u)
    [] OTHER -> Err("?instruction " \o k)
LLine(ts, fns) ==
  IF Is(At(ts, 1), "%") /\ At(ts, 2) = "="
  THEN LET i == LInst(ts, 3, fns) IN
       IF i.e # "" THEN i
       ELSE IF i.t = <<"void">> \/ i.k = "term" THEN Err("name for no value") ELSE [i EXCEPT !.def = ts[1]]
  ELSE LInst(ts, 1, fns)

(* ------------------------------- modules --------------------------------- *)
(* Parameters "type name, ...": <<next position or 0, types, names>>. *)
RECURSIVE LParams(_, _, _, _)
LParams(ts, i, tys, nms) ==
  LET y == LTy(ts, i) IN
  IF y[2] = 0 \/ ~Is(At(ts, y[2]), "%") THEN <<0, tys, nms>>
  ELSE IF At(ts, y[2] + 1) = "," THEN LParams(ts, y[2] + 2, Append(tys, y[1]), Append(nms, ts[y[2]]))
  ELSE IF At(ts, y[2] + 1) = ")" THEN <<y[2] + 2, Append(tys, y[1]), Append(nms, ts[y[2]])>> ELSE <<0, tys, nms>>

(* Items: [k |-> "global" | "fn" | "err", nm, t, ps, decl, from, to (lines of the body), e] *)
Item(k, nm, t, pts, ps, a, z, e) == [k |-> k, nm |-> nm, t |-> t, pts |-> pts, ps |-> ps, a |-> a, z |-> z, e |-> e]
BadItem(e) == Item("err", "", <<"void">>, <<>>, <<>>, 0, 0, e)
RECURSIVE LItems(_, _, _), CloseLine(_, _)
CloseLine(ls, i) == IF i > Len(ls) THEN 0 ELSE IF ls[i] = <<"}">> THEN i ELSE CloseLine(ls, i + 1)
LHead(ls, i) ==
  LET ts == ls[i]
      k == ts[1]
      y == LTy(ts, 2)
      nm == At(ts, y[2])
      ps == IF At(ts, y[2] + 2) = ")" THEN <<y[2] + 3, <<>>, <<>>>>
            ELSE IF k = "declare" THEN LET p == LTys(ts, y[2] + 2, <<>>) IN <<p[2], p[1], <<>>>>
            ELSE LParams(ts, y[2] + 2, <<>>, <<>>)
      z == CloseLine(ls, i)
  IN IF Is(k, "@") /\ At(ts, 2) = "=" /\ At(ts, 3) = "global"
     THEN LET o == LTop(ts, 4) IN
          IF o.n = 0 THEN BadItem(o.e)
          ELSE IF ~End(ts, o.n) THEN BadItem("?global")
          ELSE IF o.u # <<>> THEN BadItem("?global initialised with a symbol")
          ELSE Item("global", k, o.t, <<>>, <<>>, i, i, "")
     ELSE IF k \notin {"define", "declare"} THEN BadItem("?item " \o k)
     ELSE IF y[2] = 0 \/ ~Is(nm, "@") \/ At(ts, y[2] + 1) # "(" \/ ps[1] = 0 THEN BadItem("?function header")
     ELSE IF k = "declare" THEN IF End(ts, ps[1]) THEN Item("fn", nm, y[1], ps[2], <<>>, i, i, "") ELSE BadItem("?declaration")
     ELSE IF At(ts, ps[1]) # "{" \/ ~End(ts, ps[1] + 1) THEN BadItem("?function header")
     ELSE IF z = 0 THEN BadItem("function without an end") ELSE Item("fn", nm, y[1], ps[2], ps[3], i, z, "")
LItems(ls, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE IF ls[i] = <<>> THEN LItems(ls, i + 1, acc)
  ELSE LET it == LHead(ls, i) IN IF it.e # "" THEN <<it>> ELSE LItems(ls, it.z + 1, Append(acc, it))

(* Blocks of a body: sequence of [l |-> label, is |-> instructions]. *)
IsLabel(ts) == Len(ts) = 2 /\ ts[2] = ":"
LBlocks(ls, a, z, fns) ==
  LET starts == SetToSortSeq({i \in a + 1..z - 1 : IsLabel(ls[i])}, <)
      end(k) == IF k = Len(starts) THEN z - 1 ELSE starts[k + 1] - 1
  IN [k \in 1..Len(starts) |->
        [l |-> "%" \o ls[starts[k]][1],
         is |-> LET body == SelectSeq(SubSeq(ls, starts[k] + 1, end(k)), LAMBDA x : x # <<>>) IN
                [j \in 1..Len(body) |-> LLine(body[j], fns)]]]
RECURSIVE FirstOf(_, _, _)
(* The first complaint in a sequence. *)
FirstOf(ss, i, z) == IF i > Len(ss) THEN "" ELSE IF ss[i] # "" THEN ss[i] ELSE FirstOf(ss, i + 1, z)
LDups(s) == {s[i] : i \in {i \in 1..Len(s) : \E j \in 1..i - 1 : s[j] = s[i]}}
Some(S) == CHOOSE x \in S : TRUE

JudgeFn(ls, it, globals, fns) ==
  IF it.ps = <<>> /\ it.a = it.z THEN ""  \* declaration
  ELSE
  LET bs == TLCEval(LBlocks(ls, it.a, it.z, fns))
      n == Len(bs)
      faults == Cat([b \in 1..n |-> [j \in 1..Len(bs[b].is) |-> bs[b].is[j].e]])
      labels == [b \in 1..n |-> bs[b].l]
      defs == TLCEval(Cat([b \in 1..n |-> SelectSeq([j \in 1..Len(bs[b].is) |-> <<bs[b].is[j].def, bs[b].is[j].t, b, j>>],
                                            LAMBDA d : Is(d[1], "%"))]))
      all == it.ps \o labels \o [d \in 1..Len(defs) |-> defs[d][1]]
      Lab(s) == SelectInSeq(labels, LAMBDA l : l = s)
      term(b) == bs[b].is[Len(bs[b].is)]
      shape == \A b \in 1..n : /\ bs[b].is # <<>> /\ term(b).k = "term"
                               /\ \A j \in 1..Len(bs[b].is) - 1 : bs[b].is[j].k # "term"
                               /\ \A j \in 2..Len(bs[b].is) : bs[b].is[j].k = "phi" => bs[b].is[j - 1].k = "phi"
      sk == TLCEval([b \in 1..n |-> [t \in 1..Len(term(b).to) |-> Lab(term(b).to[t])]])
      edges == Cat([b \in 1..n |-> [t \in 1..Len(sk[b]) |-> <<b, sk[b][t]>>]])
      preds(b) == SelectSeq(edges, LAMBDA e : e[2] = b)
      reach == Reach(sk)
      dom == TLCEval([b \in 1..n |-> IF b \in reach THEN Dom(sk, b) ELSE {}])
      \* the type of a name, and whether it is defined before place <<b, j>>
      ty == TLCEval([s \in ToSet(it.ps) \cup {d[1] : d \in ToSet(defs)} |->
              IF s \in ToSet(it.ps) THEN it.pts[SelectInSeq(it.ps, LAMBDA p : p = s)]
              ELSE defs[SelectInSeq(defs, LAMBDA d : d[1] = s)][2]])
      at == TLCEval([s \in {d[1] : d \in ToSet(defs)} |-> LET d == defs[SelectInSeq(defs, LAMBDA x : x[1] = s)] IN <<d[3], d[4]>>])
      Before(s, b, j) == \/ s \notin DOMAIN at \/ b \notin reach
                         \/ (at[s][1] = b /\ at[s][2] < j) \/ (at[s][1] # b /\ at[s][1] \in dom[b])
      Use(u, b, j) == IF Is(u[1], "@")
                      THEN IF u[1] \notin DOMAIN globals THEN "use of " \o u[1] \o ", which is no variable"
                           ELSE IF globals[u[1]] # u[2] THEN "use of " \o u[1] \o " with another type" ELSE ""
                      ELSE IF u[1] \notin DOMAIN ty THEN "use of undefined " \o u[1]
                      ELSE IF ty[u[1]] # u[2] THEN "use of " \o u[1] \o " with another type"
                      ELSE IF ~Before(u[1], b, j) THEN u[1] \o " is used where it may not be defined" ELSE ""
      uses == Cat([b \in 1..n |-> Cat([j \in 1..Len(bs[b].is) |->
                LET u == bs[b].is[j].u IN [k \in 1..Len(u) |-> Use(u[k], b, j)]])])
      Phi(i, b) ==
        LET from == [k \in 1..Len(i.ph) |-> Lab(i.ph[k][2])]
            ps == preds(b)
            Count(x) == Len(SelectSeq(from, LAMBDA f : f = x))
            Edges(x) == Len(SelectSeq(ps, LAMBDA e : e[1] = x))
        IN IF \E x \in 0..n : Count(x) # Edges(x) THEN <<"phi " \o i.def \o " does not have one entry per incoming edge">>
           ELSE Cat([k \in 1..Len(i.ph) |-> [m \in 1..Len(i.ph[k][1]) |->
                       Use(i.ph[k][1][m], from[k], Len(bs[from[k]].is) + 1)]])
      phis == Cat([b \in 1..n |-> Cat([j \in 1..Len(bs[b].is) |-> IF bs[b].is[j].k = "phi" THEN Phi(bs[b].is[j], b) ELSE <<>>])])
      rets == [b \in 1..n |-> IF term(b).def = "ret" /\ term(b).t # it.t THEN "return of another type" ELSE ""]
  IN IF ~IsLabel(ls[it.a + 1]) THEN "?body starts without a label"
     ELSE IF n = 0 THEN "function without blocks"
     ELSE IF FirstOf(faults, 1, 0) # "" THEN FirstOf(faults, 1, 0)
     ELSE IF LDups(all) # {} THEN "two entities are named " \o Some(LDups(all))
     ELSE IF ~shape THEN "block of a wrong shape"
     ELSE IF \E b \in 1..n : 0 \in ToSet(sk[b]) THEN "jump to an unknown block"
     ELSE IF \E b \in 1..n : 1 \in ToSet(sk[b]) THEN "jump to the first block"
     ELSE IF FirstOf(rets, 1, 0) # "" THEN FirstOf(rets, 1, 0)
     ELSE IF FirstOf(uses, 1, 0) # "" THEN FirstOf(uses, 1, 0)
     ELSE FirstOf(phis, 1, 0)

JudgeModule(ls) ==
  LET its == TLCEval(LItems(ls, 1, <<>>))
      names == [i \in 1..Len(its) |-> its[i].nm]
      gs == {i \in 1..Len(its) : its[i].k = "global"}
      fs == {i \in 1..Len(its) : its[i].k = "fn"}
      globals == TLCEval([s \in {its[i].nm : i \in gs} |-> LPtr(its[CHOOSE i \in gs : its[i].nm = s].t)])
      fns == TLCEval([s \in {its[i].nm : i \in fs} |-> LET x == its[CHOOSE i \in fs : its[i].nm = s] IN <<x.t, x.pts>>])
  IN IF \E i \in 1..Len(its) : its[i].e # "" THEN its[CHOOSE i \in 1..Len(its) : its[i].e # ""].e
     ELSE IF LDups(names) # {} THEN "two entities are named " \o Some(LDups(names))
     ELSE FirstOf([i \in 1..Len(its) |-> IF its[i].k = "fn" THEN JudgeFn(ls, its[i], globals, fns) ELSE ""], 1, 0)
=============================================================================
