------------------------------ MODULE KoopaIR ------------------------------
(* The in-memory IR of Koopa and the API that edits it, as a state machine. *)
(*                                                                          *)
(* The state of a program is one record S:                                  *)
(*   S.v   sequence of values, live or dead; position = handle              *)
(*         [live, own, k, ty, nm, ops, bbs, x, fn, n, uses]                 *)
(*         own  0 = global, otherwise the function that owns the value      *)
(*         k    kind; x its attribute (integer, operator, index) as string  *)
(*         ops  operands in slot order; bbs target blocks in slot order     *)
(*         fn   callee (0 = none); n number of true arguments of a branch   *)
(*         uses the recorded users                                          *)
(*   S.b   sequence of blocks   [live, own, nm, ps, uses]                   *)
(*   S.f   sequence of functions [live, nm, pts, rt, ps, decl, lay]         *)
(*         lay  layout: sequence of [b, is] (block and its instructions)    *)
(*         and held: blocks' parents as recorded, see Par                   *)
(*   S.par recorded parent of each placed instruction: function from value  *)
(*         to block (0 = none)                                              *)
(*   S.gl  order of global allocations, S.fl order of functions             *)
(*                                                                          *)
(* Every API call is a total operator Do...(S, ...) guarded by Ok...(S,...).*)
(* IRSim.tla walks them at random to get behaviours that are replayed on    *)
(* the implementation; IRMC.tla explores them exhaustively.                 *)
EXTENDS KTypes, Integers, FiniteSets, SequencesExt

Empty == [v |-> <<>>, b |-> <<>>, f |-> <<>>, par |-> <<>>, gl |-> <<>>, fl |-> <<>>]

ConstK == {"int", "zero", "undef", "agg"}
ArgK   == {"farg", "barg"}
InstK  == {"alloc", "load", "store", "getptr", "getelemptr", "binary",
           "branch", "jump", "call", "ret"}

(* ------------------------------ queries --------------------------------- *)
LiveV(S)       == {i \in 1..Len(S.v) : S.v[i].live}
LiveB(S, f)    == {i \in 1..Len(S.b) : S.b[i].live /\ S.b[i].own = f}
LiveF(S)       == {i \in 1..Len(S.f) : S.f[i].live}
Globals(S)     == {i \in LiveV(S) : S.v[i].own = 0}
Locals(S, f)   == {i \in LiveV(S) : S.v[i].own = f}
Visible(S, f)  == {i \in LiveV(S) : S.v[i].own \in {0, f}}
ValTy(S, i)    == S.v[i].ty
FnTy(S, f)     == Fun(S.f[f].pts, S.f[f].rt)
BParTys(S, b)  == [i \in 1..Len(S.b[b].ps) |-> ValTy(S, S.b[b].ps[i])]
OpTys(S, ops)  == [i \in 1..Len(ops) |-> ValTy(S, ops[i])]
Placed(S, f)   == UNION {ToSet(S.f[f].lay[i].is) : i \in 1..Len(S.f[f].lay)}
LayBBs(S, f)   == {S.f[f].lay[i].b : i \in 1..Len(S.f[f].lay)}

(* ------------------------- typing of candidates ------------------------- *)
(* A candidate c = [k, ops, bbs, x, fn, n, ty] asks for a value of kind k.  *)
(* ty is the type argument of alloc/zero/undef.                             *)
TArgs(c) == SubSeq(c.ops, 2, 1 + c.n)
FArgs(c) == SubSeq(c.ops, 2 + c.n, Len(c.ops))

Typed(S, f, c) ==
  LET o == c.ops
      T(i) == ValTy(S, o[i])
  IN /\ \A i \in 1..Len(o) : o[i] \in Visible(S, f)
     /\ \A i \in 1..Len(c.bbs) : c.bbs[i] \in LiveB(S, f)
     /\ CASE c.k = "int"   -> TRUE
          [] c.k \in {"zero", "undef", "alloc"} -> ~IsUnit(c.ty)
          [] c.k = "agg"   -> /\ Len(o) > 0
                              /\ \A i \in 1..Len(o) : S.v[o[i]].k \in ConstK
                              /\ \A i \in 1..Len(o) : T(i) = T(1)
                              /\ ~IsUnit(T(1))
          [] c.k = "galloc"-> ~IsUnit(T(1))
          [] c.k = "load"  -> IsPtr(T(1))
          [] c.k = "store" -> T(2) = Ptr(T(1))
          [] c.k = "getptr"-> IsPtr(T(1)) /\ IsI32(T(2))
          [] c.k = "getelemptr" -> IsPtr(T(1)) /\ IsArr(Base(T(1))) /\ IsI32(T(2))
          [] c.k = "binary"-> IsI32(T(1)) /\ IsI32(T(2))
          [] c.k = "branch"-> /\ IsI32(T(1))
                              /\ c.bbs[1] = c.bbs[2] => Len(o) = 1
                              /\ OpTys(S, TArgs(c)) = BParTys(S, c.bbs[1])
                              /\ OpTys(S, FArgs(c)) = BParTys(S, c.bbs[2])
          [] c.k = "jump"  -> OpTys(S, o) = BParTys(S, c.bbs[1])
          [] c.k = "call"  -> c.fn \in LiveF(S) /\ OpTys(S, o) = S.f[c.fn].pts
          [] c.k = "ret"   -> Len(o) = 0 \/ ~IsUnit(T(1))
          [] OTHER -> FALSE

ResTy(S, c) ==
  LET T(i) == ValTy(S, c.ops[i])
  IN CASE c.k = "int"  -> I32
       [] c.k \in {"zero", "undef"} -> c.ty
       [] c.k = "alloc"  -> Ptr(c.ty)
       [] c.k = "agg"    -> Arr(T(1), Len(c.ops))
       [] c.k = "galloc" -> Ptr(T(1))
       [] c.k = "load"   -> Base(T(1))
       [] c.k = "getptr" -> T(1)
       [] c.k = "getelemptr" -> Ptr(Base(Base(T(1))))
       [] c.k = "binary" -> I32
       [] c.k = "call"   -> S.f[c.fn].rt
       [] OTHER -> Unit

(* --------------------- bookkeeping of users ------------------------------ *)
AddVUses(v, ops, u) ==
  [i \in 1..Len(v) |-> IF i \in ToSet(ops) THEN [v[i] EXCEPT !.uses = @ \cup {u}] ELSE v[i]]
DelVUses(v, ops, u) ==
  [i \in 1..Len(v) |-> IF i \in ToSet(ops) THEN [v[i] EXCEPT !.uses = @ \ {u}] ELSE v[i]]
AddBUses(b, bbs, u) ==
  [i \in 1..Len(b) |-> IF i \in ToSet(bbs) THEN [b[i] EXCEPT !.uses = @ \cup {u}] ELSE b[i]]
DelBUses(b, bbs, u) ==
  [i \in 1..Len(b) |-> IF i \in ToSet(bbs) THEN [b[i] EXCEPT !.uses = @ \ {u}] ELSE b[i]]

Unlink(S, u) == [S EXCEPT !.v = DelVUses(@, S.v[u].ops, u), !.b = DelBUses(@, S.v[u].bbs, u)]
Link(S, u)   == [S EXCEPT !.v = AddVUses(@, S.v[u].ops, u), !.b = AddBUses(@, S.v[u].bbs, u)]

Val(f, c, ty, nm) ==
  [live |-> TRUE, own |-> f, k |-> c.k, ty |-> ty, nm |-> nm, ops |-> c.ops,
   bbs |-> c.bbs, x |-> c.x, fn |-> c.fn, n |-> c.n, uses |-> {}]
ArgVal(f, k, i, ty, nm) ==
  [live |-> TRUE, own |-> f, k |-> k, ty |-> ty, nm |-> nm, ops |-> <<>>,
   bbs |-> <<>>, x |-> ToString(i - 1), fn |-> 0, n |-> 0, uses |-> {}]

(* ------------------------------ creation -------------------------------- *)
DoNew(S, f, c) ==
  LET id == Len(S.v) + 1
      S1 == [S EXCEPT !.v = Append(@, Val(f, c, ResTy(S, c), "")), !.par = Append(@, 0)]
      S2 == Link(S1, id)
  IN IF c.k = "galloc" THEN [S2 EXCEPT !.gl = Append(@, id)] ELSE S2

(* A copy of the data of an existing value (its name included). *)
DoRaw(S, f, src) ==
  LET id == Len(S.v) + 1
      S1 == [S EXCEPT !.v = Append(@, [S.v[src] EXCEPT !.own = f, !.uses = {}]), !.par = Append(@, 0)]
  IN Link(S1, id)

DoReplace(S, f, v, c) ==
  LET S1 == Unlink(S, v)
      S2 == [S1 EXCEPT !.v[v] = [Val(f, c, ResTy(S, c), "") EXCEPT !.uses = S1.v[v].uses]]
  IN Link(S2, v)

DoReplaceRaw(S, f, v, src) ==
  LET S1 == Unlink(S, v)
      S2 == [S1 EXCEPT !.v[v] = [S.v[src] EXCEPT !.own = f, !.uses = S1.v[v].uses]]
  IN Link(S2, v)

(* In-place update: the whole attribute part of v becomes d's. *)
DoUpdate(S, v, d) ==
  LET S1 == Unlink(S, v)
      S2 == [S1 EXCEPT !.v[v] = [@ EXCEPT !.ops = d.ops, !.bbs = d.bbs, !.x = d.x, !.fn = d.fn, !.n = d.n]]
  IN Link(S2, v)

DoNewFunc(S, nm, pts, pns, rt, decl) ==
  LET f  == Len(S.f) + 1
      n  == Len(S.v)
      np == IF decl THEN 0 ELSE Len(pts)
      ps == [i \in 1..np |-> n + i]
  IN [S EXCEPT
       !.f = Append(@, [live |-> TRUE, nm |-> nm, pts |-> pts, rt |-> rt, ps |-> ps,
                        decl |-> decl, lay |-> <<>>]),
       !.fl = Append(@, f),
       !.v = @ \o [i \in 1..np |-> ArgVal(f, "farg", i, pts[i], pns[i])],
       !.par = @ \o [i \in 1..np |-> 0]]

DoNewBB(S, f, nm, pts, pns) ==
  LET n == Len(S.v)
      np == Len(pts)
  IN [S EXCEPT
       !.b = Append(@, [live |-> TRUE, own |-> f, nm |-> nm, ps |-> [i \in 1..np |-> n + i], uses |-> {}]),
       !.v = @ \o [i \in 1..np |-> ArgVal(f, "barg", i, pts[i], pns[i])],
       !.par = @ \o [i \in 1..np |-> 0]]

(* ------------------------------ removal --------------------------------- *)
OkRemoveVal(S, v) == v \in LiveV(S) /\ S.v[v].uses = {}
DoRemoveVal(S, v) ==
  LET S1 == Unlink(S, v)
      S2 == [S1 EXCEPT !.v[v].live = FALSE]
  IN IF S.v[v].k = "galloc" THEN [S2 EXCEPT !.gl = SelectSeq(@, LAMBDA g : g # v)] ELSE S2

OkRemoveBB(S, b) ==
  /\ S.b[b].live /\ S.b[b].uses = {}
  /\ \A i \in 1..Len(S.b[b].ps) : S.v[S.b[b].ps[i]].live /\ S.v[S.b[b].ps[i]].uses = {}
DoRemoveBB(S, b) ==
  [S EXCEPT !.b[b].live = FALSE,
            !.v = [i \in 1..Len(@) |-> IF i \in ToSet(S.b[b].ps) THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]]]

OkRemoveFunc(S, f) == f \in LiveF(S)
DoRemoveFunc(S, f) ==
  LET mine == Locals(S, f)
  IN [S EXCEPT
       !.f[f].live = FALSE,
       !.fl = SelectSeq(@, LAMBDA g : g # f),
       !.b = [i \in 1..Len(@) |-> IF @[i].own = f THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]],
       !.v = [i \in 1..Len(@) |-> IF i \in mine THEN [@[i] EXCEPT !.live = FALSE]
                                  ELSE IF @[i].own = 0 THEN [@[i] EXCEPT !.uses = @ \ mine]
                                  ELSE @[i]]]

(* ------------------------------- layout --------------------------------- *)
BBPos(S, f, b) == CHOOSE i \in 1..Len(S.f[f].lay) : S.f[f].lay[i].b = b
InsAt(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
DelAt(s, i)    == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IdxOf(s, e)    == CHOOSE i \in 1..Len(s) : s[i] = e

SetPar(S, vs, b) == [S EXCEPT !.par = [i \in 1..Len(@) |-> IF i \in vs THEN b ELSE @[i]]]

(* Insert block b so that it becomes number pos of the layout. *)
DoBBIns(S, f, pos, b) == [S EXCEPT !.f[f].lay = InsAt(@, pos, [b |-> b, is |-> <<>>])]
DoBBRemove(S, f, b) ==
  LET p == BBPos(S, f, b)
  IN SetPar([S EXCEPT !.f[f].lay = DelAt(@, p)], ToSet(S.f[f].lay[p].is), 0)
DoBBClear(S, f) == SetPar([S EXCEPT !.f[f].lay = <<>>], Placed(S, f), 0)

DoInstIns(S, f, b, pos, v) ==
  LET p == BBPos(S, f, b)
  IN SetPar([S EXCEPT !.f[f].lay[p].is = InsAt(@, pos, v)], {v}, b)
DoInstRemove(S, f, b, v) ==
  LET p == BBPos(S, f, b)
      s == S.f[f].lay[p].is
  IN SetPar([S EXCEPT !.f[f].lay[p].is = DelAt(@, IdxOf(s, v))], {v}, 0)
DoInstClear(S, f, b) ==
  LET p == BBPos(S, f, b)
  IN SetPar([S EXCEPT !.f[f].lay[p].is = <<>>], ToSet(S.f[f].lay[p].is), 0)

(* ------------------------ structural equality --------------------------- *)
RECURSIVE VEq(_, _, _)
VEq(S, i, j) ==
  LET a == S.v[i]
      b == S.v[j]
  IN /\ a.ty = b.ty /\ a.k = b.k /\ a.x = b.x /\ a.fn = b.fn /\ a.bbs = b.bbs /\ a.n = b.n
     /\ Len(a.ops) = Len(b.ops)
     /\ \A p \in 1..Len(a.ops) : VEq(S, a.ops[p], b.ops[p])

(* Values reachable through operands (used to keep the graph acyclic). *)
RECURSIVE Reach(_, _)
Reach(S, todo) ==
  LET nxt == todo \cup UNION {ToSet(S.v[i].ops) : i \in todo}
  IN IF nxt = todo THEN todo ELSE Reach(S, nxt)

(* ------------------------------ invariants ------------------------------ *)
(* C01: recorded users = actual users, for values and for blocks. *)
UsesExact(S) ==
  /\ \A i \in LiveV(S) : S.v[i].uses = {j \in LiveV(S) : i \in ToSet(S.v[j].ops)}
  /\ \A i \in 1..Len(S.b) : S.b[i].live =>
       S.b[i].uses = {j \in LiveV(S) : i \in ToSet(S.v[j].bbs)}
(* C02: recorded parent = actual position; an instruction is placed once. *)
ParentExact(S) ==
  \A f \in LiveF(S) : \A i \in Locals(S, f) :
    LET at == {p \in 1..Len(S.f[f].lay) : i \in ToSet(S.f[f].lay[p].is)}
    IN /\ Cardinality(at) <= 1
       /\ S.par[i] = IF at = {} THEN 0 ELSE S.f[f].lay[CHOOSE p \in at : TRUE].b
LayoutDistinct(S) ==
  \A f \in LiveF(S) : Cardinality(LayBBs(S, f)) = Len(S.f[f].lay)
(* C03: every live value is typed as its operands demand. *)
AsCand(S, i) == [k |-> S.v[i].k, ops |-> S.v[i].ops, bbs |-> S.v[i].bbs, x |-> S.v[i].x,
                 fn |-> S.v[i].fn, n |-> S.v[i].n,
                 ty |-> IF S.v[i].k = "alloc" THEN Base(S.v[i].ty) ELSE S.v[i].ty]
AllTyped(S) ==
  \A i \in LiveV(S) : S.v[i].k \in ArgK \/
    (Typed(S, S.v[i].own, AsCand(S, i)) /\ ResTy(S, AsCand(S, i)) = S.v[i].ty)
(* C04: nothing live refers to something dead. *)
NoDangling(S) ==
  \A i \in LiveV(S) :
    /\ ToSet(S.v[i].ops) \subseteq LiveV(S)
    /\ \A k \in 1..Len(S.v[i].bbs) : S.b[S.v[i].bbs[k]].live
GlobalsClosed(S) ==
  /\ \A i \in Globals(S) : \A p \in ToSet(S.v[i].ops) : S.v[p].own = 0
  /\ ToSet(S.gl) = {i \in Globals(S) : S.v[i].k = "galloc"}
  /\ ToSet(S.fl) = LiveF(S)
(* C07: structural equality is an equivalence. *)
EqEquivalence(S) ==
  \A f \in LiveF(S) : LET V == Visible(S, f) IN
    /\ \A i \in V : VEq(S, i, i)
    /\ \A i, j \in V : VEq(S, i, j) = VEq(S, j, i)
    /\ \A i, j, k \in V : VEq(S, i, j) /\ VEq(S, j, k) => VEq(S, i, k)
============================================================================
