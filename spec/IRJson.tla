------------------------------- MODULE IRJson -------------------------------
(* How calls and states of KoopaIR are written down for the harness: shared  *)
(* by the random walks (IRSim) and the exhaustive tables (Table).            *)
EXTENDS KoopaIR, Json

Cand(k, ops, bbs, x, fn, n, ty) ==
  [k |-> k, ops |-> ops, bbs |-> bbs, x |-> x, fn |-> fn, n |-> n, ty |-> ty]

(* --------------------------- JSON projection ---------------------------- *)
VJ(T, i) == LET r == T.v[i] IN
  [i |-> i, live |-> r.live, own |-> r.own, k |-> r.k, ty |-> TyStr(r.ty), nm |-> r.nm,
   ops |-> r.ops, bbs |-> r.bbs, x |-> r.x, fn |-> r.fn, n |-> r.n, uses |-> SetToSeq(r.uses)]
BJ(T, i) == LET r == T.b[i] IN
  [i |-> i, live |-> r.live, own |-> r.own, nm |-> r.nm, ps |-> r.ps, uses |-> SetToSeq(r.uses)]
FJ(T, i) == LET r == T.f[i] IN
  [i |-> i, live |-> r.live, nm |-> r.nm, ty |-> TyStr(FnTy(T, i)), ps |-> r.ps,
   decl |-> r.decl, lay |-> r.lay]
Changed(a, b) == {i \in 1..Len(b) : i > Len(a) \/ (i <= Len(a) /\ a[i] # b[i])}

Delta(A, B) ==
  [dv |-> SetToSeq({VJ(B, i) : i \in Changed(A.v, B.v)}),
   db |-> SetToSeq({BJ(B, i) : i \in Changed(A.b, B.b)}),
   df |-> SetToSeq({FJ(B, i) : i \in Changed(A.f, B.f)}),
   gl |-> B.gl, fl |-> B.fl]

EvC(op, f, c) == [op |-> op, f |-> f, k |-> c.k, ops |-> c.ops, bbs |-> c.bbs, x |-> c.x,
                  fn |-> c.fn, n |-> c.n, ty |-> TyStr(c.ty)]

=============================================================================
