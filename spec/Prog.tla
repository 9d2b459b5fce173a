-------------------------------- MODULE Prog --------------------------------
(* Whole Koopa IR programs as terms: operands, types of operands, control-   *)
(* flow graphs, dominance, breadth-first order, and the two concrete forms   *)
(* of a program that the implementation is compared with:                    *)
(*   PJ    the listing: every entity with its kind, type, name, attributes   *)
(*         and operands, in order (what a program IS);                       *)
(*   Text  the text form, in which every symbol is a placeholder             *)
(*         $g1 $f2 $f2p1 $f2b3 $f2b3p1 $f2b3i4 naming an entity, so that     *)
(*         names can be filled in (parsing) or recovered (printing).         *)
(*                                                                           *)
(* A program is [gs, fs]:                                                    *)
(*   gs[i] = [nm, init]               init: a constant operand               *)
(*   fs[i] = [nm, decl, pts, pnm, rt, bs]                                    *)
(*   bs[i] = [nm, pts, pnm, is]                                              *)
(*   is[i] = [k, ty, nm, ops, x, fn, bbs, n]                                 *)
(*     ty result type, x operator of a binary, fn callee, bbs targets,       *)
(*     n number of arguments of the true target                              *)
(* Blocks are numbered in layout order, the first is the entry.              *)
EXTENDS KTypes, Integers, FiniteSets, SequencesExt, Json

G(i)       == <<"g", i>>
Pm(i)      == <<"p", i>>
Bp(b, i)   == <<"bp", b, i>>
In(b, i)   == <<"i", b, i>>
Lit(n)     == <<"int", n>>
Und(t)     == <<"undef", t>>
Zero(t)    == <<"zero", t>>
Agg(t, os) == <<"agg", t, os>>

IsConst(o) == o[1] \in {"int", "undef", "zero", "agg"}

OTy(P, f, o) ==
  CASE o[1] = "int" -> I32
    [] o[1] \in {"undef", "zero", "agg"} -> o[2]
    [] o[1] = "g"  -> Ptr(P.gs[o[2]].ty)
    [] o[1] = "p"  -> P.fs[f].pts[o[2]]
    [] o[1] = "bp" -> P.fs[f].bs[o[2]].pts[o[3]]
    [] OTHER       -> P.fs[f].bs[o[2]].is[o[3]].ty

Inst(k, ty, ops, x, fn, bbs, n) ==
  [k |-> k, ty |-> ty, nm |-> "", ops |-> ops, x |-> x, fn |-> fn, bbs |-> bbs, n |-> n]

TermK == {"branch", "jump", "ret"}

(* ------------------------- control-flow graphs --------------------------- *)
(* A skeleton is a sequence of target sequences, one per block.              *)
RECURSIVE ReachFrom(_, _, _)
ReachFrom(sk, seen, avoid) ==
  LET nxt == (UNION {ToSet(sk[b]) : b \in seen}) \ (seen \cup avoid)
  IN IF nxt = {} THEN seen ELSE ReachFrom(sk, seen \cup nxt, avoid)
Reach(sk) == ReachFrom(sk, {1}, {})

(* d dominates b: every path from the entry to b goes through d. *)
Dom(sk, b) == {d \in Reach(sk) : d = b \/ d = 1 \/ b \notin ReachFrom(sk, {1}, {d})}

RECURSIVE BfsQ(_, _, _)
BfsQ(sk, queue, done) ==
  IF queue = <<>> THEN done
  ELSE LET b == Head(queue) IN
       IF b \in ToSet(done) THEN BfsQ(sk, Tail(queue), done)
       ELSE BfsQ(sk, Tail(queue) \o sk[b], Append(done, b))
(* First-in first-out, true target before false target. *)
Bfs(sk) == BfsQ(sk, <<1>>, <<>>)

Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
(* The skeleton restricted to the blocks of `order`, renumbered. *)
Renumber(sk, order) ==
  TLCEval([i \in 1..Len(order) |-> [j \in 1..Len(sk[order[i]]) |-> Index(order, sk[order[i]][j])]])

Skel(F) == [b \in 1..Len(F.bs) |->
              LET is == F.bs[b].is IN IF is = <<>> THEN <<>> ELSE is[Len(is)].bbs]

(* ------------------------------- listing --------------------------------- *)
RECURSIVE OpS(_), OpSs(_, _)
OpS(o) ==
  CASE o[1] = "g"   -> "g" \o ToString(o[2])
    [] o[1] = "p"   -> "p" \o ToString(o[2])
    [] o[1] = "bp"  -> "b" \o ToString(o[2]) \o "." \o ToString(o[3])
    [] o[1] = "i"   -> "i" \o ToString(o[2]) \o "." \o ToString(o[3])
    [] o[1] = "int" -> "#" \o ToString(o[2])
    [] o[1] = "undef" -> "undef:" \o TyStr(o[2])
    [] o[1] = "zero"  -> "zero:" \o TyStr(o[2])
    [] OTHER -> "agg{" \o OpSs(o[3], 1) \o "}"
OpSs(os, i) == IF i > Len(os) THEN ""
               ELSE (IF i > 1 THEN "; " ELSE "") \o OpS(os[i]) \o OpSs(os, i + 1)
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

IJ(i) == [k |-> i.k, ty |-> TyStr(i.ty), nm |-> i.nm, ops |-> MapSeq(i.ops, OpS), x |-> i.x,
          fn |-> i.fn, bbs |-> i.bbs, n |-> i.n]
BJ(b) == [nm |-> b.nm, pts |-> MapSeq(b.pts, TyStr), pnm |-> b.pnm, is |-> MapSeq(b.is, IJ)]
FJ(f) == [nm |-> f.nm, decl |-> f.decl, pts |-> MapSeq(f.pts, TyStr), pnm |-> f.pnm, rt |-> TyStr(f.rt),
          bs |-> MapSeq(f.bs, BJ)]
GJ(g) == [nm |-> g.nm, init |-> OpS(g.init)]
PJ(P) == [gs |-> MapSeq(P.gs, GJ), fs |-> MapSeq(P.fs, FJ)]

(* --------------------------------- text ---------------------------------- *)
N(i) == ToString(i)
SymG(i)       == "$g" \o N(i)
SymF(f)       == "$f" \o N(f)
SymP(f, i)    == SymF(f) \o "p" \o N(i)
SymB(f, b)    == SymF(f) \o "b" \o N(b)
SymBp(f, b, i) == SymB(f, b) \o "p" \o N(i)
SymI(f, b, i) == SymB(f, b) \o "i" \o N(i)

RECURSIVE OpT(_, _), OpTs(_, _, _)
OpT(f, o) ==
  CASE o[1] = "g"   -> SymG(o[2])
    [] o[1] = "p"   -> SymP(f, o[2])
    [] o[1] = "bp"  -> SymBp(f, o[2], o[3])
    [] o[1] = "i"   -> SymI(f, o[2], o[3])
    [] o[1] = "int" -> ToString(o[2])
    [] o[1] = "undef" -> "undef"
    [] o[1] = "zero"  -> "zeroinit"
    [] OTHER -> "{" \o OpTs(f, o[3], 1) \o "}"
OpTs(f, os, i) == IF i > Len(os) THEN ""
                  ELSE (IF i > 1 THEN ", " ELSE "") \o OpT(f, os[i]) \o OpTs(f, os, i + 1)

Target(f, b, os) == SymB(f, b) \o (IF os = <<>> THEN "" ELSE "(" \o OpTs(f, os, 1) \o ")")

RECURSIVE PmT(_, _, _, _)
PmT(sym(_), ts, i, z) ==
  IF i > Len(ts) THEN ""
  ELSE (IF i > 1 THEN ", " ELSE "") \o sym(i) \o ": " \o TyStr(ts[i]) \o PmT(sym, ts, i + 1, z)

(* `bare`: a call whose value is not named. *)
InstT(f, b, j, i, bare) ==
  LET O(m) == OpT(f, i.ops[m])
      def == IF IsUnit(i.ty) \/ bare THEN "" ELSE SymI(f, b, j) \o " = "
  IN def \o
     CASE i.k = "alloc"  -> "alloc " \o TyStr(Base(i.ty))
       [] i.k = "load"   -> "load " \o O(1)
       [] i.k = "store"  -> "store " \o O(1) \o ", " \o O(2)
       [] i.k \in {"getptr", "getelemptr"} -> i.k \o " " \o O(1) \o ", " \o O(2)
       [] i.k = "binary" -> i.x \o " " \o O(1) \o ", " \o O(2)
       [] i.k = "branch" -> "br " \o O(1) \o ", " \o Target(f, i.bbs[1], SubSeq(i.ops, 2, 1 + i.n))
                            \o ", " \o Target(f, i.bbs[2], SubSeq(i.ops, 2 + i.n, Len(i.ops)))
       [] i.k = "jump"   -> "jump " \o Target(f, i.bbs[1], i.ops)
       [] i.k = "call"   -> "call " \o SymF(i.fn) \o "(" \o OpTs(f, i.ops, 1) \o ")"
       [] OTHER -> IF i.ops = <<>> THEN "ret" ELSE "ret " \o O(1)

BlockT(f, b, B, Bare(_, _, _)) ==
  << SymB(f, b) \o (IF B.pts = <<>> THEN ""
                    ELSE "(" \o PmT(LAMBDA i : SymBp(f, b, i), B.pts, 1, 0) \o ")") \o ":" >>
  \o [j \in 1..Len(B.is) |-> InstT(f, b, j, B.is[j], Bare(f, b, j))]

Cat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

(* `order`: the order in which blocks are written; `extra`: further lines.   *)
FunT(f, F, order, extra, Bare(_, _, _)) ==
  LET r == IF IsUnit(F.rt) THEN "" ELSE ": " \o TyStr(F.rt)
  IN IF F.decl
     THEN <<"decl " \o SymF(f) \o "(" \o
            FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN ", " ELSE "") \o TyStr(F.pts[i]), "",
                     [i \in 1..Len(F.pts) |-> i]) \o ")" \o r>>
     ELSE <<"fun " \o SymF(f) \o "(" \o PmT(LAMBDA i : SymP(f, i), F.pts, 1, 0) \o ")" \o r \o " {">>
          \o Cat([i \in 1..Len(order) |-> BlockT(f, order[i], F.bs[order[i]], Bare)])
          \o extra \o <<"}">>
GlobT(i, g) == "global " \o SymG(i) \o " = alloc " \o TyStr(g.ty) \o ", " \o OpT(0, g.init)

NoBare(f, b, j) == FALSE
Ids(n) == [i \in 1..n |-> i]
(* The text of a program as the printer must lay it out. *)
Text(P) ==
  [i \in 1..Len(P.gs) |-> GlobT(i, P.gs[i])]
  \o Cat([f \in 1..Len(P.fs) |-> FunT(f, P.fs[f], Ids(Len(P.fs[f].bs)), <<>>, NoBare)])

(* All placeholders of a program, with the entity's scope (0 = global).      *)
Entities(P) ==
  [i \in 1..Len(P.gs) |-> <<SymG(i), 0>>] \o [i \in 1..Len(P.fs) |-> <<SymF(i), 0>>]
  \o Cat([f \in 1..Len(P.fs) |->
       IF P.fs[f].decl THEN <<>> ELSE
       [i \in 1..Len(P.fs[f].pts) |-> <<SymP(f, i), f>>]
       \o Cat([b \in 1..Len(P.fs[f].bs) |->
            <<<<SymB(f, b), f>>>> \o [i \in 1..Len(P.fs[f].bs[b].pts) |-> <<SymBp(f, b, i), f>>]
            \o SelectSeq([i \in 1..Len(P.fs[f].bs[b].is) |->
                            <<IF IsUnit(P.fs[f].bs[b].is[i].ty) THEN "" ELSE SymI(f, b, i), f>>],
                         LAMBDA e : e[1] # "")])])

(* -------------------------- static correctness --------------------------- *)
(* Operands visible at the end of block b of function f, given its           *)
(* dominators: a sequence of <<operand, type>>.                              *)
VisOf(P, f, doms) ==
  [i \in 1..Len(P.gs) |-> <<G(i), Ptr(P.gs[i].ty)>>]
  \o [i \in 1..Len(P.fs[f].pts) |-> <<Pm(i), P.fs[f].pts[i]>>]
  \o Cat([m \in 1..Len(doms) |->
       LET b == doms[m]  B == P.fs[f].bs[b] IN
       [i \in 1..Len(B.pts) |-> <<Bp(b, i), B.pts[i]>>]
       \o SelectSeq([i \in 1..Len(B.is) |-> <<In(b, i), B.is[i].ty>>], LAMBDA e : ~IsUnit(e[2]))])

RECURSIVE ConstOk(_)
ConstOk(o) == o[1] = "agg" =>
  /\ IsArr(o[2]) /\ Len(o[3]) = ArrLen(o[2])
  /\ \A i \in 1..Len(o[3]) : ConstOk(o[3][i]) /\ IsConst(o[3][i])
                             /\ (IF o[3][i][1] = "int" THEN I32 ELSE o[3][i][2]) = Base(o[2])

InstOk(P, f, i) ==
  LET T(m) == OTy(P, f, i.ops[m])
      Ts(a, b) == [m \in 1..(b - a + 1) |-> T(a + m - 1)]
      Bt(b) == P.fs[f].bs[b].pts
  IN /\ \A m \in 1..Len(i.ops) : IsConst(i.ops[m]) => ConstOk(i.ops[m])
     /\ CASE i.k = "alloc" -> IsPtr(i.ty)
          [] i.k = "load"  -> T(1) = Ptr(i.ty)
          [] i.k = "store" -> T(2) = Ptr(T(1))
          [] i.k = "getptr" -> IsPtr(T(1)) /\ i.ty = T(1) /\ T(2) = I32
          [] i.k = "getelemptr" -> IsPtr(T(1)) /\ IsArr(Base(T(1))) /\ i.ty = Ptr(Base(Base(T(1)))) /\ T(2) = I32
          [] i.k = "binary" -> T(1) = I32 /\ T(2) = I32 /\ i.ty = I32
          [] i.k = "call"  -> i.ty = P.fs[i.fn].rt /\ Ts(1, Len(i.ops)) = P.fs[i.fn].pts
          [] i.k = "jump"  -> i.bbs[1] # 1 /\ Ts(1, Len(i.ops)) = Bt(i.bbs[1])
          [] i.k = "branch" -> /\ T(1) = I32 /\ i.bbs[1] # 1 /\ i.bbs[2] # 1
                               /\ (i.bbs[1] = i.bbs[2] => Len(i.ops) = 1)
                               /\ Ts(2, 1 + i.n) = Bt(i.bbs[1])
                               /\ Ts(2 + i.n, Len(i.ops)) = Bt(i.bbs[2])
          [] i.k = "ret"   -> IF IsUnit(P.fs[f].rt) THEN i.ops = <<>> ELSE Len(i.ops) = 1 /\ T(1) = P.fs[f].rt
          [] OTHER -> FALSE

(* Every operand of the i-th instruction of block b is defined on every path *)
(* that leads there: no path leads to a block that can not be reached.       *)
DefOk(P, f, sk, b, j) ==
  \A m \in 1..Len(P.fs[f].bs[b].is[j].ops) :
    LET o == P.fs[f].bs[b].is[j].ops[m] IN
    CASE o[1] = "g" -> o[2] \in 1..Len(P.gs)
      [] o[1] = "bp" -> o[2] = b \/ o[2] \in Dom(sk, b)
      [] o[1] = "i" -> (o[2] = b /\ o[3] < j) \/ (o[2] # b /\ o[2] \in Dom(sk, b))
      [] OTHER -> TRUE

WellFormed(P) ==
  /\ \A i \in 1..Len(P.gs) : IsConst(P.gs[i].init) /\ ConstOk(P.gs[i].init) /\ P.gs[i].ty = OTy(P, 0, P.gs[i].init)
  /\ \A f \in 1..Len(P.fs) : ~P.fs[f].decl =>
       LET sk == Skel(P.fs[f]) IN
       /\ Len(P.fs[f].bs) > 0
       /\ P.fs[f].bs[1].pts = <<>>
       /\ \A b \in 1..Len(P.fs[f].bs) :
            LET is == P.fs[f].bs[b].is IN
            /\ is # <<>> /\ is[Len(is)].k \in TermK
            /\ \A j \in 1..Len(is) - 1 : is[j].k \notin TermK
            /\ \A j \in 1..Len(is) : InstOk(P, f, is[j]) /\ DefOk(P, f, sk, b, j)
=============================================================================
