------------------------------ MODULE FrontSim ------------------------------
(* Token sequences with their meaning: well-formed programs of ProgSim       *)
(* (Mode "text"), written out as tokens and then damaged token by token or   *)
(* line by line.  The meaning of the result is decided by Front!Meaning, so  *)
(* a damaged text may be well formed again and then denotes another program. *)
EXTENDS ProgSim, Places, LexGen

CONSTANTS Damage, \* how many times out of 10 a text is damaged
          Reports,\* TRUE: say where a report has to point
          Spell   \* 0: tokens; 1: characters, with any separators; 2: damaged characters too

(* ------------------------------ writing out ------------------------------ *)
RECURSIVE OpTk(_, _, _), OpsTk(_, _, _, _)
OpTk(nf, f, o) ==
  CASE o[1] = "g"   -> <<nf[SymG(o[2])]>>
    [] o[1] = "p"   -> <<nf[SymP(f, o[2])]>>
    [] o[1] = "bp"  -> <<nf[SymBp(f, o[2], o[3])]>>
    [] o[1] = "i"   -> <<nf[SymI(f, o[2], o[3])]>>
    [] o[1] = "int" -> <<ToString(o[2])>>
    [] o[1] = "undef" -> <<"undef">>
    [] o[1] = "zero"  -> <<"zeroinit">>
    [] OTHER -> <<"{">> \o OpsTk(nf, f, o[3], 1) \o <<"}">>
OpsTk(nf, f, os, i) == IF i > Len(os) THEN <<>> ELSE (IF i > 1 THEN <<",">> ELSE <<>>) \o OpTk(nf, f, os[i]) \o OpsTk(nf, f, os, i + 1)
TgtTk(nf, f, b, os) == <<nf[SymB(f, b)]>> \o (IF os = <<>> THEN <<>> ELSE <<"(">> \o OpsTk(nf, f, os, 1) \o <<")">>)
RECURSIVE PmTk(_, _, _, _)
PmTk(nf, sym(_), ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE (IF i > 1 THEN <<",">> ELSE <<>>) \o <<nf[sym(i)], ":">> \o TyTk(ts[i]) \o PmTk(nf, sym, ts, i + 1)

InstTk(nf, f, b, j, i, bare) ==
  LET O(m) == OpTk(nf, f, i.ops[m]) IN
  (IF IsUnit(i.ty) \/ bare THEN <<>> ELSE <<nf[SymI(f, b, j)], "=">>) \o
  CASE i.k = "alloc"  -> <<"alloc">> \o TyTk(Base(i.ty))
    [] i.k = "load"   -> <<"load">> \o O(1)
    [] i.k \in {"store", "getptr", "getelemptr"} -> <<i.k>> \o O(1) \o <<",">> \o O(2)
    [] i.k = "binary" -> <<i.x>> \o O(1) \o <<",">> \o O(2)
    [] i.k = "branch" -> <<"br">> \o O(1) \o <<",">> \o TgtTk(nf, f, i.bbs[1], SubSeq(i.ops, 2, 1 + i.n))
                         \o <<",">> \o TgtTk(nf, f, i.bbs[2], SubSeq(i.ops, 2 + i.n, Len(i.ops)))
    [] i.k = "jump"   -> <<"jump">> \o TgtTk(nf, f, i.bbs[1], i.ops)
    [] i.k = "call"   -> <<"call", nf[SymF(i.fn)], "(">> \o OpsTk(nf, f, i.ops, 1) \o <<")">>
    [] OTHER -> IF i.ops = <<>> THEN <<"ret">> ELSE <<"ret">> \o O(1)

BlockTk(nf, f, b, B, bare) ==
  << <<nf[SymB(f, b)]>> \o (IF B.pts = <<>> THEN <<>> ELSE <<"(">> \o PmTk(nf, LAMBDA i : SymBp(f, b, i), B.pts, 1) \o <<")">>) \o <<":">> >>
  \o [j \in 1..Len(B.is) |-> InstTk(nf, f, b, j, B.is[j], <<f, b, j>> \in bare)]
DeadTk(nf, f, n, d) ==
  CASE d = 0 -> <<>>
    [] d = 1 -> << <<"%dead", ":">>, <<"jump", "%dead">> >>
    [] d = 2 -> << <<"%dead", ":">>, <<"%d1", "=", "add", "%nowhere", ",", "1">>, <<"jump", nf[SymB(f, n)]>> >>
    [] d = 3 -> << <<"%dead", "(", "%q", ":", "i32", ")", ":">>, <<"ret", "%nothing">> >>
    [] OTHER -> << <<"%dead", ":">>, <<"br", "1", ",", nf[SymB(f, 1)], ",", "%dead2">>, <<"%dead2", ":">>, <<"jump", "%dead">> >>
FunTk(nf, f, F, ord, d, bare) ==
  LET r == IF IsUnit(F.rt) THEN <<>> ELSE <<":">> \o TyTk(F.rt) IN
  IF F.decl THEN << <<"decl", nf[SymF(f)], "(">> \o TysTk(F.pts, 1) \o <<")">> \o r >>
  ELSE << <<"fun", nf[SymF(f)], "(">> \o PmTk(nf, LAMBDA i : SymP(f, i), F.pts, 1) \o <<")">> \o r \o <<"{">> >>
       \o Cat([i \in 1..Len(ord) |-> BlockTk(nf, f, ord[i], F.bs[ord[i]], bare)])
       \o DeadTk(nf, f, Len(ord), d) \o << <<"}">> >>
GlobTk(nf, i, g) == <<"global", nf[SymG(i)], "=", "alloc">> \o TyTk(g.ty) \o <<",">> \o OpTk(nf, 0, g.init)

ToksOf(lines) == Cat([l \in 1..Len(lines) |-> [i \in 1..Len(lines[l]) |-> [s |-> lines[l][i], nl |-> i = 1]]])

(* -------------------------------- damage --------------------------------- *)
Extra == Keywords \cup Operators
         \cup {"(", ")", "{", "}", "[", "]", ",", ":", "=", "*", "0", "-1", "7", "@nosuch", "%nosuch", "%77", ";", "."}
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

DamLine(lines) ==
  LET n == Len(lines) IN
  UNION {CASE k = 1 -> {Drop(lines, i)}
           [] k = 2 -> {Ins(lines, j, lines[i]) : j \in Pick(1..n)}
           [] k = 3 -> {Swap(lines, i, j) : j \in Pick(1..n)}
           [] OTHER -> IF i < n THEN {Swap(lines, i, i + 1)} ELSE {lines}
         : k \in Pick(1..4), i \in Pick(1..n)}

(* Tokens near i are the likeliest replacements. *)
Same(toks, i) == {toks[j].s : j \in {j \in (IF Coin(2) THEN 1 ELSE Max2(1, i - 25))..(IF Coin(2) THEN Len(toks) ELSE IF i + 25 > Len(toks) THEN Len(toks) ELSE i + 25) :
                    Cls(toks[j].s) = Cls(toks[i].s) /\ toks[j].s # toks[i].s}}
Put1(toks, i, s) == [toks EXCEPT ![i].s = s]
Vals(toks) == {i \in 1..Len(toks) : Cls(toks[i].s) \in {"sym", "int"}}
ValToks(toks, i) == {toks[j].s : j \in {j \in Max2(1, i - 40)..(IF i + 40 > Len(toks) THEN Len(toks) ELSE i + 40) :
                       Cls(toks[j].s) \in {"sym", "int"} \/ toks[j].s \in {"undef", "zeroinit"}}}
At2(toks, S) == {i \in 1..Len(toks) : toks[i].s \in S}
T(s) == [s |-> s, nl |-> FALSE]
(* Changes that mostly keep the grammar. *)
DamSem(toks) ==
  LET n == Len(toks) IN
  UNION {CASE k \in 1..6 -> UNION {{Put1(toks, i, s) : s \in Pick(Same(toks, i))} : i \in Pick(Vals(toks))}
           [] k \in 7..8 -> UNION {{Put1(toks, i, s) : s \in Pick(ValToks(toks, i))} : i \in Pick(Vals(toks))}
           [] k = 9 -> {Drop(Drop(toks, i), i) : i \in Pick(At2(toks, {","}) \ {n})}
           [] k = 10 -> UNION {{Ins(Ins(toks, i + 1, T(s)), i + 1, T(",")) : s \in Pick(ValToks(toks, i))} : i \in Pick(Vals(toks))}
           [] k = 11 -> UNION {{Ins(toks, i + 1, T(s)) : s \in Pick(ValToks(toks, i))} : i \in Pick(At2(toks, {"ret"}))}
           [] k = 12 -> {Drop(toks, i + 1) : i \in Pick(At2(toks, {"ret"}) \ {n})}
           [] k = 13 -> {Ins(toks, i, T("*")) : i \in Pick(At2(toks, {"i32", "[", "*"}))}
           [] k = 14 -> {Drop(toks, i) : i \in Pick(At2(toks, {"*"}))}
           [] k = 15 -> {Put1(toks, i, s) : i \in Pick({i \in 1..n : Cls(toks[i].s) = "int"}), s \in Pick({"0", "-1", "1", "2", "3"})}
           [] k = 16 -> UNION {{Put1(toks, i, s) : s \in Pick({"@nosuch", "%nosuch", "%77"})} : i \in Pick({i \in 1..n : Cls(toks[i].s) = "sym"})}
           [] k = 17 -> UNION {{Put1(toks, i, toks[j].s) : j \in Pick(At2(toks, Operators \cup {"getptr", "getelemptr"}))}
                               : i \in Pick(At2(toks, Operators \cup {"getptr", "getelemptr"}))}
           [] k = 18 -> {Drop(Drop(toks, i), i) : i \in Pick(At2(toks, {":"}) \ {n})}
           [] k = 19 -> {Put1(toks, i, s) : i \in Pick(At2(toks, {"undef", "zeroinit"})), s \in Pick({"undef", "zeroinit", "5"})}
           [] k = 22 -> {Put1(toks, i, s) : i \in Pick({i \in 1..n - 1 : toks[i + 1].s = "]"}), s \in Pick({"1", "2", "3", LongLen[1]})}
           [] OTHER -> UNION {{[toks EXCEPT ![i].s = toks[j].s, ![j].s = toks[i].s] : j \in Pick({j \in Vals(toks) : j > i - 25 /\ j < i + 25})} : i \in Pick(Vals(toks))}
         : k \in Pick(1..22)}
DamAny(toks) ==
  LET n == Len(toks) IN
  IF n = 0 THEN {toks} ELSE
  UNION {CASE k = 1 -> {Put1(toks, i, s) : s \in Pick(Same(toks, i))}
           [] k = 2 -> {Put1(toks, i, s) : s \in Pick(Extra)}
           [] k = 3 -> {Drop(toks, i)}
           [] k = 4 -> {Ins(toks, i, [s |-> s, nl |-> Coin(4)]) : s \in Pick(Extra \cup Same(toks, i))}
           [] k = 5 -> IF i < n THEN {[toks EXCEPT ![i].s = toks[i + 1].s, ![i + 1].s = toks[i].s]} ELSE {toks}
           [] k = 6 -> {[toks EXCEPT ![i].nl = ~@]}
           [] k = 7 -> {Put1(toks, i, toks[j].s) : j \in Pick(1..n)}
           [] OTHER -> {SubSeq(toks, 1, i) \o SubSeq(toks, j + 1, n) : j \in Pick(i..(IF i + 6 < n THEN i + 6 ELSE n))}
         : k \in Pick(1..8), i \in Pick(1..n)}
DamTok(toks) == IF Coin(4) THEN DamAny(toks) ELSE DamSem(toks)

Write ==
  /\ ph = "names"
  /\ \E es \in {TLCEval(Entities(P))} :
     \E nm \in {TLCEval([i \in 1..Len(es) |-> TextName(es[i], Local(es, i))])} :
     \E bare \in {TLCEval(Bares(P))} :
     \E Q \in {TLCEval(Apply(P, nm, es, bare))} :
     \E nf \in {[s \in {es[i][1] : i \in 1..Len(es)} |-> NameOf(nm, es, s).s]} :
     \E ords \in {TLCEval([f \in 1..Len(Q.fs) |-> TextOrder(Len(Q.fs[f].bs))])} :
     \E dead \in {TLCEval([f \in 1..Len(Q.fs) |-> IF Coin(4) THEN RandomElement(1..4) ELSE 0])} :
     \E lines \in {TLCEval([i \in 1..Len(Q.gs) |-> GlobTk(nf, i, Q.gs[i])]
                    \o Cat([f \in 1..Len(Q.fs) |-> FunTk(nf, f, Q.fs[f], ords[f], dead[f], bare)]))} :
       /\ P' = Q
       /\ \E hurt \in {RandomElement(1..10) <= Damage} :
          IF ~hurt
          THEN A' = [toks |-> ToksOf(lines), hurt |-> 0] /\ ph' = "mean"
          ELSE \E l2 \in {IF Coin(5) THEN lines ELSE <<>>} :
               \E l3 \in (IF l2 = <<>> THEN {lines} ELSE DamLine(l2)) :
                 A' = [toks |-> ToksOf(l3), hurt |-> IF l2 # <<>> THEN (IF Coin(2) THEN 1 ELSE 2) ELSE RandomElement({2, 2, 2, 3})]
                 /\ ph' = "hurt"

Hurt ==
  /\ ph = "hurt"
  /\ IF A.hurt = 1 THEN ph' = "mean" /\ UNCHANGED A
     ELSE \E t \in {DamTok(A.toks)} :
            /\ \E x \in (IF t = {} THEN {A.toks} ELSE t) : A' = [toks |-> TLCEval(x), hurt |-> A.hurt - 1]
            /\ UNCHANGED ph
  /\ UNCHANGED P

Mean ==
  /\ ph = "mean" /\ Spell = 0
  /\ \E m \in {TLCEval(Meaning(A.toks))} :
       A' = (IF ~Reports THEN <<>> ELSE [at |-> IF m.v = "reject" THEN Where(A.toks) ELSE {}, dead |-> IF m.v = "ok" THEN DeadToks(A.toks) ELSE {}]) @@
            [v |-> m.v, why |-> m.why, p |-> m.p, hurt |-> A.hurt,
             t |-> [i \in 1..Len(A.toks) |-> A.toks[i].s],
             nl |-> [i \in 1..Len(A.toks) |-> IF A.toks[i].nl THEN 1 ELSE 0]]
  /\ ph' = "done" /\ UNCHANGED P

(* The same tokens, spelled with other separators, and cut again. *)
Glue(toks) == TLCEval(Cat([i \in 1..Len(toks) |->
                 (IF toks[i].nl THEN NlAt(RandomElement(1..8))
                  ELSE IF i > 1 /\ toks[i - 1].s = "ret" THEN <<" ">>
                  ELSE IF i > 1 /\ Cls(toks[i].s) # "ch" /\ Cls(toks[i - 1].s) # "ch" THEN SepAt(RandomElement({1, 2, 3, 4, 6, 7, 8, 9, 10}))
                  ELSE SepAt(RandomElement(1..12))) \o Chars(toks[i].s)]) \o <<"\n">>)
(* The marks of the tokens that may be named first; of the characters that are no token, if all before them is well. *)
ReportMarks(cs, r) ==
  LET m == Marks(cs)  n == Len(r.toks)  w == Where(r.toks) IN
  {m[r.toks[i].i] : i \in w \ {n + 1}}
  \cup (IF r.end = "ok" THEN (IF n + 1 \in w THEN {EndMark(cs)} ELSE {})
        ELSE IF CutOff(r.toks) THEN {m[r.at]} ELSE {})
DeadMarks(cs, r) == LET m == Marks(cs) IN {m[r.toks[i].i] : i \in DeadToks(r.toks)}
Spelled ==
  /\ ph = "mean" /\ Spell # 0
  /\ \E c1 \in {Glue(A.toks)} :
     \E k \in {IF Spell = 2 THEN RandomElement(1..12) ELSE 99} :
     \E c2 \in {TLCEval(DamChars(c1, k, RandomElement(1..Len(c1))))} :
     \E r \in {TLCEval(Lex(c2))} :
     \E m \in {IF r.end = "ok" THEN TLCEval(Meaning(r.toks)) ELSE [v |-> IF r.end = "err" THEN "reject" ELSE "any", why |-> "lex", p |-> NoProg]} :
       A' = [v |-> m.v, why |-> m.why, p |-> m.p, hurt |-> IF A.hurt = 0 /\ k = 99 THEN 0 ELSE 1, b |-> c2]
              @@ (IF ~Reports THEN <<>>
                  ELSE [dms |-> IF m.v = "ok" THEN DeadMarks(c2, r) ELSE {},
                        ms |-> IF m.v = "reject" THEN ReportMarks(c2, r) ELSE {}])
              @@ (IF r.end # "ok" THEN <<>>
                  ELSE [t |-> [i \in 1..Len(r.toks) |-> r.toks[i].s], nl |-> [i \in 1..Len(r.toks) |-> IF r.toks[i].nl THEN 1 ELSE 0]])
  /\ ph' = "done" /\ UNCHANGED P

FNext == Globals \/ Header \/ Cfg \/ Body \/ Write \/ Hurt \/ Mean \/ Spelled \/ Done
FSpec == Init /\ [][FNext]_vars

(* Writing a program out, with any separators, and reading it back gives the program. *)
FInv == /\ ph = "done" /\ A.hurt = 0 => A.v = "ok" /\ A.p = PJ(P)
        (* there is always a place to name *)
        /\ ph = "done" /\ Reports /\ A.v = "reject" => (IF Spell = 0 THEN A.at ELSE A.ms) # {}
=============================================================================
