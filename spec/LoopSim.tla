------------------------------ MODULE LoopSim -------------------------------
(* Long loops.  The loop runs N times, exchanging its parameters each time  *)
(* and adding to one of them and to a variable; a closed form says what is  *)
(* printed in the end.  Exec confirms the closed form for every small N     *)
(* (Inv); the runs with a large N are far too long to be executed here.     *)
EXTENDS Front, Exec, Json

CONSTANTS Small, Large

VARIABLES c, d
Shapes == {"true", "false", "two", "mem"}
Loop(n, a0, b0, k, sh) ==
  << <<"global", "@g", "=", "alloc", "i32", ",", "0">>,
     <<"decl", "@putint", "(", "i32", ")">>,
     <<"fun", "@main", "(", ")", ":", "i32", "{">>,
     <<"%entry", ":">>,
     <<"%p", "=", "alloc", "i32">>,
     <<"store", "0", ",", "%p">>,
     <<"jump", "%loop", "(", ToString(n), ",", ToString(a0), ",", ToString(b0), ")">>,
     <<"%loop", "(", "%i", ":", "i32", ",", "%a", ":", "i32", ",", "%b", ":", "i32", ")", ":">>,
     <<"%c", "=", "add", "%a", ",", ToString(k)>>,
     <<"%v", "=", "load", IF sh = "mem" THEN "%p" ELSE "@g">>,
     <<"%w", "=", "add", "%v", ",", "%i">>,
     <<"store", "%w", ",", IF sh = "mem" THEN "%p" ELSE "@g">>,
     <<"%n", "=", "sub", "%i", ",", "1">> >>
  \o (CASE sh = "true" -> << <<"br", "%n", ",", "%loop", "(", "%n", ",", "%b", ",", "%c", ")", ",", "%end", "(", "%a", ",", "%b", ")">> >>
        [] sh = "false" -> << <<"%z", "=", "eq", "%n", ",", "0">>,
                              <<"br", "%z", ",", "%end", "(", "%a", ",", "%b", ")", ",", "%loop", "(", "%n", ",", "%b", ",", "%c", ")">> >>
        [] OTHER -> << <<"br", "%n", ",", "%back", ",", "%end", "(", "%a", ",", "%b", ")">>,
                       <<"%back", ":">>,
                       <<"jump", "%loop", "(", "%n", ",", "%b", ",", "%c", ")">> >>)
  \o << <<"%end", "(", "%x", ":", "i32", ",", "%y", ":", "i32", ")", ":">>,
        <<"%s", "=", "load", IF sh = "mem" THEN "%p" ELSE "@g">>,
        <<"call", "@putint", "(", "%x", ")">>,
        <<"call", "@putint", "(", "%y", ")">>,
        <<"call", "@putint", "(", "%s", ")">>,
        <<"ret", "%x">>,
        <<"}">> >>

(* What is printed. *)
Out(n, a0, b0, k) ==
  LET m == (n - 1) \div 2
      mk == Mul32(m, k)
      x == IF (n - 1) % 2 = 0 THEN Add32(a0, mk) ELSE Add32(b0, mk)
      y == IF (n - 1) % 2 = 0 THEN Add32(b0, mk) ELSE Add32(Add32(a0, mk), k)
      s == IF n % 2 = 0 THEN Mul32(n \div 2, n + 1) ELSE Mul32((n + 1) \div 2, n)
  IN << <<"putint", x>>, <<"putint", y>>, <<"putint", s>> >>

Toks(lines) == Cat([i \in 1..Len(lines) |-> [j \in 1..Len(lines[i]) |-> [s |-> lines[i][j], nl |-> j = 1]]])
Init == c \in [n : Small \cup Large, a0 : {0, -2147483647}, b0 : {7}, k : {1, 123456789}, sh : Shapes] /\ d = FALSE
Next == /\ ~d /\ d' = TRUE /\ UNCHANGED c
        /\ \E o \in {TLCEval(Out(c.n, c.a0, c.b0, c.k))} :
             PrintT("@@" \o ToJson([st |-> "done", ret |-> o[1][2], why |-> "", out |-> o, ins |-> <<>>, n |-> c.n, ip |-> FALSE,
                                    lines |-> Loop(c.n, c.a0, c.b0, c.k, c.sh)]))
Spec == Init /\ [][Next]_<<c, d>>

Inv == d /\ c.n \in Small =>
  LET m == Program(Toks(Loop(c.n, c.a0, c.b0, c.k, c.sh)))
      S == Run(m.q, Start(m.q, 2, <<>>), 1000)
      o == Out(c.n, c.a0, c.b0, c.k)
  IN m.v = "ok" /\ S.st = "done" /\ S.out = o /\ S.ret = Num(o[1][2])
=============================================================================
