--------------------------------- MODULE BF ---------------------------------
(* Brainfuck: what a program does, and random programs.  Cells are 32-bit    *)
(* integers that wrap, the tape has 65536 of them and starts at the left     *)
(* end; reading past the end of the input gives -1.  Leaving the tape, or    *)
(* running too long, leaves a program without meaning.                       *)
EXTENDS I32, FiniteSets, SequencesExt, Json

CONSTANTS Size, MaxSteps

Commands == {"<", ">", "+", "-", "[", "]", ".", ","}

(* The matching bracket of each bracket; 0 for one that has none. *)
RECURSIVE Match(_, _, _, _)
Match(s, i, stack, m) ==
  IF i > Len(s) THEN m
  ELSE IF s[i] = "[" THEN Match(s, i + 1, Append(stack, i), m)
  ELSE IF s[i] = "]" THEN
    IF stack = <<>> THEN Match(s, i + 1, stack, m)
    ELSE LET o == stack[Len(stack)] IN
         Match(s, i + 1, SubSeq(stack, 1, Len(stack) - 1), [m EXCEPT ![i] = o, ![o] = i])
  ELSE Match(s, i + 1, stack, m)
Matches(s) == Match(s, 1, <<>>, [i \in 1..Len(s) |-> 0])
Balanced(s) == \A i \in 1..Len(s) : s[i] \in {"[", "]"} => Matches(s)[i] # 0

Cell(M) == IF M.dp \in DOMAIN M.tape THEN M.tape[M.dp] ELSE 0
SetCell(M, v) == [M EXCEPT !.tape = (M.dp :> v) @@ @, !.ip = @ + 1]

Start(ins) == [ip |-> 1, dp |-> 0, tape |-> <<>>, out |-> <<>>, ins |-> ins, st |-> "run", n |-> 0]
Step(s, m, M0) ==
  LET M == [M0 EXCEPT !.n = @ + 1]
      c == s[M.ip]
      Nx == [M EXCEPT !.ip = @ + 1]
  IN CASE c = ">" -> IF M.dp = 65535 THEN [M EXCEPT !.st = "off"] ELSE [Nx EXCEPT !.dp = @ + 1]
       [] c = "<" -> IF M.dp = 0 THEN [M EXCEPT !.st = "off"] ELSE [Nx EXCEPT !.dp = @ - 1]
       [] c = "+" -> SetCell(M, Add32(Cell(M), 1))
       [] c = "-" -> SetCell(M, Sub32(Cell(M), 1))
       [] c = "[" -> IF Cell(M) = 0 THEN [M EXCEPT !.ip = m[M.ip] + 1] ELSE Nx
       [] c = "]" -> [M EXCEPT !.ip = m[M.ip]]
       [] c = "." -> [Nx EXCEPT !.out = Append(@, <<"putchar", Cell(M)>>)]
       [] c = "," -> [SetCell(M, IF M.ins = <<>> THEN -1 ELSE Head(M.ins)) EXCEPT
                        !.out = Append(@, <<"getchar">>), !.ins = IF @ = <<>> THEN @ ELSE Tail(@)]
       [] OTHER -> Nx
RECURSIVE Run(_, _, _)
Run(s, m, M) ==
  IF M.st # "run" THEN M
  ELSE IF M.ip > Len(s) THEN [M EXCEPT !.st = "done"]
  ELSE IF M.n >= MaxSteps THEN [M EXCEPT !.st = "long"]
  ELSE Run(s, m, TLCEval(Step(s, m, M)))

(* --------------------------- random programs ----------------------------- *)
VARIABLES ph, A
Coin(n) == RandomElement(1..n) = 1
Rep(c, n) == [i \in 1..n |-> c]
(* Pieces that end where they start, and pieces that move. *)
Snips == <<
  <<"[", "-", "]">>, <<"[", "-", ">", "+", "<", "]">>, <<"[", "-", ">", "+", "+", ">", "+", "<", "<", "]">>,
  <<"[", ">", ".", "<", "-", "]">>, <<"[", "]">>, <<",", ".">>, <<">", "<">>, <<"[", ".", "-", "]">>,
  <<"+", "+", "[", "-", "[", "-", ">", "+", "<", "]", "]">>, <<"[", "-", ">", "+", "[", "-", ">", "+", "<", "]", "<", "]">>,
  <<",", "[", ".", "[", "-", "]", "]">>, <<"x">>, <<" ", "\n">>, <<"#", "(", "a", ")">>, <<">", "+", "<">>,
  <<"-", ".", "+">>, <<"[", ">", "+", "<", "[", "-", "]", "]">>, <<"+", ".", ".", "-">> >>
Flat(z) ==
  LET c == RandomElement(1..11) IN
  IF c <= 3 THEN Rep("+", RandomElement(1..5))
  ELSE IF c = 4 THEN Rep("-", RandomElement(1..2))
  ELSE IF c \in 5..6 THEN <<".">>
  ELSE IF c = 7 THEN <<",">>
  ELSE Snips[RandomElement(1..Len(Snips))]
Wild == <<"+", "[", ">", "]">>
Moves(d) == IF d >= 0 THEN Rep(">", d) ELSE Rep("<", -d)

Init == ph = "gen" /\ A = [s |-> <<>>, open |-> <<>>, dp |-> 0, left |-> -1]
Emit(x) == A' = [A EXCEPT !.s = @ \o x, !.left = @ - 1]
Close(d) == Moves(A.open[Len(A.open)] - A.dp) \o <<"-", "]">>
Gen ==
  /\ ph = "gen"
  /\ IF A.left = -1 THEN \E n \in {RandomElement(1..Size)} : A' = [A EXCEPT !.left = n] /\ UNCHANGED ph
     ELSE IF A.left = 0
     THEN IF A.open # <<>>
          THEN A' = [A EXCEPT !.s = @ \o Close(0), !.dp = A.open[Len(A.open)], !.open = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED ph
          ELSE \E bad \in {RandomElement(1..24)} : \E k \in {RandomElement(1..(Len(A.s) + 1))} :
               /\ A' = [A EXCEPT !.s = IF bad \in 1..2 THEN SubSeq(@, 1, k - 1) \o <<IF bad = 1 THEN "[" ELSE "]">> \o SubSeq(@, k, Len(@))
                                       ELSE IF bad = 3 THEN @ \o <<"]", "[">> ELSE IF bad = 4 /\ k < Len(@) THEN SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))
                                       ELSE IF bad = 5 THEN @ \o Wild \o <<".">> ELSE @]
               /\ ph' = "run"
     ELSE /\ UNCHANGED ph
          /\ \E c \in {RandomElement(1..10)} :
             IF c = 1 /\ Len(A.open) < 3
             THEN \E n \in {RandomElement(0..3)} :
                    A' = [A EXCEPT !.s = @ \o Rep("+", n) \o <<"[">>, !.open = Append(@, A.dp), !.left = @ - 1]
             ELSE IF c = 2 /\ A.open # <<>>
             THEN A' = [A EXCEPT !.s = @ \o Close(0), !.dp = A.open[Len(A.open)], !.open = SubSeq(@, 1, Len(@) - 1), !.left = @ - 1]
             ELSE IF c \in 3..5
             THEN \E d \in {RandomElement(IF A.dp > 1 THEN {-2, -1, 1, 2, 3} ELSE {1, 1, 2})} :
                    A' = [A EXCEPT !.s = @ \o Moves(d), !.dp = @ + d, !.left = @ - 1]
             ELSE \E x \in {Flat(c)} : Emit(x)
\* (a definition with an argument, so that TLC does not keep its first value)
SomeInput(z) == TLCEval([i \in 1..RandomElement(0..6) |-> RandomElement({0, 1, 2, 3, 10, 65, 127, 200, 255})])
Exec ==
  /\ ph = "run"
  /\ \E ins \in {SomeInput(Len(A.s))} :
     LET s == A.s IN
     IF ~Balanced(s) THEN A' = [s |-> s, st |-> "reject", out |-> <<>>, ins |-> ins, n |-> 0]
     ELSE \E M \in {TLCEval(Run(s, Matches(s), Start(ins)))} :
            A' = [s |-> s, st |-> M.st, out |-> M.out, ins |-> ins, n |-> M.n]
  /\ ph' = "done"
Done == ph = "done" /\ PrintT("@@" \o ToJson(A)) /\ ph' = "end" /\ UNCHANGED A
Spec == Init /\ [][Gen \/ Exec \/ Done]_<<ph, A>>

(* Jumps go to matching brackets, and those are matched pairwise. *)
Inv == ph = "run" => LET m == Matches(A.s) IN
  \A i \in 1..Len(A.s) : m[i] # 0 => m[m[i]] = i /\ m[i] # i
=============================================================================
