------------------------------ MODULE I32Test ------------------------------
(* Laws of 32-bit arithmetic, and values to compare with the hardware.      *)
EXTENDS I32, Json
VARIABLES n, r
Edge == {0, 1, -1, 2, -2, 3, 7, -7, 31, 255, 256, 65535, 65536, -65536, 32767, 32768, -32768, 2147483647, MinI, MinI + 1, 1431655765, 123456789, -987654321}
Rnd(z) == IF RandomElement(1..2) = 1 THEN RandomElement(Edge) ELSE Mk(RandomElement(0..65535), RandomElement(0..65535))
Ops == {"ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr", "sar"}
Init == n = 0 /\ r = <<>>
Next == /\ n < 60 /\ n' = n + 1
        /\ \E op \in {RandomElement(Ops)} : \E a \in {Rnd(n)} :
           \E b \in {IF op \in {"shl", "shr", "sar"} THEN RandomElement(0..31) ELSE Rnd(n + 1)} :
             r' = IF Undefined32(op, a, b) THEN r ELSE Append(r, <<op, a, b, Bin32(op, a, b)>>)
End == n = 60 /\ n' = 61 /\ PrintT("@@" \o ToJson(r)) /\ UNCHANGED r
Spec == Init /\ [][Next \/ End]_<<n, r>>
Inv == r # <<>> => LET i == Len(r) IN LET a == r[i][2] b == r[i][3] IN
  /\ Sub32(Add32(a, b), b) = a /\ Add32(a, Neg32(a)) = 0
  /\ Add32(And32(a, b), Or32(a, b)) = Add32(a, b)
  /\ Xor32(Xor32(a, b), b) = a
  /\ ~Undefined32("div", a, b) => Add32(Mul32(Div32(a, b), b), Mod32(a, b)) = a
=============================================================================
