-------------------------------- MODULE I32 --------------------------------
(* Arithmetic of 32-bit two's complement integers, wrapping on overflow.    *)
(* The integers of TLC are themselves 32-bit and refuse to overflow, so     *)
(* everything is computed on halves and bytes.                              *)
EXTENDS Integers, Sequences, TLC, Bitwise

Hi(x) == (x \div 65536) % 65536
Lo(x) == x % 65536
Mk(h, l) == (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + l
MinI == -2147483647 - 1

Add32(a, b) == LET l == Lo(a) + Lo(b)  h == Hi(a) + Hi(b) + (l \div 65536) IN Mk(h % 65536, l % 65536)
Neg32(a) == IF a = MinI THEN MinI ELSE -a
Sub32(a, b) == LET l == Lo(a) - Lo(b)  h == Hi(a) - Hi(b) + (l \div 65536) IN Mk(h % 65536, l % 65536)
Byte(x, i) == IF i = 0 THEN Lo(x) % 256 ELSE IF i = 1 THEN Lo(x) \div 256
              ELSE IF i = 2 THEN Hi(x) % 256 ELSE Hi(x) \div 256
Mul32(a, b) ==
  LET A0 == Byte(a, 0)  A1 == Byte(a, 1)  A2 == Byte(a, 2)  A3 == Byte(a, 3)
      B0 == Byte(b, 0)  B1 == Byte(b, 1)  B2 == Byte(b, 2)  B3 == Byte(b, 3)
      s0 == A0 * B0
      s1 == A0 * B1 + A1 * B0 + (s0 \div 256)
      s2 == A0 * B2 + A1 * B1 + A2 * B0 + (s1 \div 256)
      s3 == A0 * B3 + A1 * B2 + A2 * B1 + A3 * B0 + (s2 \div 256)
  IN Mk((s3 % 256) * 256 + (s2 % 256), (s1 % 256) * 256 + (s0 % 256))

(* Division truncates towards zero; b # 0, and not MinI / -1. *)
Div32(a, b) ==
  IF b = MinI THEN (IF a = MinI THEN 1 ELSE 0)
  ELSE IF a = MinI THEN IF b > 0 THEN -((-(a + b)) \div b) - 1 ELSE ((-(a - b)) \div (-b)) + 1
  ELSE IF a >= 0 THEN (IF b > 0 THEN a \div b ELSE -(a \div (-b)))
  ELSE IF b > 0 THEN -((-a) \div b) ELSE (-a) \div (-b)
Mod32(a, b) == Sub32(a, Mul32(Div32(a, b), b))

And32(a, b) == Mk(Hi(a) & Hi(b), Lo(a) & Lo(b))
Or32(a, b)  == Mk(Hi(a) | Hi(b), Lo(a) | Lo(b))
Xor32(a, b) == Mk(Hi(a) ^^ Hi(b), Lo(a) ^^ Lo(b))

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144,
          524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
          536870912, 1073741824, MinI>>
(* Shifts by 0..31. *)
Shl32(a, k) == Mul32(a, Pow2[k + 1])
Shr32(a, k) == IF k = 0 THEN a
               ELSE IF k = 31 THEN (IF a < 0 THEN 1 ELSE 0)
               ELSE IF a >= 0 THEN a \div Pow2[k + 1]
               ELSE ((a + 2147483647 + 1) \div Pow2[k + 1]) + Pow2[32 - k]
Sar32(a, k) == IF k = 31 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2[k + 1]

Bool32(c) == IF c THEN 1 ELSE 0
(* What has no result. *)
Undefined32(op, a, b) ==
  \/ op \in {"div", "mod"} /\ (b = 0 \/ (a = MinI /\ b = -1))
  \/ op \in {"shl", "shr", "sar"} /\ b \notin 0..31
Bin32(op, a, b) ==
  CASE op = "ne" -> Bool32(a # b) [] op = "eq" -> Bool32(a = b)
    [] op = "gt" -> Bool32(a > b) [] op = "lt" -> Bool32(a < b)
    [] op = "ge" -> Bool32(a >= b) [] op = "le" -> Bool32(a <= b)
    [] op = "add" -> Add32(a, b) [] op = "sub" -> Sub32(a, b) [] op = "mul" -> Mul32(a, b)
    [] op = "div" -> Div32(a, b) [] op = "mod" -> Mod32(a, b)
    [] op = "and" -> And32(a, b) [] op = "or" -> Or32(a, b) [] op = "xor" -> Xor32(a, b)
    [] op = "shl" -> Shl32(a, b) [] op = "shr" -> Shr32(a, b) [] OTHER -> Sar32(a, b)
=============================================================================
