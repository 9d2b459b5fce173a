------------------------------ MODULE KTypes ------------------------------
(* The types of Koopa IR.  A type is a tuple whose head names the           *)
(* constructor: <<"i32">>, <<"unit">>, <<"ptr", t>>, <<"arr", t, n>> and    *)
(* <<"fun", params, ret>>.  Equality of types IS equality of these terms    *)
(* (property C06).                                                          *)
EXTENDS Integers, Sequences, TLC

I32 == <<"i32">>
Unit == <<"unit">>
Ptr(t) == <<"ptr", t>>
Arr(t, n) == <<"arr", t, n>>
Fun(ps, r) == <<"fun", ps, r>>

IsI32(t) == t[1] = "i32"
IsUnit(t) == t[1] = "unit"
IsPtr(t) == t[1] = "ptr"
IsArr(t) == t[1] = "arr"
IsFun(t) == t[1] = "fun"
Base(t) == t[2]
ArrLen(t) == t[3]

(* Lengths are numbers, except for a few that are too long for TLC: -1, -2, ... stand for these. *)
LongLen == <<"4294967298", "1099511627779">>
LenStr(n) == IF n < 0 THEN LongLen[-n] ELSE ToString(n)

(* Printed form (the concrete syntax of types). *)
RECURSIVE TyStr(_), TyStrs(_, _)
TyStr(t) ==
  CASE IsI32(t)  -> "i32"
    [] IsUnit(t) -> "unit"
    [] IsPtr(t)  -> "*" \o TyStr(t[2])
    [] IsArr(t)  -> "[" \o TyStr(t[2]) \o ", " \o LenStr(t[3]) \o "]"
    [] OTHER     -> "(" \o TyStrs(t[2], 1) \o ")" \o
                    (IF IsUnit(t[3]) THEN "" ELSE ": " \o TyStr(t[3]))
TyStrs(ts, i) ==
  IF i > Len(ts) THEN ""
  ELSE (IF i > 1 THEN ", " ELSE "") \o TyStr(ts[i]) \o TyStrs(ts, i + 1)

(* Size in bytes under pointer size p. *)
RECURSIVE TySize(_, _)
TySize(t, p) ==
  CASE IsI32(t)  -> 4
    [] IsUnit(t) -> 0
    [] IsArr(t)  -> TySize(t[2], p) * t[3]
    [] OTHER     -> p
============================================================================
