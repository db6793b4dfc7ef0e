-------------------------------- MODULE F64 --------------------------------
(* IEEE doubles, written as strings ("0.25", "-3").  TLC evaluates these     *)
(* operators with java/F64.java; the definitions below only fix the arities. *)
F(a) == a
FAdd(a, b) == <<"+", a, b>>
FSub(a, b) == <<"-", a, b>>
FMul(a, b) == <<"*", a, b>>
FDiv(a, b) == <<"/", a, b>>
FMin(a, b) == <<"min", a, b>>
FMax(a, b) == <<"max", a, b>>
FAbs(a) == <<"abs", a>>
FSqrt(a) == <<"sqrt", a>>
FSin(a) == <<"sin", a>>
FCos(a) == <<"cos", a>>
FAtan2(a, b) == <<"atan2", a, b>>
FLe(a, b) == FALSE
FLt(a, b) == FALSE
FEq(a, b) == a = b
FFinite(a) == TRUE
(* a number in 1..n that depends only on the seed and the salt *)
FPick(seed, salt, n) == 1
=============================================================================
