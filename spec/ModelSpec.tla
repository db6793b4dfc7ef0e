------------------------------ MODULE ModelSpec ------------------------------
(* Which function of the model library a query evaluates, on which inputs.     *)
EXTENDS FrankaNum
Frames == 1..10          \* joints 1..7, 8 flange, 9 end effector, 10 stiffness frame
Outs(f) == CASE f = "pose" -> 16 [] f \in {"body", "zero"} -> 42 [] f = "mass" -> 49 [] OTHER -> 7
Num(fr) == CASE fr = 10 -> "9" [] fr = 1 -> "1" [] fr = 2 -> "2" [] fr = 3 -> "3" [] fr = 4 -> "4" [] fr = 5 -> "5"
             [] fr = 6 -> "6" [] fr = 7 -> "7" [] fr = 8 -> "8" [] OTHER -> "9"
Symbol(f, fr) == CASE f = "pose" -> "O_T_J" \o Num(fr) [] f = "body" -> "Ji_J_J" \o Num(fr) [] f = "zero" -> "O_J_J" \o Num(fr)
                   [] f = "mass" -> "M_NE" [] f = "coriolis" -> "c_NE" [] OTHER -> "g_NE"
(* product of 4x4 matrices, column major *)
Mul4(A, B) == LET x(i, j) == FAdd(FAdd(FMul(El(A, i, 1), El(B, 1, j)), FMul(El(A, i, 2), El(B, 2, j))),
                                  FAdd(FMul(El(A, i, 3), El(B, 3, j)), FMul(El(A, i, 4), El(B, 4, j))))
  IN <<x(1, 1), x(2, 1), x(3, 1), x(4, 1), x(1, 2), x(2, 2), x(3, 2), x(4, 2), x(1, 3), x(2, 3), x(3, 3), x(4, 3), x(1, 4), x(2, 4), x(3, 4), x(4, 4)>>
Gravity(c) == IF "g" \in DOMAIN c THEN c.g ELSE IF c.st THEN c.a ELSE <<"0", "0", "-9.81">>
(* the arguments are passed through untouched *)
Inputs(c) ==
  CASE c.f \in {"pose", "body", "zero"} ->
         (IF c.frame = 1 /\ c.f # "pose" THEN <<>> ELSE c.q) \o (IF c.frame = 9 THEN c.F ELSE <<>>)
    [] c.f = "mass" -> c.q \o c.I \o <<c.m>> \o c.x
    [] c.f = "coriolis" -> c.q \o c.dq \o c.I \o <<c.m>> \o c.x
    [] OTHER -> c.q \o Gravity(c) \o <<c.m>> \o c.x
Same(a, b) == a = b \/ FEq(a, b) \/ (~FEq(a, a) /\ ~FEq(b, b))
SameAll(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Same(x[i], y[i])
Stiff(c) == c.f \in {"pose", "body", "zero"} /\ c.frame = 10
QueryOk(c, r) ==
  /\ r.calls = 1 /\ r.sym = Symbol(c.f, c.frame)
  /\ IF Stiff(c) THEN /\ Len(r.in) = 23 /\ SameAll(SubSeq(r.in, 1, 7), c.q)
                      /\ CloseAll(SubSeq(r.in, 8, 23), Mul4(c.F, c.K), "1E-12")
     ELSE SameAll(r.in, Inputs(c))
  /\ Len(r.out) = Outs(c.f) /\ \A i \in DOMAIN r.out : FEq(r.out[i], i - 1)
(* every function the queries need *)
Required == {"M_NE", "c_NE", "g_NE"} \cup {p \o d : p \in {"O_T_J", "Ji_J_J", "O_J_J"}, d \in {"1", "2", "3", "4", "5", "6", "7", "8", "9"}}
=============================================================================
