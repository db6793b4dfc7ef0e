------------------------------ MODULE FrankaNum ------------------------------
(* The published signal processing of the control interface: first-order      *)
(* low-pass filter, rate limits for joints, elbow, torques and Cartesian       *)
(* motion, and the frame checks.  Numbers are IEEE doubles (module F64).        *)
EXTENDS Integers, Sequences, F64

DT == "0.001"
LimEps == "0.001"
V3(f(_)) == <<f(1), f(2), f(3)>>
V6(f(_)) == <<f(1), f(2), f(3), f(4), f(5), f(6)>>
V7(f(_)) == <<f(1), f(2), f(3), f(4), f(5), f(6), f(7)>>
Lim(x) == FSub(x, LimEps)
LimV(v, a) == FSub(FSub(v, LimEps), FMul("0.000001", a))

JJerk == LET p == <<7500, 3750, 5000, 6250, 7500, 10000, 10000>> f(i) == Lim(p[i]) IN V7(f)
JAcc  == LET p == <<"15", "7.5", "10", "12.5", "15", "20", "20">> f(i) == Lim(p[i]) IN V7(f)
JVel  == LET p == <<"2.175", "2.175", "2.175", "2.175", "2.61", "2.61", "2.61">>
             f(i) == LimV(p[i], JAcc[i]) IN V7(f)
TorqueRate == Lim("1000")
TJerk == Lim("6500")   TAcc == Lim("13")   TVel == LimV("2", TAcc)
RJerk == Lim("12500")  RAcc == Lim("25")   RVel == LimV("2.5", RAcc)
EJerk == Lim("5000")   EAcc == Lim("10")   EVel == LimV("2.175", EAcc)
PoseFactor == "0.99"   \* rotational limits of the pose interface

Clamp(x, lo, hi) == FMax(FMin(x, hi), lo)
Neg(x) == FSub("0", x)

(* ---- filter ---------------------------------------------------------------- *)
TwoPi == "6.283185307179586"
Gain(dt, cut) == FDiv(dt, FAdd(dt, FDiv("1", FMul(TwoPi, cut))))
LowPass(dt, y, last, cut) == LET g == Gain(dt, cut) IN FAdd(FMul(g, y), FMul(FSub("1", g), last))
Filtering(cut) == FLt(cut, "1000")
Filter(y, last, cut) == IF Filtering(cut) THEN LowPass(DT, y, last, cut) ELSE y

(* ---- one-dimensional limits ------------------------------------------------ *)
LimitVelocity(vm, am, jm, v, v0, a0) ==
  LET jerk == FDiv(FSub(FDiv(FSub(v, v0), DT), a0), DT)
      a  == FAdd(a0, FMul(Clamp(jerk, Neg(jm), jm), DT))
      r  == FDiv(jm, am)
      hi == FMin(FMul(r, FSub(vm, v0)), am)
      lo == FMax(FMul(r, FSub(Neg(vm), v0)), Neg(am))
  IN FAdd(v0, FMul(Clamp(a, lo, hi), DT))
LimitPosition(vm, am, jm, x, x0, v0, a0) ==
  FAdd(x0, FMul(LimitVelocity(vm, am, jm, FDiv(FSub(x, x0), DT), v0, a0), DT))
LimitTorque(t, t0) == FAdd(t0, FMul(Clamp(FDiv(FSub(t, t0), DT), Neg(TorqueRate), TorqueRate), DT))

(* ---- three-dimensional limits ----------------------------------------------- *)
Dot(a, b) == FAdd(FAdd(FMul(a[1], b[1]), FMul(a[2], b[2])), FMul(a[3], b[3]))
Norm(a) == FSqrt(Dot(a, a))
Add3(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2]), FAdd(a[3], b[3])>>
Sub3(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3])>>
Scale(k, a) == <<FMul(k, a[1]), FMul(k, a[2]), FMul(k, a[3])>>
Tiny == "2.220446049250313E-16"
Limit3(vm, am, jm, v, v0, a0) ==
  LET j  == Scale("1000", Sub3(Scale("1000", Sub3(v, v0)), a0))
      nj == Norm(j)
      a  == IF FLt(Tiny, nj) THEN Add3(a0, Scale(FDiv(FMul(FMin(nj, jm), DT), nj), j)) ELSE a0
      na == Norm(a)
      u  == Scale(FDiv("1", na), a)
      d  == Dot(u, v0)
      dist == FSub(FSqrt(FMax("0", FAdd(FSub(FMul(d, d), Dot(v0, v0)), FMul(vm, vm)))), d)
      safe == FMin(FMul(FDiv(jm, am), dist), am)
  IN IF FLt(Tiny, na) THEN Add3(v0, Scale(FMul(FMin(na, safe), DT), u)) ELSE v0

Lin(x) == <<x[1], x[2], x[3]>>
Ang(x) == <<x[4], x[5], x[6]>>
LimitTwist(v, v0, a0) == Limit3(TVel, TAcc, TJerk, Lin(v), Lin(v0), Lin(a0))
                         \o Limit3(RVel, RAcc, RJerk, Ang(v), Ang(v0), Ang(a0))

(* ---- rotations: 4x4 column-major poses ---------------------------------------- *)
El(T, i, j) == T[4 * (j - 1) + i]
Pos(T) == <<T[13], T[14], T[15]>>
(* entry (i, j) of R * R0' *)
Rel(T, T0, i, j) == FAdd(FAdd(FMul(El(T, i, 1), El(T0, j, 1)), FMul(El(T, i, 2), El(T0, j, 2))), FMul(El(T, i, 3), El(T0, j, 3)))
Half(x) == FDiv(x, "2")
RotLog(T, T0) ==     \* rotation vector that takes T0's rotation to T's
  LET v == <<Half(FSub(Rel(T, T0, 3, 2), Rel(T, T0, 2, 3))), Half(FSub(Rel(T, T0, 1, 3), Rel(T, T0, 3, 1))),
             Half(FSub(Rel(T, T0, 2, 1), Rel(T, T0, 1, 2)))>>
      s == Norm(v)
      c == Half(FSub(FAdd(FAdd(Rel(T, T0, 1, 1), Rel(T, T0, 2, 2)), Rel(T, T0, 3, 3)), "1"))
  IN IF FLt("0", s) THEN Scale(FDiv(FAtan2(s, c), s), v) ELSE <<"0", "0", "0">>
(* exp(w) * rotation of T0, translation p *)
RotStep(w, T0, p) ==
  LET th == Norm(w)
      big == FLt("1E-9", th)
      a == IF big THEN FDiv(FSin(th), th) ELSE "1"
      b == IF big THEN FDiv(FSub("1", FCos(th)), FMul(th, th)) ELSE "0.5"
      ww == Dot(w, w)
      (* exp = I + a K + b K K,  K K = w w' - |w|^2 I *)
      E(i, j) == FAdd(FMul(b, FMul(w[i], w[j])),
                 IF i = j THEN FSub("1", FMul(b, ww))
                 ELSE FMul(a, CASE <<i, j>> = <<1, 2>> -> Neg(w[3]) [] <<i, j>> = <<1, 3>> -> w[2]
                                [] <<i, j>> = <<2, 1>> -> w[3]      [] <<i, j>> = <<2, 3>> -> Neg(w[1])
                                [] <<i, j>> = <<3, 1>> -> Neg(w[2]) [] <<i, j>> = <<3, 2>> -> w[1]))
      M == <<<<E(1, 1), E(1, 2), E(1, 3)>>, <<E(2, 1), E(2, 2), E(2, 3)>>, <<E(3, 1), E(3, 2), E(3, 3)>>>>
      X(i, j) == FAdd(FAdd(FMul(M[i][1], El(T0, 1, j)), FMul(M[i][2], El(T0, 2, j))), FMul(M[i][3], El(T0, 3, j)))
  IN << X(1, 1), X(2, 1), X(3, 1), "0", X(1, 2), X(2, 2), X(3, 2), "0", X(1, 3), X(2, 3), X(3, 3), "0", p[1], p[2], p[3], "1" >>
Ident == <<"1", "0", "0", "0", "0", "1", "0", "0", "0", "0", "1", "0", "0", "0", "0", "1">>

FilterPoseDt(dt, T, T0, cut) ==
  LET g == Gain(dt, cut)
  IN RotStep(Scale(g, RotLog(T, T0)), T0, Add3(Scale(g, Pos(T)), Scale(FSub("1", g), Pos(T0))))
FilterPose(T, T0, cut) == IF Filtering(cut) THEN FilterPoseDt(DT, T, T0, cut) ELSE T
LimitPose(T, T0, v0, a0) ==
  LET vp == Limit3(TVel, TAcc, TJerk, Scale("1000", Sub3(Pos(T), Pos(T0))), Lin(v0), Lin(a0))
      w  == Limit3(FMul(PoseFactor, RVel), FMul(PoseFactor, RAcc), FMul(PoseFactor, RJerk),
                   Scale("1000", RotLog(T, T0)), Ang(v0), Ang(a0))
  IN RotStep(Scale(DT, w), T0, Add3(Pos(T0), Scale(DT, vp)))

(* ---- validity ------------------------------------------------------------------ *)
FiniteAll(x) == \A i \in DOMAIN x : FFinite(x[i])
UnitLen(a, b, c) == FLe(FAbs(FSub(Norm(<<a, b, c>>), "1")), "0.00001")
Homogeneous(T) ==
  /\ FEq(T[4], "0") /\ FEq(T[8], "0") /\ FEq(T[12], "0") /\ FEq(T[16], "1")
  /\ \A k \in 1..3 : UnitLen(El(T, 1, k), El(T, 2, k), El(T, 3, k)) /\ UnitLen(El(T, k, 1), El(T, k, 2), El(T, k, 3))

Close(a, b, tol) == FLe(FAbs(FSub(a, b)), FMul(tol, FMax("1", FAbs(b))))
CloseAll(x, y, tol) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Close(x[i], y[i], tol)
=============================================================================
