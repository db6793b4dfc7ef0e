------------------------------- MODULE NumGen -------------------------------
(* Generates numeric control scenarios: states around the limits and requests *)
(* inside, on and far outside them, for every interface and option.            *)
(* Run with -simulate; every behaviour prints one script.  The draws of one     *)
(* step all come from `seed`, so a draw has the same value wherever it is used. *)
EXTENDS FrankaNum, Json, IOUtils, TLC

Fam == IOEnv.FAM
(* fam: joint | jointf | cart | cartf | filter | closedj | closedc | lpf | clpf | refuse | bad | exact *)
Closed == Fam \in {"closedj", "closedc", "closedjf", "closedcf"}
JOps == <<"jp", "jv", "tjp", "tjv", "tau">>
COps == <<"cp", "cv", "tcp", "tcv">>
IsCart(op) == op \in {"cp", "cv", "tcp", "tcv"}
Ops == CASE Fam \in {"cart", "cartf", "closedc", "closedcf"} -> COps
         [] OTHER -> JOps \o COps        \* Cartesian ones for the elbow and torques
Cuts == CASE Fam \in {"joint", "cart", "closedj", "closedc"} -> <<"1000", "1000.5", "5000", "inf", "1E9">>
          [] Fam \in {"jointf", "cartf", "closedjf", "closedcf"} -> <<"none", "1", "50", "100", "500", "999">>
          [] Fam = "exact" -> <<"1000", "1000.0001", "5000", "inf", "1E300">>
          [] Fam = "bad" -> <<"none", "1000", "1", "100", "999", "inf">>
          [] Fam = "refuse" -> <<"0", "-1", "-inf", "-0.0", "-1000", "1", "100">>
          [] OTHER -> <<"none", "0.1", "1", "10", "37.5", "100", "250", "500", "999", "999.999", "1000", "1500">>
Lims == CASE Fam \in {"filter", "exact"} -> <<"F">> [] Fam \in {"refuse", "bad"} -> <<"F", "T", "none">> [] OTHER -> <<"T", "none">>
Cycles == IF Closed THEN 25 ELSE 3

VARIABLES script, n, c, done, seed
vars == <<script, n, c, done, seed>>
R(k, S) == S[FPick(seed, k, Len(S))]
One(k, m) == FPick(seed, k, m) = 1

(* ---- values ------------------------------------------------------------------ *)
Frac == <<"0", "0.1", "-0.1", "0.5", "-0.5", "0.9", "-0.9", "0.999", "-0.999", "1", "-1">>
Jr == <<"0", "0", "0.5", "-0.5", "0.999", "-0.999", "1", "-1", "1.001", "-1.001", "2", "-2", "100", "-100">>
Base == <<"0", "0.3", "-0.7", "1.5", "-2.3", "2.8">>
(* last speed and acceleration of an axis, and a velocity request for it *)
Axis(k, vm, am, jm) ==
  LET v0 == FMul(R(<<k, "v0">>, Frac), vm)
      a0 == FMul(R(<<k, "a0">>, Frac), am)
      v  == IF One(<<k, "b">>, 3) THEN FMul(R(<<k, "c">>, <<"0", "1", "-1", "1.5", "-3", "40">>), vm)
            ELSE FAdd(v0, FMul(DT, FAdd(a0, FMul(DT, FMul(R(<<k, "j">>, Jr), jm)))))
  IN <<v0, a0, v>>
Joints(k) == LET f(i) == Axis(<<k, i>>, JVel[i], JAcc[i], JJerk[i]) IN V7(f)
Col(x, j) == LET f(i) == x[i][j] IN V7(f)
QBase(k) == LET f(i) == R(<<k, "q", i>>, Base) IN V7(f)
Dir(k) == LET d == R(<<k, "dir">>, <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, -2, 2>>, <<-2, 3, 6>>, <<-1, -1, -1>>, <<4, 0, -3>>, <<2, 1, -2>>>>)
              v == <<FAdd(d[1], "0"), FAdd(d[2], "0"), FAdd(d[3], "0")>>
          IN Scale(FDiv(R(<<k, "sg">>, <<"1", "-1">>), Norm(v)), v)
Frac1 == <<"0", "0", "0.00003", "0.00035", "0.2", "0.5", "0.9", "0.999", "0.9999999">>
Axis3(k, vm, am, jm) ==
  LET v0 == Scale(FMul(R(<<k, "v0">>, Frac1), vm), Dir(<<k, 1>>))
      a0 == Scale(FMul(R(<<k, "a0">>, Frac1), am), Dir(<<k, 2>>))
      v == CASE One(<<k, "b">>, 4) -> Scale(FMul(R(<<k, "c">>, <<"0", "0.5", "1", "1.5", "10">>), vm), Dir(<<k, 3>>))
             [] One(<<k, "e">>, 4) -> v0
             [] OTHER -> Add3(v0, Scale(DT, Add3(a0, Scale(FMul(DT, FMul(R(<<k, "j">>, <<"0", "0.5", "0.999", "1", "1.001", "2", "100">>), jm)), Dir(<<k, 4>>)))))
  IN <<v0, a0, v>>
Place(k) == <<R(<<k, "x">>, Base), R(<<k, "y">>, Base), R(<<k, "z">>, Base)>>
(* turns by exactly 180 and 90 degrees, then arbitrary ones, also by (about) pi *)
Axes == << <<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>, <<"-1", "0", "0">>, <<"0", "-1", "0">>, <<"0", "0", "-1">> >>
Frame3(x, y, z) == x \o <<"0">> \o y \o <<"0">> \o z \o <<"0">> \o <<"0", "0", "0", "1">>
Turns == << Frame3(Axes[1], Axes[5], Axes[6]), Frame3(Axes[4], Axes[2], Axes[6]), Frame3(Axes[4], Axes[5], Axes[3]),
            Frame3(Axes[2], Axes[1], Axes[6]), Frame3(Axes[3], Axes[5], Axes[1]), Frame3(Axes[4], Axes[3], Axes[2]),
            Frame3(Axes[5], Axes[4], Axes[6]), Frame3(Axes[2], Axes[4], Axes[3]), Frame3(Axes[1], Axes[3], Axes[5]), Frame3(Axes[2], Axes[3], Axes[1]) >>
At(T, p) == [i \in 1..16 |-> IF i \in 13..15 THEN p[i - 12] ELSE T[i]]
RotBase(k) == IF One(<<k, "turn">>, 3) THEN At(R(<<k, "ti">>, Turns), Place(k))
              ELSE LET w == Scale(R(<<k, "w">>, <<"0", "0.3", "1.5", "3", "3.141592653589793", "3.14159265", "6">>), Dir(k)) IN RotStep(w, Ident, Place(k))
MoveBy(T, v) == RotStep(Scale(DT, Ang(v)), T, Add3(Pos(T), Scale(DT, Lin(v))))

Motion(op) == op # "tau"
External(op) == op \in {"tjp", "tjv", "tcp", "tcv", "tau"}
Mg(op) == CASE op \in {"jp", "tjp"} -> 1 [] op \in {"jv", "tjv", "tau"} -> 2 [] op \in {"cp", "tcp"} -> 3 [] OTHER -> 4
Cm(op) == IF External(op) THEN 2 ELSE 0
St(mid, op) == [a |-> "state", mid |-> mid, mg |-> Mg(op), cm |-> Cm(op), rm |-> 2, zero |-> TRUE]
Taus(k) == LET f(i) == R(<<k, i>>, <<"0", "1.5", "-3", "20", "-87">>) IN V7(f)
TauReq(k, t0) == LET f(i) == IF One(<<k, "b", i>>, 2) THEN FAdd(t0[i], R(<<k, "d", i>>, <<"0", "0.5", "-0.5", "0.99", "0.9995", "1", "-1", "1.5">>))
                             ELSE R(<<k, "a", i>>, <<"0", "100", "-100", "5">>) IN V7(f)

(* one control cycle in which the state is arbitrary *)
Cycle(mid, op, fin) ==
  LET q0 == QBase("q")
      js == Joints("j")
      t0 == Taus("t")
      T0 == RotBase("T")
      li == Axis3("l", TVel, TAcc, TJerk)
      k  == IF op \in {"cp", "tcp"} THEN PoseFactor ELSE "1"
      an == Axis3("r", FMul(k, RVel), FMul(k, RAcc), FMul(k, RJerk))
      e  == Axis("e", EVel, EAcc, EJerk)
      e0 == R("e0", Base)
      req == CASE op \in {"jp", "tjp"} -> (LET f(i) == FAdd(q0[i], FMul(DT, js[i][3])) IN V7(f))
               [] op \in {"jv", "tjv"} -> Col(js, 3)
               [] op \in {"cp", "tcp"} -> IF One("far", 6) THEN RotStep(Scale(R("fa", <<"0.05", "1", "2.5">>), Dir("fd")), T0, Place("fp")) ELSE MoveBy(T0, li[3] \o an[3])
               [] op \in {"cv", "tcv"} -> li[3] \o an[3]
               [] OTHER -> <<>>
      el == IF IsCart(op) /\ One("el", 2) THEN <<FAdd(e0, FMul(DT, e[3])), R("es", <<"1", "-1">>)>> ELSE <<>>
      mot == [a |-> "cbret", fin |-> fin, x |-> req] @@ (IF el = <<>> THEN <<>> ELSE [el |-> el])
      ctl == [a |-> "cbret", fin |-> fin, x |-> TauReq("tr", t0)]
      set == [q_d |-> q0, dq_d |-> Col(js, 1), ddq_d |-> Col(js, 2), tau_J_d |-> t0,
              O_T_EE_c |-> T0, O_dP_EE_c |-> li[1] \o an[1], O_ddP_EE_c |-> li[2] \o an[2],
              elbow_c |-> <<e0, R("ec", <<"1", "-1">>)>>, delbow_c |-> <<e[1], "0">>, ddelbow_c |-> <<e[2], "0">>]
  IN << St(mid, op) @@ [set |-> set] >>
     \o (IF Motion(op) THEN <<mot>> ELSE <<>>)
     \o (IF External(op) /\ ~(fin /\ Motion(op)) THEN <<ctl>> ELSE <<>>)

(* one cycle of a robot that executes the commands; requests wander far and wide *)
Spin(i, r) == LET a == FMul(FMul("0.37", r), ToString(i)) IN <<FCos(a), FSin(a), FMul("0.3", FSin(FMul("2", a)))>>
(* adversary: always ask for a change of velocity at right angles to the velocity *)
Cross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Side(v) == LET x == Cross(c.d3, v) m == Norm(x) IN IF FLt("1E-9", m) THEN Add3(v, Scale(FDiv(c.amp, m), x)) ELSE Add3(v, Scale(c.amp, c.d3))
SideReq(op) == LET tw == Side(Lin(c.v)) \o Side(Ang(c.v)) IN IF op \in {"cp", "tcp"} THEN MoveBy(c.T, tw) ELSE tw
SideNext(op) ==
  IF op \in {"cp", "tcp"}
  THEN LET nT == LimitPose(SideReq(op), c.T, c.v, c.a)
           nv == Scale("1000", Sub3(Pos(nT), Pos(c.T))) \o Scale("1000", RotLog(nT, c.T))
       IN [T |-> nT, v |-> nv]
  ELSE [T |-> c.T, v |-> LimitTwist(SideReq(op), c.v, c.a)]
ClosedCycle(mid, op, fin) ==
  LET flip == IF (mid \div c.per) % 2 = 0 THEN "1" ELSE "-1"
      big(i) == FMul(c.amp, FMul(c.dir[i], flip))
      w == IF c.spin THEN Spin(mid, c.rate) ELSE Scale(flip, c.d3)
      tw == Scale(FMul(c.amp, TVel), w) \o Scale(FMul(c.amp, RVel), w)
      req == CASE op \in {"jp", "tjp"} -> (LET f(i) == big(i) IN V7(f))
               [] op \in {"jv", "tjv"} -> (LET f(i) == big(i) IN V7(f))
               [] IsCart(op) /\ c.side -> SideReq(op)
               [] op \in {"cp", "tcp"} -> RotStep(Scale(FMin("1.5", c.amp), w), c.T0, Scale(c.amp, w))
               [] op \in {"cv", "tcv"} -> tw
               [] OTHER -> <<>>
      el == IF IsCart(op) /\ c.el THEN <<big(3), "1">> ELSE <<>>
      mot == [a |-> "cbret", fin |-> fin, x |-> req] @@ (IF el = <<>> THEN <<>> ELSE [el |-> el])
      ctl == [a |-> "cbret", fin |-> fin, x |-> (LET f(i) == FMul("5", big(i)) IN V7(f))]
  IN << [a |-> "state", mid |-> mid, mg |-> Mg(op), cm |-> Cm(op), rm |-> 2, echo |-> TRUE] >>
     \o (IF Motion(op) THEN <<mot>> ELSE <<>>)
     \o (IF External(op) /\ ~(fin /\ Motion(op)) THEN <<ctl>> ELSE <<>>)

(* the closed loop starts at constant speed, up to the limit *)
FracC == <<"0", "0.5", "0.9", "0.99", "0.999", "1", "1", "-1", "-0.99">>
CloseT0 == IF One("mt", 2) THEN Ident ELSE R("mti", Turns)
Moving(op) ==
  LET k == IF op \in {"cp", "tcp"} THEN PoseFactor ELSE "1"
      f(i) == FMul(R(<<"m", i>>, FracC), JVel[i])
  IN [O_T_EE_c |-> CloseT0, dq_d |-> V7(f), delbow_c |-> <<FMul(R("me", FracC), EVel), "0">>, elbow_c |-> <<"0.1", "1">>,
      O_dP_EE_c |-> Scale(FMul(R("ml", FracC), TVel), Dir("ml")) \o Scale(FMul(k, FMul(R("mr", FracC), RVel)), Dir("mr"))]
Open(op, lim, cut) ==
  << [a |-> "call", op |-> "new", args |-> <<>>], [a |-> "resp", cmd |-> 0, id |-> 0, st |-> 0, ver |-> 5],
     [a |-> "state", mid |-> 1, mg |-> 0, cm |-> 3, rm |-> 1, zero |-> TRUE],
     [a |-> "call", op |-> op, args |-> <<>>] @@ (IF lim = "none" THEN <<>> ELSE [lim |-> (lim = "T")])
                                 @@ (IF cut = "none" THEN <<>> ELSE [cut |-> cut]),
     [a |-> "resp", cmd |-> 1, id |-> 1, st |-> 1],
     St(2, op) @@ [set |-> IF Closed THEN Moving(op) ELSE [O_T_EE_c |-> Ident]] >>
Close2(mid) == << [a |-> "state", mid |-> mid, mg |-> 0, cm |-> 3, rm |-> 1, zero |-> TRUE], [a |-> "resp", cmd |-> 1, id |-> 1, st |-> 0] >>

LpfVec(k) == <<R(<<k, 1>>, <<"0.001", "0.001", "0.01", "1", "0.0005", "-1", "nan", "inf">>), R(<<k, 2>>, <<"0", "1", "-3.7", "1E6", "12", "nan", "inf", "-inf">>),
               R(<<k, 3>>, <<"0", "-1", "2.5", "-1E6", "0.3", "nan", "-inf">>), R(<<k, 4>>, <<"100", "0.1", "37", "999", "1000", "5000", "0", "-5", "nan", "inf", "-inf">>)>>
LpfVecGood(k) == <<R(<<k, 1>>, <<"0.001", "0.01", "1", "0.0005", "0">>), R(<<k, 2>>, <<"0", "1", "-3.7", "1E6", "12">>),
                   R(<<k, 3>>, <<"0", "-1", "2.5", "-1E6", "0.3">>), R(<<k, 4>>, <<"100", "0.1", "37", "999", "1000", "5000">>)>>
Spoil(k, T) == IF One(<<k, "sp">>, 6) THEN [T EXCEPT ![FPick(seed, <<k, "at">>, 16)] = R(<<k, "bad">>, <<"nan", "inf", "-inf">>)] ELSE T
ClpfVec(k) == LET L == RotBase(k) IN
  [dt |-> R(<<k, "dt">>, <<"0.001", "0.001", "0.01", "0.1", "nan", "-1">>), c |-> R(<<k, "c">>, <<"100", "100", "1", "37", "999", "2000", "0", "-3", "inf", "nan">>), l |-> Spoil(<<k, "l">>, L),
   y |-> Spoil(<<k, "y">>, RotStep(Scale(R(<<k, "s">>, <<"0", "0.000001", "0.002", "0.05", "1", "2.5", "3">>), Dir(<<k, "d">>)), L, Place(<<k, "p">>)))]

(* transformations to convert, rigid or slightly off *)
ConvVec(k) == LET T == RotBase(k) e == R(<<k, "off">>, <<"0", "0", "1E-12", "1E-7", "2E-6">>) IN
  [p |-> Place(<<k, "pt">>), off |-> e, T |-> [i \in 1..16 |-> IF i <= 12 /\ i % 4 # 0 THEN FAdd(T[i], FMul(e, R(<<k, "n", i>>, <<"1", "-1", "0">>))) ELSE T[i]],
   v |-> [i \in 1..7 |-> R(<<k, "v", i>>, <<"0", "1", "-2.5", "1E-300", "-1E300", "0.1">>)]]

(* ---- one value that must be refused (or an unusual one that must not be) ------- *)
NotFinite == <<"nan", "inf", "-inf">>
Hit(x) == [x EXCEPT ![FPick(seed, "hit", Len(x))] = R("nf", NotFinite)]
Part(T, k) == LET d == R(<<"pd">>, <<"1.000012", "0.999988", "1.000012", "0.999988", "1.00002", "0.99998", "1.001", "0", "2", "-1.5">>) j == FPick(seed, "pj", 3) IN
  CASE k = 1 -> [T EXCEPT ![4 * FPick(seed, "row", 4)] = R("rv", <<"0.5", "1E-9", "-1", "2">>)]
    [] k = 2 -> [i \in 1..16 |-> IF i \in (4 * j - 3)..(4 * j - 1) THEN FMul(d, T[i]) ELSE T[i]]
    [] k = 3 -> [i \in 1..16 |-> IF i <= 12 /\ i % 4 = j THEN FMul(d, T[i]) ELSE T[i]]
    [] k = 4 -> [i \in 1..16 |-> IF i <= 12 THEN FMul(d, T[i]) ELSE T[i]]
    [] OTHER -> [i \in 1..16 |-> "0"]
BadElbow == <<<<"nan", "1">>, <<"inf", "-1">>, <<"0.3", "0">>, <<"0.3", "2">>, <<"-0.2", "-1.5">>, <<"0.1", "nan">>, <<"0", "0.999">>, <<"0", "-inf">>, <<"0.2", "1.0000001">>>>
BadRet(op, b) ==
  IF Len(b.x) = 16 /\ One("pk", 2) THEN [b EXCEPT !.x = Part(b.x, R("kind", <<1, 1, 2, 2, 2, 3, 3, 3, 4, 5>>))]
  ELSE IF IsCart(op) /\ Len(b.x) # 7 /\ One("ek", 3) THEN [el |-> R("be", BadElbow)] @@ b
  ELSE [b EXCEPT !.x = Hit(b.x)]
OddRet(op, b) ==
  IF Len(b.x) = 16 THEN [el |-> R("oe", <<<<"0", "1">>, <<"-0.0", "-1">>, <<"1E6", "1">>>>)] @@ [b EXCEPT !.x = [i \in 1..16 |-> IF i \in 1..3 THEN FMul(R("od", <<"1.000005", "0.999995", "1.000009", "0.999991", "1">>), b.x[i]) ELSE b.x[i]]]
  ELSE [b EXCEPT !.x[FPick(seed, "hit", Len(b.x))] = R("ov", <<"-0.0", "1E6", "-1E9", "1E-310", "4.9E-324">>)]
BadCycle(mid, op, fin) ==
  LET s == Cycle(mid, op, fin)
      k == IF Len(s) = 3 THEN 1 + FPick(seed, "which", 2) ELSE 2
  IN IF mid # c.at THEN s
     ELSE IF c.valid THEN [s EXCEPT ![k] = OddRet(op, s[k])]
     ELSE [SubSeq(s, 1, k) EXCEPT ![k] = BadRet(op, s[k])]

(* any finite value goes through untouched *)
AnyV(k) == R(<<"any", k>>, <<"0", "-0.0", "1E-9", "-3E-17", "1E-310", "4.9E-324", "0.1", "-2.345678901234567", "123456.789", "1E18", "-1E300", "1.7976931348623157E308", "0.30000000000000004">>)
AnyRet(k, op, b) == [b EXCEPT !.x = IF Len(b.x) = 16 THEN [i \in 1..16 |-> IF i \in 13..15 THEN AnyV(<<k, i>>) ELSE b.x[i]] ELSE [i \in DOMAIN b.x |-> AnyV(<<k, i>>)]]
                   @@ (IF "el" \in DOMAIN b THEN [el |-> b.el] ELSE <<>>)
ExactCycle(mid, op, fin) == LET s == Cycle(mid, op, fin) IN [k \in DOMAIN s |-> IF k = 1 THEN s[k] ELSE AnyRet(k, op, s[k])]

Draw == seed' = RandomElement(1..2000000000)
NInit == script = <<>> /\ n = 0 /\ done = FALSE /\ c = <<>> /\ seed = 0
Out(s) == PrintT("SCRIPT " \o ToJson([dev |-> "robot", fam |-> Fam, num |-> TRUE, full |-> TRUE, closed |-> Closed, steps |-> s]))
Begin == n = 0 /\ n' = 2 /\ Draw /\ UNCHANGED <<script, c, done>>
Start == /\ n = 2 /\ n' = 3 /\ Draw
         /\ c' = [op |-> R("op", Ops), amp |-> R("amp", <<"0.001", "0.02", "0.5", "1.05", "3">>), dir |-> (LET f(i) == R(<<"cd", i>>, <<"1", "-1", "0.3">>) IN V7(f)),
                     per |-> 1 + FPick(seed, "per", 8), d3 |-> Dir("cd"), spin |-> One("spin", 2), rate |-> R("rate", <<"0.3", "1", "3">>), el |-> One("cel", 2),
                  at |-> 2 + FPick(seed, "at", 3), valid |-> One("valid", 4),
                  side |-> IsCart(R("op", Ops)) /\ One("side", 3), T |-> CloseT0, T0 |-> CloseT0, v |-> Moving(R("op", Ops)).O_dP_EE_c, a |-> <<"0", "0", "0", "0", "0", "0">>]
         /\ script' = Open(R("op", Ops), R("lim", Lims), R("cut", Cuts))
         /\ UNCHANGED done
Step == /\ n >= 3 /\ n < 3 + Cycles /\ ~(Fam = "bad" /\ n > c.at /\ ~c.valid) /\ n' = n + 1 /\ Draw
        /\ script' = script \o (IF Fam = "bad" THEN BadCycle(n, c.op, n = 2 + Cycles) ELSE IF Fam = "exact" THEN ExactCycle(n, c.op, n = 2 + Cycles) ELSE IF Closed THEN ClosedCycle(n, c.op, n = 2 + Cycles) ELSE Cycle(n, c.op, n = 2 + Cycles))
        /\ IF Closed /\ c.side
           THEN LET x == SideNext(c.op) f(i) == FMul("1000", FSub(x.v[i], c.v[i])) IN c' = [c EXCEPT !.T = x.T, !.v = x.v, !.a = V6(f)]
           ELSE UNCHANGED c
        /\ UNCHANGED done
Finish == /\ n = 3 + Cycles /\ ~done /\ (Fam = "bad" => c.valid) /\ done' = TRUE /\ Out(script \o Close2(n)) /\ UNCHANGED <<script, n, c, seed>>
FinishBad == /\ Fam = "bad" /\ n > c.at /\ ~c.valid /\ n > 3 /\ ~done /\ done' = TRUE /\ Out(script) /\ UNCHANGED <<script, n, c, seed>>
PureStep == /\ n = 2 /\ ~done /\ done' = TRUE /\ UNCHANGED <<script, n, c, seed>>
        /\ LET f(i) == IF i % 3 = 0 THEN LpfVec(i) ELSE LpfVecGood(i) IN
           IF Fam = "lpf" THEN Out(<< [a |-> "call", op |-> "lpf", args |-> <<>>, v |-> [i \in 1..60 |-> f(i)]] >>)
           ELSE IF Fam = "conv" THEN Out(<< [a |-> "call", op |-> "conv", args |-> <<>>, v |-> [i \in 1..30 |-> ConvVec(i)]] >>)
           ELSE Out(<< [a |-> "call", op |-> "clpf", args |-> <<>>, v |-> [i \in 1..25 |-> ClpfVec(i)]] >>)
NNext == Begin \/ IF Fam \in {"lpf", "clpf", "conv"} THEN PureStep ELSE Start \/ Step \/ Finish \/ (n > 2 /\ FinishBad)
NSpec == NInit /\ [][NNext]_vars
=============================================================================
