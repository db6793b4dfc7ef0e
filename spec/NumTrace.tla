------------------------------ MODULE NumTrace ------------------------------
(* Validates recorded control loops: every command sent must be what the      *)
(* published filter and limits make of the callback's value and the state the *)
(* callback was given.                                                        *)
EXTENDS FrankaNum, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Focus == IOEnv.FOCUS
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tr, l, call, st, exp, tau
vars == <<tr, l, call, st, exp, tau>>
Tr == Traces[tr]
E == Tr.ev[l]
Is(x) == l <= Len(Tr.ev) /\ E.e = x
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
None == [k |-> "none"]

Zeros7 == <<"0", "0", "0", "0", "0", "0", "0">>
NInit == tr \in 1..Len(Traces) /\ l = 1 /\ call = None /\ st = None /\ exp = None /\ tau = [v |-> Zeros7, n |-> <<>>]
Adv == l' = l + 1 /\ tr' = tr

Limiting == Get(call, "lim", TRUE)
Cut == Get(call, "cut", "100")
Joint == call.op \in {"jp", "tjp"}
JVelo == call.op \in {"jv", "tjv"}
Pose == call.op \in {"cp", "tcp"}
Twist == call.op \in {"cv", "tcv"}

ExpJointPos(x, n) ==
  LET f(i) == LET y == Filter(x[i], n.q_d[i], Cut) IN
              IF Limiting THEN LimitPosition(JVel[i], JAcc[i], JJerk[i], y, n.q_d[i], n.dq_d[i], n.ddq_d[i]) ELSE y
  IN V7(f)
ExpJointVel(x, n) ==
  LET f(i) == LET y == Filter(x[i], n.dq_d[i], Cut) IN
              IF Limiting THEN LimitVelocity(JVel[i], JAcc[i], JJerk[i], y, n.dq_d[i], n.ddq_d[i]) ELSE y
  IN V7(f)
ExpPose(x, n) == LET y == FilterPose(x, n.O_T_EE_c, Cut) IN
  IF Limiting THEN LimitPose(y, n.O_T_EE_c, n.O_dP_EE_c, n.O_ddP_EE_c) ELSE y
ExpTwist(x, n) == LET f(i) == Filter(x[i], n.O_dP_EE_c[i], Cut)
                      y == V6(f)
  IN IF Limiting THEN LimitTwist(y, n.O_dP_EE_c, n.O_ddP_EE_c) ELSE y
ExpElbow(e, n) == IF e = <<>> THEN <<>> ELSE
  LET y == Filter(e[1], n.elbow_c[1], Cut)
  IN << IF Limiting THEN LimitPosition(EVel, EAcc, EJerk, y, n.elbow_c[1], n.delbow_c[1], n.ddelbow_c[1]) ELSE y, e[2] >>
ExpTau(x, n) == LET f(i) == LET y == Filter(x[i], n.tau_J_d[i], Cut) IN IF Limiting THEN LimitTorque(y, n.tau_J_d[i]) ELSE y IN V7(f)
ExpMotion(e, n) ==
  [k |-> "mot", n |-> n, req |-> e.x, v |-> CASE Joint -> ExpJointPos(e.x, n) [] JVelo -> ExpJointVel(e.x, n) [] Pose -> ExpPose(e.x, n) [] Twist -> ExpTwist(e.x, n),
   el |-> ExpElbow(e.el, n)]

(* only rounding may differ; with neither filter nor limiter (C15) not even that *)
JTol == IF Focus \in {"C15", "C23"} THEN "0" ELSE "3E-13"
CTol == IF Focus \in {"C15", "C23"} THEN "0" ELSE "1E-7"
PTol == IF Focus \in {"C15", "C23"} THEN "0" ELSE "1E-9"
RTol == IF Focus \in {"C15", "C23"} THEN "0" ELSE "1E-7"
Rots(T) == <<T[1], T[2], T[3], T[5], T[6], T[7], T[9], T[10], T[11]>>

(* Focus: which part of a command is judged exactly *)
Exact == \/ Focus \in {"C15", "C18", "C23"}
         \/ Focus \in {"C16", "C17"} /\ ~Filtering(Cut)
CartFocus == Focus \in {"C15", "C17", "C18", "C23"}
JointFocus == Focus \in {"C15", "C16", "C18", "C23"}

(* close to the speed limit a square root near zero magnifies rounding *)
Tight(v0, vm) == IF Focus \in {"C15", "C23"} THEN "0" ELSE IF FLt(Norm(v0), FMul("0.95", vm)) THEN "1E-11" ELSE CTol
TightP(n) == IF Focus = "C17" /\ FLt(Norm(Lin(n.O_dP_EE_c)), FMul("0.95", TVel)) THEN "1E-12" ELSE PTol
TightR(n) == IF Focus = "C17" /\ FLt(Norm(Ang(n.O_dP_EE_c)), FMul("0.9", RVel)) THEN "5E-8" ELSE RTol
MatchMotion(e) ==
  IF exp.k = "none" THEN TRUE
  ELSE /\ (JointFocus /\ Joint => CloseAll(e.q, exp.v, JTol))
       /\ (JointFocus /\ JVelo => CloseAll(e.dq, exp.v, JTol))
       /\ (CartFocus /\ Twist => /\ CloseAll(Lin(e.dP), Lin(exp.v), Tight(Lin(exp.n.O_dP_EE_c), TVel))
                                   /\ CloseAll(Ang(e.dP), Ang(exp.v), Tight(Ang(exp.n.O_dP_EE_c), RVel)))
       /\ (CartFocus /\ Pose => CloseAll(Pos(e.T), Pos(exp.v), TightP(exp.n)) /\ CloseAll(Rots(e.T), Rots(exp.v), TightR(exp.n)) /\ Homogeneous(e.T))
       /\ (JointFocus /\ exp.el # <<>> => e.ve = 1 /\ Close(e.el[1], exp.el[1], JTol) /\ FEq(e.el[2], exp.el[2]))
       /\ (JointFocus /\ exp.el = <<>> => e.ve = 0)
MatchTau(e) == JointFocus => CloseAll(e.tau, tau.v, JTol)

(* bounds relative to the last commanded values, whatever was asked for *)
B == "1E-6"     \* relative slack for rounding of differences over 1 ms
Within(x, lim) == FLe(FAbs(x), FAdd(lim, FMul(B, FMax("1", lim))))
Rate(x, x0) == FMul("1000", FSub(x, x0))
BoundsAxis(v, v0, a0, vm, am, jm, jerk) ==
  LET a == Rate(v, v0) IN /\ Within(v, vm) /\ Within(a, am)
                          /\ jerk => FLe(FAbs(Rate(a, a0)), FMul(jm, "1.001"))
Bounds3(v, v0, vm, am) == Within(Norm(v), vm) /\ Within(Norm(Scale("1000", Sub3(v, v0))), am)
Rigid(T) ==
  /\ Homogeneous(T)
  /\ \A p \in {<<1, 2>>, <<1, 3>>, <<2, 3>>} :
       FLe(FAbs(Dot(<<El(T, 1, p[1]), El(T, 2, p[1]), El(T, 3, p[1])>>, <<El(T, 1, p[2]), El(T, 2, p[2]), El(T, 3, p[2])>>)), "1E-9")
InBounds(e) ==
  IF exp.k = "none" \/ ~Limiting THEN TRUE
  ELSE LET n == exp.n IN
    /\ (Focus = "C16" /\ Joint => \A i \in 1..7 : BoundsAxis(Rate(e.q[i], n.q_d[i]), n.dq_d[i], n.ddq_d[i], JVel[i], JAcc[i], JJerk[i], Get(Tr, "closed", FALSE)))
    /\ (Focus = "C16" /\ JVelo => \A i \in 1..7 : BoundsAxis(e.dq[i], n.dq_d[i], n.ddq_d[i], JVel[i], JAcc[i], JJerk[i], Get(Tr, "closed", FALSE)))
    /\ (Focus = "C16" /\ exp.el # <<>> => BoundsAxis(Rate(e.el[1], n.elbow_c[1]), n.delbow_c[1], n.ddelbow_c[1], EVel, EAcc, EJerk, Get(Tr, "closed", FALSE)))
    /\ (Focus = "C17" /\ Twist => Bounds3(Lin(e.dP), Lin(n.O_dP_EE_c), TVel, TAcc) /\ Bounds3(Ang(e.dP), Ang(n.O_dP_EE_c), RVel, RAcc))
    /\ (Focus = "C17" /\ Pose => /\ Rigid(e.T)
                                 /\ Bounds3(Scale("1000", Sub3(Pos(e.T), Pos(n.O_T_EE_c))), Lin(n.O_dP_EE_c), TVel, TAcc)
                                 /\ Bounds3(Scale("1000", RotLog(e.T, n.O_T_EE_c)), Ang(n.O_dP_EE_c), RVel, RAcc))
TauBounds(e) == (Focus = "C16" /\ Limiting /\ tau.n # <<>>) =>
   \A i \in 1..7 : Within(Rate(e.tau[i], tau.n[i]), TorqueRate)

TCall == /\ Is("call") /\ Adv /\ call' = E /\ exp' = None /\ tau' = [v |-> Zeros7, n |-> <<>>] /\ UNCHANGED st
TState == Is("state") /\ Adv /\ st' = E /\ UNCHANGED <<call, exp, tau>>
(* a value that must never reach the robot *)
Spoilt == exp.k = "bad"
BadVal(e) == \/ ~FiniteAll(e.x)
             \/ e.k # "ctl" /\ Len(e.x) = 16 /\ ~Homogeneous(e.x)
             \/ e.k # "ctl" /\ e.el # <<>> /\ ~(FFinite(e.el[1]) /\ (FEq(e.el[2], "1") \/ FEq(e.el[2], "-1")))
TCbRet == /\ Is("cbret") /\ Adv /\ (~E.desync \/ Spoilt)
          /\ IF Spoilt THEN UNCHANGED <<exp, tau>>
             ELSE IF Focus = "C14" THEN exp' = (IF BadVal(E) THEN [k |-> "bad"] ELSE None) /\ UNCHANGED tau
             ELSE IF E.k = "ctl" THEN tau' = [v |-> ExpTau(E.x, st.n), n |-> st.n.tau_J_d] /\ UNCHANGED exp
             ELSE exp' = ExpMotion(E, st.n) /\ UNCHANGED tau
          /\ UNCHANGED <<call, st>>
TCb == Is("cb") /\ Adv /\ E.mid = st.mid /\ UNCHANGED <<call, st, exp, tau>>
Refused == Focus = "C18" /\ call.op # "new" /\ ~FLt("0", Cut) /\ Filtering(Cut)
TCmd == /\ Is("cmd") /\ Adv /\ ~Refused /\ ~Spoilt /\ UNCHANGED <<call, st, exp, tau>>
        /\ (Exact => MatchMotion(E) /\ MatchTau(E))
        /\ InBounds(E) /\ TauBounds(E)
(* the functions called directly *)
LpfRef(v) == /\ FFinite(v[1]) /\ FLe("0", v[1]) /\ v[1] # "-0.0" /\ FFinite(v[2]) /\ FFinite(v[3]) /\ FFinite(v[4]) /\ FLt("0", v[4])
(* rounding is relative to the larger of the two values combined *)
LpfTol(v) == FMul("1E-14", FMax("100", FMax(FAbs(v[2]), FAbs(v[3]))))
LpfOk(v, x) == IF LpfRef(v) THEN x # "panic" /\ Close(x, LowPass(v[1], v[2], v[3], v[4]), LpfTol(v)) ELSE x = "panic"
ClpfRef(v) == FiniteAll(v.y) /\ FiniteAll(v.l) /\ LpfRef(<<v.dt, "0", "0", v.c>>)
ClpfOk(v, x) == IF ClpfRef(v)
  THEN Len(x) = 16 /\ LET e == FilterPoseDt(v.dt, v.y, v.l, v.c) IN CloseAll(Pos(x), Pos(e), PTol) /\ CloseAll(Rots(x), Rots(e), RTol) /\ Homogeneous(x)
  ELSE x = <<"panic">>
(* conversions between arrays, isometries, vectors and commands *)
Apply(T, p) == LET f(i) == FAdd(FAdd(FAdd(FMul(El(T, i, 1), p[1]), FMul(El(T, i, 2), p[2])), FMul(El(T, i, 3), p[3])), T[12 + i]) IN <<f(1), f(2), f(3)>>
ConvOk(v, x) == LET tol == FAdd("1E-12", FMul("3", v.off)) IN
  /\ Len(x.m) = 16 /\ Rigid(x.m) /\ CloseAll(Rots(x.m), Rots(v.T), tol) /\ CloseAll(Pos(x.m), Pos(v.T), "0")
  /\ CloseAll(x.p, Apply(v.T, v.p), FMul("10", tol))
  /\ CloseAll(x.back, Rots(x.m), "1E-12")
  /\ CloseAll(x.a, v.T, "0") /\ x.el = 0
  /\ CloseAll(x.q, v.v, "0") /\ CloseAll(x.dq, v.v, "0") /\ CloseAll(x.tau, v.v, "0") /\ CloseAll(x.dP, SubSeq(v.v, 1, 6), "0")
  /\ ~x.fin
TRet == /\ Is("ret") /\ Adv /\ UNCHANGED <<call, st, exp, tau>>
        /\ CASE call.op = "lpf" -> E.r = "nums" /\ Len(E.x) = Len(call.v) /\ \A i \in DOMAIN E.x : LpfOk(call.v[i], E.x[i])
             [] call.op = "clpf" -> E.r = "mats" /\ Len(E.x) = Len(call.v) /\ \A i \in DOMAIN E.x : ClpfOk(call.v[i], E.x[i])
             [] call.op = "conv" -> E.r = "conv" /\ Len(E.x) = Len(call.v) /\ \A i \in DOMAIN E.x : ConvOk(call.v[i], E.x[i])
             [] OTHER -> (E.r = "err") = (Refused \/ Spoilt)
(* a cutoff the filter refuses: the call must fail loudly, and nothing may be sent *)
TPanic == /\ Is("panic") /\ Adv /\ UNCHANGED <<call, st, exp, tau>>
          /\ Refused \/ Spoilt
TOther == l <= Len(Tr.ev) /\ E.e \in {"req", "resp", "seg", "blocked"} /\ Adv /\ UNCHANGED <<call, st, exp, tau>>
          /\ (E.e = "blocked" => E.why = "end" \/ Spoilt)
TDone == l = Len(Tr.ev) + 1 /\ PrintT(<<"DONE", tr>>) /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED <<call, st, exp, tau>>
NNext == TCall \/ TState \/ TCbRet \/ TCb \/ TCmd \/ TRet \/ TPanic \/ TOther \/ TDone
Show == Verbose => PrintT(<<"AT", tr, l, 0>>) /\ PrintT("SPEC " \o ToString(l) \o " " \o ToString(exp) \o " " \o ToString(tau))
NSpec == NInit /\ [][NNext]_vars
=============================================================================
