---------------------------- MODULE MotionGenSpec ----------------------------
(* What a point-to-point joint trajectory must satisfy: it starts at rest at   *)
(* the start, moves monotonically to the goal within the scaled speed and      *)
(* acceleration limits, all joints arriving together, and is marked finished   *)
(* exactly from the moment it is there.                                        *)
EXTENDS FrankaNum
DqMax == <<"2", "2", "2", "2", "2.5", "2.5", "2.5">>
DdqMax == "5"
Sec(us) == FMul("0.000001", us)
Slack(us) == FAdd("1E-9", FDiv("2E-14", Sec(us)))     \* rounding of positions, divided by the time step
StayPut == "0.0000011"
(* p: sequence of [q, fin, us, t] (us: time since the previous point, t: since the start) *)
Moving(s, g, i) == FLt(StayPut, FAbs(FSub(g[i], s[i])))
Sgn(s, g, i) == IF FLt(s[i], g[i]) THEN "1" ELSE "-1"
AtGoal(q, s, g, i) == FLe(FAbs(FSub(q[i], g[i])), IF Moving(s, g, i) THEN "1E-11" ELSE StayPut)
TrajectoryOk(p0, s, g, speed) ==
  LET p == SelectSeq(p0, LAMBDA x : x.us > 0 \/ x = p0[1])
      n == Len(p)
      fins == {k \in 1..n : p[k].fin}
      fst == CHOOSE k \in fins : \A j \in fins : k <= j
      am == FMul(DdqMax, speed)
      v(k, i) == FDiv(FSub(p[k].q[i], p[k - 1].q[i]), Sec(p[k].us))      \* mean velocity up to point k
  IN /\ \A k \in 2..Len(p0) : p0[k].us = 0 => CloseAll(p0[k].q, p0[k - 1].q, "1E-12")
     /\ fins # {} /\ fins = fst..n
     /\ \A i \in 1..7 :
        /\ FLe(FAbs(FSub(p[1].q[i], s[i])), StayPut)
        /\ (Moving(s, g, i) => FEq(p[1].q[i], s[i]))
        /\ (~Moving(s, g, i) => \A k \in 1..n : AtGoal(p[k].q, s, g, i))
        /\ \A k \in fins : AtGoal(p[k].q, s, g, i)
        /\ Moving(s, g, i) =>
           /\ \A k \in 2..n :
              /\ FLe("-1E-12", FMul(Sgn(s, g, i), FSub(p[k].q[i], p[k - 1].q[i])))
              /\ FLe(FAbs(v(k, i)), FAdd(FMul(DqMax[i], speed), Slack(p[k].us)))
              /\ FLe(FAbs(FSub(v(k, i), IF k = 2 THEN "0" ELSE v(k - 1, i))),
                     FAdd(FMul(am, Half(FAdd(Sec(p[k].us), IF k = 2 THEN "0" ELSE Sec(p[k - 1].us)))), FAdd(Slack(p[k].us), IF k = 2 THEN "0" ELSE Slack(p[k - 1].us))))
           /\ \A k \in 1..n : FLe("-1E-11", FMul(Sgn(s, g, i), FSub(g[i], p[k].q[i])))
           \* nobody arrives clearly before the others
           /\ (FLt("0.00001", FAbs(FSub(g[i], s[i]))) /\ fst > 2) =>
              \A k \in 1..(fst - 1) : p[k].t + 30000 <= p[fst - 1].t => FLt("1E-9", FAbs(FSub(g[i], p[k].q[i])))
     \* not finished before every joint is there
     /\ \A k \in 1..(fst - 1) : ~p[k].fin

(* the same trajectory as commanded in a motion with 1 ms cycles, through the rate limiter *)
DrivenOk(qs, s, g, speed) ==
  /\ Len(qs) > 0
  /\ \A i \in 1..7 :
     /\ FLe(FAbs(FSub(qs[1][i], s[i])), "0.000002")
     /\ FLe(FAbs(FSub(qs[Len(qs)][i], g[i])), "0.0001")
     /\ \A k \in 2..Len(qs) :
        /\ FLe("-0.0000001", FMul(Sgn(s, g, i), FSub(qs[k][i], qs[k - 1][i])))
        /\ FLe(FAbs(FSub(qs[k][i], qs[k - 1][i])), FAdd(FMul("0.001", FMul(DqMax[i], speed)), "0.000006"))
=============================================================================
