------------------------------ MODULE StateSpec ------------------------------
(* The published layout of a state datagram and what a delivered state must be *)
(* for it, including the combined inertial parameters.                          *)
EXTENDS FrankaNum
Field(name, n) == [name |-> name, n |-> n]
Layout == << Field("O_T_EE", 16), Field("O_T_EE_d", 16), Field("F_T_EE", 16), Field("EE_T_K", 16), Field("F_T_NE", 16), Field("NE_T_EE", 16), Field("m_ee", 1), Field("I_ee", 9), Field("F_x_Cee", 3), Field("m_load", 1), Field("I_load", 9), Field("F_x_Cload", 3), Field("elbow", 2), Field("elbow_d", 2), Field("tau_J", 7), Field("tau_J_d", 7), Field("dtau_J", 7), Field("q", 7), Field("q_d", 7), Field("dq", 7), Field("dq_d", 7), Field("ddq_d", 7), Field("joint_contact", 7), Field("cartesian_contact", 6), Field("joint_collision", 7), Field("cartesian_collision", 6), Field("tau_ext_hat_filtered", 7), Field("O_F_ext_hat_K", 6), Field("K_F_ext_hat_K", 6), Field("O_dP_EE_d", 6), Field("O_ddP_O", 3), Field("elbow_c", 2), Field("delbow_c", 2), Field("ddelbow_c", 2), Field("O_T_EE_c", 16), Field("O_dP_EE_c", 6), Field("O_ddP_EE_c", 6), Field("theta", 7), Field("dtheta", 7) >>
ErrNames == << "JointPositionLimitsViolation", "CartesianPositionLimitsViolation", "SelfCollisionAvoidanceViolation", "JointVelocityViolation", "CartesianVelocityViolation", "ForceControlSafetyViolation", "JointReflex", "CartesianReflex", "MaxGoalPoseDeviationViolation", "MaxPathPoseDeviationViolation", "CartesianVelocityProfileSafetyViolation", "JointPositionMotionGeneratorStartPoseInvalid", "JointMotionGeneratorPositionLimitsViolation", "JointMotionGeneratorVelocityLimitsViolation", "JointMotionGeneratorVelocityDiscontinuity", "JointMotionGeneratorAccelerationDiscontinuity", "CartesianPositionMotionGeneratorStartPoseInvalid", "CartesianMotionGeneratorElbowLimitViolation", "CartesianMotionGeneratorVelocityLimitsViolation", "CartesianMotionGeneratorVelocityDiscontinuity", "CartesianMotionGeneratorAccelerationDiscontinuity", "CartesianMotionGeneratorElbowSignInconsistent", "CartesianMotionGeneratorStartElbowInvalid", "ForceControllerDesiredForceToleranceViolation", "StartElbowSignInconsistent", "CommunicationConstraintsViolation", "PowerLimitViolation", "CartesianMotionGeneratorJointPositionLimitsViolation", "CartesianMotionGeneratorJointVelocityLimitsViolation", "CartesianMotionGeneratorJointVelocityDiscontinuity", "CartesianMotionGeneratorJointAccelerationDiscontinuity", "CartesianPositionMotionGeneratorInvalidFrame", "ControllerTorqueDiscontinuity", "JointP2PInsufficientTorqueForPlanning", "TauJRangeViolation", "InstabilityDetection", "JointMoveInWrongDirection", "CartesianSplineViolation", "JointViaPlanLimitViolation", "BaseAccelerationInitializationTimeout", "BaseAccelerationInvalidReading" >>
ModeNames == <<"Other", "Idle", "Move", "Guiding", "Reflex", "UserStopped", "AutomaticErrorRecovery">>

(* contents of the datagram: explicit values, or numbers that name the field and index *)
Raw(s, k) == IF Layout[k].name \in DOMAIN s.set THEN s.set[Layout[k].name]
             ELSE [i \in 1..Layout[k].n |-> IF s.zero THEN 0 ELSE s.tag * 1000 + (k - 1) * 16 + (i - 1)]
At(name) == CHOOSE k \in DOMAIN Layout : Layout[k].name = name
Val(s, name) == Raw(s, At(name))
Rate(s) == IF "rate" \in DOMAIN s.set THEN s.set.rate[1] ELSE IF s.zero THEN 0 ELSE s.tag * 1000 + 999
Same(a, b) == FEq(a, b) \/ (~FEq(a, a) /\ ~FEq(b, b))
SameAll(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Same(x[i], y[i])

(* ---- rigid body combination ---------------------------------------------------- *)
Cross3(v) == <<<<"0", Neg(v[3]), v[2]>>, <<v[3], "0", Neg(v[1])>>, <<Neg(v[2]), v[1], "0">>>>
(* entry (i, j) of m (|x|^2 1 - x x'), the parallel axis term *)
Steiner(m, x, i, j) == FMul(m, FSub(IF i = j THEN Dot(x, x) ELSE "0", FMul(x[i], x[j])))
Com(m1, x1, m2, x2) ==
  IF FLt("0", FAdd(m1, m2))
  THEN LET c(i) == FDiv(FAdd(FMul(m1, x1[i]), FMul(m2, x2[i])), FAdd(m1, m2)) IN V3(c)
  ELSE <<"0", "0", "0">>
Col3(i, j) == 3 * (j - 1) + i
Own(m, I, k) == IF FEq(m, "0") THEN "0" ELSE I[k]
Inertia(m1, x1, I1, m2, x2, I2, i, j) ==
  LET c == Com(m1, x1, m2, x2) k == Col3(i, j) IN
  FSub(FAdd(FAdd(Own(m1, I1, k), Steiner(m1, x1, i, j)), FAdd(Own(m2, I2, k), Steiner(m2, x2, i, j))), Steiner(FAdd(m1, m2), c, i, j))
Size(m1, x1, I1, m2, x2, I2) ==     \* magnitude of the terms, for rounding
  FAdd(FAdd(FMul(m1, Dot(x1, x1)), FMul(m2, Dot(x2, x2))), FAdd(FAbs(I1[1]), FAdd(FAbs(I2[1]), "1")))
InertialOk(s, f) ==
  LET m1 == Val(s, "m_ee")[1] m2 == Val(s, "m_load")[1]
      x1 == Val(s, "F_x_Cee") x2 == Val(s, "F_x_Cload")
      I1 == Val(s, "I_ee")    I2 == Val(s, "I_load")
      tol == FMul("1E-12", Size(m1, x1, I1, m2, x2, I2))
  IN /\ Close(f.m_total[1], FAdd(m1, m2), "1E-15")
     /\ CloseAll(f.F_x_Ctotal, Com(m1, x1, m2, x2), "1E-13")
     /\ Len(f.I_total) = 9
     /\ \A i \in 1..3, j \in 1..3 : FLe(FAbs(FSub(f.I_total[Col3(i, j)], Inertia(m1, x1, I1, m2, x2, I2, i, j))), tol)
NamesOf(set) == {ErrNames[k + 1] : k \in set}
RangeOf(q) == {q[i] : i \in DOMAIN q}
(* a delivered state st against the datagram s *)
DecodeOk(s, st) ==
  /\ st.mid = s.mid /\ st.rm = ModeNames[s.rm + 1]
  /\ RangeOf(st.errn) = NamesOf(RangeOf(s.err)) /\ Len(st.errn) = Len(s.err)
  /\ RangeOf(st.refln) = NamesOf(RangeOf(s.refl)) /\ Len(st.refln) = Len(s.refl)
  /\ \A k \in DOMAIN Layout : SameAll(st.f[Layout[k].name], Raw(s, k))
  /\ Same(st.f.rate[1], Rate(s))
  /\ InertialOk(s, st.f)
=============================================================================
