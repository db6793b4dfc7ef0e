------------------------------- MODULE MgTrace -------------------------------
(* Judges recorded point-to-point trajectories and joint motions.              *)
EXTENDS MotionGenSpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.VERBOSE = "1"
VARIABLES tr, l, call, qs, fin
vars == <<tr, l, call, qs, fin>>
E == Traces[tr].ev[l]
Is(x) == l <= Len(Traces[tr].ev) /\ E.e = x
Adv == l' = l + 1 /\ tr' = tr
MInit == tr \in 1..Len(Traces) /\ l = 1 /\ call = [op |-> "none"] /\ qs = <<>> /\ fin = 0
TCall == Is("call") /\ Adv /\ call' = E /\ qs' = <<>> /\ fin' = 0
TOther == l <= Len(Traces[tr].ev) /\ E.e \in {"req", "resp", "state"} /\ Adv /\ UNCHANGED <<call, qs, fin>>
TCmd == /\ Is("cmd") /\ Adv /\ UNCHANGED call /\ call.op = "joint_motion"
        /\ (fin = 1 => E.fin = 1 /\ E.q = qs[Len(qs)])
        /\ fin' = E.fin /\ qs' = Append(qs, E.q)
TRet == /\ Is("ret") /\ Adv /\ UNCHANGED <<call, qs, fin>>
        /\ CASE call.op = "mgen" -> E.r = "traj" /\ TrajectoryOk(E.p, call.start, call.goal, call.speed)
             [] call.op = "joint_motion" ->
                  /\ (call.want = "ok" => E.r = "ok")
                  /\ (call.want # "ok" => E.r = "err" /\ E.k = call.want)
                  /\ (call.want = "command" => qs = <<>>)
                  /\ (call.want # "command" => fin = 1 /\ DrivenOk(qs, call.start, call.goal, call.speed))
             [] OTHER -> E.r = "ver"
TDone == l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"DONE", tr>>) /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED <<call, qs, fin>>
Show == Verbose => PrintT(<<"AT", tr, l, 0>>)
MSpec == MInit /\ [][TCall \/ TOther \/ TCmd \/ TRet \/ TDone]_vars
=============================================================================
