----------------------------- MODULE FrankaWire -----------------------------
(* The published Franka protocol (robot interface version 5, gripper          *)
(* version 3): command codes, message sizes, default arguments, and what      *)
(* every reply status means for the caller.  Written from the protocol, not   *)
(* from the library.                                                          *)
EXTENDS Integers, Sequences, TLC

Str(n) == ToString(n)
Version(d)   == IF d = "robot" THEN 5 ELSE 3
HeaderLen(d) == IF d = "robot" THEN 12 ELSE 10

(* robot state modes *)
MgIdle == 0
CmExternal == 2
CmOther == 3
RmMove == 2

RobotSetters == {"set_collision", "set_joint_imp", "set_cart_imp", "set_guiding",
                 "set_k", "set_ee", "set_load", "set_filters"}
RobotSimple == RobotSetters \union {"get_wall", "recover", "stop"}
GripperSimple == {"homing", "gstop", "gmove", "grasp"}
MotionOps == {"jp", "jv", "cp", "cv", "tjp", "tjv", "tcp", "tcv", "tau"}

CmdOf(op) ==
  CASE op = "new" -> 0        [] op = "homing" -> 1      [] op = "grasp" -> 2
    [] op = "gmove" -> 3      [] op = "gstop" -> 4
    [] op = "stop" -> 2       [] op = "get_wall" -> 3    [] op = "set_collision" -> 4
    [] op = "set_joint_imp" -> 5 [] op = "set_cart_imp" -> 6 [] op = "set_guiding" -> 7
    [] op = "set_k" -> 8      [] op = "set_ee" -> 9      [] op = "set_load" -> 10
    [] op = "set_filters" -> 11 [] op = "recover" -> 12  [] op = "load_model" -> 13
    [] op \in MotionOps -> 1

(* length in bytes of the request body *)
BodyLen(d, cmd) ==
  IF d = "robot"
  THEN CASE cmd = 0 -> 4 [] cmd = 1 -> 56 [] cmd = 2 -> 0 [] cmd = 3 -> 4 [] cmd = 4 -> 416
         [] cmd = 5 -> 56 [] cmd = 6 -> 48 [] cmd = 7 -> 7 [] cmd \in {8, 9} -> 128
         [] cmd = 10 -> 104 [] cmd = 11 -> 40 [] cmd = 12 -> 0 [] cmd = 13 -> 2
  ELSE CASE cmd = 0 -> 4 [] cmd \in {1, 4} -> 0 [] cmd = 2 -> 40 [] cmd = 3 -> 16

Rep(x, n) == [i \in 1..n |-> x]
(* the documented default behaviour: three setter requests *)
DefaultSeq == <<
  [op |-> "set_collision", args |-> Rep("20", 14) \o Rep("10", 14) \o Rep("20", 12) \o Rep("10", 12)],
  [op |-> "set_joint_imp", args |-> <<"3000", "3000", "3000", "2500", "2500", "2000", "2000">>],
  [op |-> "set_cart_imp",  args |-> <<"3000", "3000", "3000", "300", "300", "300">>] >>

Deviation == <<"10", "3.12", "6.283185307179586">>

(* motion interface and controller of a control call *)
OpMg(op) == CASE op \in {"jp", "tjp"} -> 1 [] op \in {"jv", "tjv", "tau"} -> 2
              [] op \in {"cp", "tcp"} -> 3 [] op \in {"cv", "tcv"} -> 4
External(op) == op \in {"tjp", "tjv", "tcp", "tcv", "tau"}
HasMotionCb(op) == op # "tau"

(* arguments of a simple request on the wire *)
WireArgs(op, a) ==
  IF op = "grasp"
  THEN <<a[1], IF a[4] = "none" THEN "0.005" ELSE a[4],
         IF a[5] = "none" THEN "0.005" ELSE a[5], a[2], a[3]>>
  ELSE a

(* ---- statuses -------------------------------------------------------- *)
StatusSet(d, cmd) ==
  IF d = "gripper" THEN (IF cmd = 0 THEN {0, 1} ELSE 0..3)
  ELSE CASE cmd = 0 -> 0..1 [] cmd = 1 -> 0..9 [] cmd = 2 -> 0..4 [] cmd \in 3..11 -> 0..2
         [] cmd = 12 -> 0..5 [] cmd = 13 -> 0..1

MoveWhy(st) ==
  CASE st = 2 -> "preempted" [] st = 3 -> "notpossible" [] st = 4 -> "singular" [] st = 5 -> "deviation"
    [] st = 6 -> "reflex" [] st = 7 -> "userstop" [] st = 8 -> "input" [] st = 9 -> "aborted"
MoveAccepted(st) == st \in {0, 1}
MoveReflex == 6

NoRes == [r |-> "none", k |-> "", why |-> "", errs |-> <<>>, haslog |-> FALSE, log |-> <<>>, aux |-> <<>>]
Ok(r)        == [NoRes EXCEPT !.r = r]
Err(k, why)  == [NoRes EXCEPT !.r = "err", !.k = k, !.why = why]
NetErr       == Err("network", "")

(* what a simple command returns for a reply status *)
Outcome(d, cmd, st) ==
  IF d = "gripper"
  THEN CASE st = 0 -> Ok("true") [] st = 2 -> Ok("false")
         [] st = 1 -> Err("command", "failed") [] st = 3 -> Err("command", "aborted")
  ELSE IF st = 0 THEN Ok("ok")
  ELSE IF cmd \in 3..11
       THEN Err("command", IF st = 1 THEN "notpossible" ELSE "invalidarg")
  ELSE IF cmd = 12
       THEN Err("command", CASE st = 1 -> "notpossible" [] st = 2 -> "manual" [] st = 3 -> "reflex"
                             [] st = 4 -> "userstop" [] st = 5 -> "aborted")
  ELSE Err("command", CASE st = 1 -> "notpossible" [] st = 2 -> "userstop" [] st = 3 -> "reflex"
                        [] st = 4 -> "aborted")

(* four fields that identify the datagram a state was decoded from *)
Sample(tag) == <<Str(tag * 1000), Str(tag * 1000 + 18 * 16 + 3), Str(tag * 1000 + 38 * 16 + 6), Str(tag * 1000 + 999)>>
=============================================================================
