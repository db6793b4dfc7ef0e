--------------------------- MODULE FrankaFamilies ---------------------------
(* Scenario families: which calls, replies, modes and disturbances FrankaGen   *)
(* combines, and the budgets that keep each family finite.                     *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Family(_)

IdleMode == [mg |-> 0, cm |-> 3, rm |-> 1, refl |-> <<>>, need |-> 0]
IdleModes == { [IdleMode EXCEPT !.rm = r] : r \in {0, 1, 3, 4, 5, 6} }
(* states on the way into a motion that are not yet the requested modes *)
StartModes(wmg, wcm) == {
  [mg |-> 0, cm |-> 3, rm |-> 1, refl |-> <<>>, need |-> 1],
  [mg |-> wmg, cm |-> 3, rm |-> 2, refl |-> <<>>, need |-> 1],
  [mg |-> 0, cm |-> wcm, rm |-> 2, refl |-> <<>>, need |-> 1] }
(* ways to leave a running motion *)
AbortModes(wmg, wcm) == {
  [mg |-> 0, cm |-> 3, rm |-> 4, refl |-> <<7, 19>>, need |-> 0],
  [mg |-> 0, cm |-> 3, rm |-> 5, refl |-> <<>>, need |-> 0],
  [mg |-> wmg, cm |-> wcm, rm |-> 4, refl |-> <<0, 40>>, need |-> 0],
  [mg |-> wmg, cm |-> wcm, rm |-> 0, refl |-> <<12>>, need |-> 0],
  [mg |-> wmg, cm |-> wcm, rm |-> 1, refl |-> <<>>, need |-> 0],
  [mg |-> wmg, cm |-> wcm, rm |-> 3, refl |-> <<1, 2>>, need |-> 0],
  [mg |-> 0, cm |-> wcm, rm |-> 6, refl |-> <<>>, need |-> 0],
  [mg |-> (wmg % 4) + 1, cm |-> wcm, rm |-> 2, refl |-> <<>>, need |-> 0],
  [mg |-> wmg, cm |-> (wcm + 1) % 4, rm |-> 2, refl |-> <<3>>, need |-> 0] }
FewAborts(wmg, wcm) == {
  [mg |-> 0, cm |-> 3, rm |-> 4, refl |-> <<7, 19>>, need |-> 0],
  [mg |-> wmg, cm |-> wcm, rm |-> 5, refl |-> <<>>, need |-> 0] }
AbortSet(kind, wmg, wcm) == IF kind = "all" THEN AbortModes(wmg, wcm) ELSE IF kind = "few" THEN FewAborts(wmg, wcm) ELSE {}
(* at rest / not yet at rest *)
StopModes == { IdleMode, [mg |-> 0, cm |-> 3, rm |-> 4, refl |-> <<7, 19>>, need |-> 0] }
BusyModes(wmg, wcm) == {
  [mg |-> wmg, cm |-> wcm, rm |-> 2, refl |-> <<>>, need |-> 0],
  [mg |-> wmg, cm |-> 3, rm |-> 2, refl |-> <<>>, need |-> 0],
  [mg |-> wmg, cm |-> wcm, rm |-> 0, refl |-> <<5>>, need |-> 0],
  [mg |-> 0, cm |-> 2, rm |-> 2, refl |-> <<>>, need |-> 0] }
OldModes == { IdleMode, [mg |-> 1, cm |-> 0, rm |-> 2, refl |-> <<>>, need |-> 0] }

C(op) == [op |-> op, args |-> <<>>]
A(op, n) == [op |-> op, args |-> [i \in 1..n |-> ToString(100 * n + i)]]
(* the same with unusual values at some places *)
Odd == {"0", "-3.5", "1e300", "5e-324", "NaN"}
A1(op, n, i, v) == [A(op, n) EXCEPT !.args[i] = v]
AllSame(op, n, v) == [op |-> op, args |-> [i \in 1..n |-> v]]
OddOf(op, n) == {A1(op, n, i, v) : i \in 1..n, v \in Odd} \union {AllSame(op, n, v) : v \in Odd}
Flags == [1..7 -> {"0", "1"}]
New == [op |-> "new", args |-> <<>>, log |-> 50]
NewLog(n) == [op |-> "new", args |-> <<>>, log |-> n]
M(op, cm) == [op |-> op, args |-> <<>>, lim |-> FALSE, cut |-> 1000, cm |-> cm]
Cfg(c, lim, cut) == [c EXCEPT !.lim = lim, !.cut = cut]
Motions == { M(op, cm) : op \in {"jp", "jv", "cp", "cv"}, cm \in {"ji", "ci"} }
           \union { M(op, "ji") : op \in {"tjp", "tjv", "tcp", "tcv", "tau"} }
FewMotions == { M("jp", "ji"), M("cv", "ci"), M("tjp", "ji"), M("tau", "ji") }
Setters == { A("set_collision", 52), A("set_joint_imp", 7), A("set_cart_imp", 6),
             [op |-> "set_guiding", args |-> <<"1", "0", "1", "1", "0", "0", "1">>], [op |-> "set_guiding", args |-> <<"0", "1", "0", "0", "1", "1", "0">>],
             A("set_k", 16), A("set_ee", 16), A("set_load", 13), A("set_filters", 5),
             [op |-> "get_wall", args |-> <<"7">>], C("recover"), C("stop") }
GripperCmds == { C("homing"), C("gstop"), A("gmove", 2), A("grasp", 5),
                 [op |-> "grasp", args |-> <<"31", "32", "33", "none", "none">>], [op |-> "grasp", args |-> <<"31", "32", "33", "34", "none">>],
                 [op |-> "grasp", args |-> <<"31", "32", "33", "none", "35">>] }
Composite == { C("default_behavior") }

Rt0 == [kernel |-> FALSE, priomax |-> 99, setsched |-> 0, mlockall |-> 0]
RtGood == [kernel |-> TRUE, priomax |-> 99, setsched |-> 0, mlockall |-> 0]

Base == [ name |-> "", dev |-> "robot", calls |-> << {New} >>, ex |-> 0, nr |-> 0, cbMin |-> 0, cbMax |-> 1,
          extra |-> {}, gaps |-> {1}, back |-> {0, 1}, junk |-> {10}, burst |-> {3, 28}, series |-> {3}, vers |-> {5}, foreignSt |-> {0},
          st |-> [conn |-> {0}, cmd |-> 0..9, move |-> {1}, stop |-> {0}, model |-> {0}],
          abort |-> "none", abortSt |-> {6}, finSt |-> {0},
          first |-> {IdleMode}, idle |-> {IdleMode}, libs |-> {}, rt |-> {Rt0},
          cbv |-> {[a |-> "cbret"]},
          slow |-> "none",   \* all "not yet" states come: while starting, or while stopping

          seg |-> FALSE, cut |-> 0, cuts |-> {} ]
AllMoveErr == 2..9



Cmds0 == { A("set_joint_imp", 7), C("recover"), C("stop"), [op |-> "get_wall", args |-> <<"3">>] }
Reads == { C("read_once"), C("read") }
NewG == [op |-> "new", args |-> <<>>]
AllSetters == Setters \union Composite
Load(p) == [op |-> "load_model", args |-> <<>>, persistent |-> p]
NewRt(m) == [op |-> "new", args |-> <<>>, log |-> 50, rt |-> m]
RtEnvs == { [kernel |-> k, priomax |-> p, setsched |-> s, mlockall |-> m] :
              k \in BOOLEAN, p \in {99, 50, -1}, s \in {0, 1}, m \in {0, -1} }
AnyCall == AllSetters \union Reads \union Motions \union {C("version")}

Family(n) ==
  CASE n = "connect" -> [Base EXCEPT !.name = n, !.calls = << {New}, {C("version"), C("read_once"), A("set_joint_imp", 7), M("jp", "ji")} >>,
          !.st.conn = {0, 1}, !.vers = {0, 5, 6, 65535}, !.first = OldModes, !.extra = {"newer", "stale", "foreign"}, !.ex = 2, !.cbMax = 0]
    [] n = "gconnect" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.calls = << {NewG}, {C("version"), C("read_once"), C("homing")} >>,
          !.st.conn = {0, 1}, !.vers = {0, 3, 4, 65535}, !.extra = {"newer", "stale", "foreign"}, !.ex = 2]
    (* every command, every status, replies to other requests around it *)
    [] n = "cmd" -> [Base EXCEPT !.name = n, !.calls = << {New}, AllSetters, Cmds0 >>, !.extra = {"foreign", "future"}, !.foreignSt = {0, 1}, !.ex = 1]
    (* long series of commands before and between others *)
    [] n = "series" -> [Base EXCEPT !.name = n, !.calls = << {New}, {A("set_load", 13), M("jp", "ji"), C("default_behavior"), Load(FALSE), [op |-> "get_wall", args |-> <<"3">>]}, Cmds0 >>, !.st.cmd = {0, 2}, !.cbMax = 0,
          !.libs = {[pad |-> 60]}, !.abort = "few", !.extra = {"series"}, !.series = {2, 300, 65600}, !.ex = 2]
    [] n = "gseries" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, GripperCmds, GripperCmds >>, !.st.cmd = {0, 2},
          !.extra = {"series"}, !.series = {2, 300, 65600}, !.ex = 2]
    (* unusual arguments *)
    [] n = "args" -> [Base EXCEPT !.name = n, !.st.cmd = {0}, !.calls = << {New},
          OddOf("set_collision", 52) \union OddOf("set_joint_imp", 7) \union OddOf("set_cart_imp", 6) \union OddOf("set_k", 16) \union OddOf("set_ee", 16)
          \union OddOf("set_load", 13) \union OddOf("set_filters", 5) \union {[op |-> "set_guiding", args |-> f] : f \in Flags}
          \union {[op |-> "get_wall", args |-> <<v>>] : v \in {"0", "-1", "-7", "1", "255", "256", "2147483647", "-2147483647"}} >>]
    [] n = "gargs" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.st.cmd = {0, 1}, !.calls = << {NewG},
          OddOf("gmove", 2) \union {[op |-> "grasp", args |-> <<"31", "32", "33", a, b>>] : a \in Odd \union {"none", "0.02"}, b \in Odd \union {"none", "0.02"}}
          \union OddOf("grasp", 5) >>]
    [] n = "gcmd" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, GripperCmds, GripperCmds >>,
          !.extra = {"foreign", "future"}, !.foreignSt = {0, 1, 2}, !.ex = 1]
    (* long random histories *)
    [] n = "soup" -> [Base EXCEPT !.name = n, !.calls = << {New, NewLog(2)}, AnyCall, AnyCall, AnyCall, AnyCall, AnyCall, AnyCall >>,
          !.cbMax = 3, !.nr = 2, !.abort = "all", !.abortSt = AllMoveErr, !.finSt = {0, 0, 6, 7}, !.gaps = {1, 2, 5},
          !.foreignSt = {0, 1, 2}, !.extra = {"newer", "stale", "stalemode", "foreign", "future", "early"}, !.ex = 8]
    [] n = "gsoup" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3},
          !.calls = << {NewG}, GripperCmds, GripperCmds, GripperCmds, GripperCmds \union {C("read_once")}, GripperCmds, {C("read_once"), C("version")} >>,
          !.gaps = {1, 2, 5}, !.foreignSt = {0, 1, 2, 3}, !.extra = {"newer", "stale", "foreign", "future"}, !.ex = 6]
    [] n = "soupfault" -> [Family("soup") EXCEPT !.name = n, !.extra = {"newer", "stale", "junk", "early", "close", "reset", "intr", "nosend", "shortw", "pause", "silence", "dead"}, !.junk = {0, 1, 10, 2000}, !.ex = 4]
    [] n = "soupseg" -> [Family("soup") EXCEPT !.name = n, !.seg = TRUE, !.cut = 14, !.cuts = {2, 5, 20}, !.extra = {"newer", "foreign", "early"}, !.ex = 6]
    (* segmentation *)
    [] n = "seg" -> [Base EXCEPT !.name = n, !.calls = << {New}, {A("set_joint_imp", 7), [op |-> "get_wall", args |-> <<"3">>]} >>,
          !.st.cmd = {0, 1}, !.seg = TRUE, !.cut = 2, !.extra = {"foreign"}, !.ex = 1]
    [] n = "segmove" -> [Base EXCEPT !.name = n, !.calls = << {New}, {M("jp", "ji")} >>, !.st.move = {1}, !.seg = TRUE, !.cut = 4,
          !.extra = {"early"}, !.ex = 1, !.cbMax = 0, !.abort = "few", !.abortSt = {6, 9}]
    [] n = "segmodel" -> [Base EXCEPT !.name = n, !.calls = << {New}, {Load(TRUE)}, {C("recover")} >>, !.seg = TRUE, !.cut = 3,
          !.st.cmd = {0}, !.libs = {[pad |-> 1], [pad |-> 60], [pad |-> 5000]}, !.cuts = {100, 4096}]
    [] n = "segbig" -> [Base EXCEPT !.name = n, !.calls = << {New}, {Load(TRUE)}, {C("recover")} >>, !.seg = TRUE, !.cut = 3,
          !.st.cmd = {0}, !.libs = {[pad |-> 69990], [pad |-> 70000], [pad |-> 200000], [pad |-> 400000]}, !.cuts = {100, 65536, 70000, 70013, 140000}]
    [] n = "gseg" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, {C("homing"), A("gmove", 2)} >>, !.seg = TRUE, !.cut = 3,
          !.extra = {"foreign"}, !.ex = 1]
    (* the state stream *)
    [] n = "read" -> [Base EXCEPT !.name = n, !.calls = << {New}, Reads, {C("read_once")} >>, !.cbMax = 1, !.gaps = {1, 3}, !.back = {0, 2},
          !.extra = {"newer", "stale"}, !.ex = 2, !.idle = {IdleMode, [IdleMode EXCEPT !.rm = 0]}]
    [] n = "readmodes" -> [Base EXCEPT !.name = n, !.calls = << {New}, Reads, Reads, Reads, {C("read_once")} >>, !.cbMax = 3, !.gaps = {1, 2, 30, 40000}, !.back = {0, 1, 3, 29, 1005, 39999},
          !.extra = {"newer", "stale", "stalemode"}, !.ex = 6, !.idle = IdleModes \union BusyModes(1, 0) \union BusyModes(4, 1), !.first = IdleModes]
    [] n = "stream" -> [Base EXCEPT !.name = n, !.calls = << {New}, {M("jp", "ji")} >>, !.cbMin = 1, !.cbMax = 1, !.gaps = {1, 3}, !.back = {0, 2},
          !.extra = {"newer", "stale", "stalemode"}, !.ex = 2]
    [] n = "streamsim" -> [Base EXCEPT !.name = n, !.calls = << {New}, Reads \union FewMotions, Reads \union FewMotions, Reads \union FewMotions, Reads >>,
          !.cbMax = 5, !.nr = 2, !.gaps = {1, 2, 7, 1000, 70000}, !.back = {0, 1, 3, 9, 999, 1005, 69999}, !.extra = {"newer", "stale", "stalemode"}, !.ex = 12]
    [] n = "gread" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, {C("read_once")}, {C("homing"), C("read_once")}, {C("read_once")} >>,
          !.st.cmd = {0}, !.gaps = {1, 3}, !.extra = {"newer", "stale"}, !.ex = 3]
    (* states that pile up while nobody reads *)
    [] n = "flood" -> [Base EXCEPT !.name = n, !.calls = << {New}, Reads \union FewMotions, Reads >>, !.cbMax = 1, !.extra = {"burst", "newer", "stale"}, !.back = {0, 1, 5}, !.burst = {3, 8, 28, 140}, !.ex = 2]
    [] n = "gflood" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, {C("homing"), C("read_once")}, {C("read_once")}, {C("read_once")} >>,
          !.st.cmd = {0}, !.extra = {"burst", "newer"}, !.burst = {2, 6, 28, 140}, !.ex = 2]
    (* faults at every point *)
    [] n = "faultcmd" -> [Base EXCEPT !.name = n, !.calls = << {New}, {A("set_joint_imp", 7), C("default_behavior"), C("read_once"), C("read"), Load(FALSE)}, {C("recover"), C("read_once")} >>,
          !.st.cmd = {0}, !.cbMax = 1, !.libs = {[pad |-> 60]}, !.extra = {"close", "silence", "junk", "dead"}, !.junk = {0, 1, 100, 2000}, !.ex = 2]
    [] n = "gfault" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, GripperCmds \union {C("read_once")}, {C("homing"), C("read_once")} >>,
          !.st.cmd = {0}, !.extra = {"close", "silence", "junk", "dead"}, !.junk = {0, 1, 22}, !.ex = 2]
    [] n = "fault" -> [Base EXCEPT !.name = n, !.calls = << {New}, {M("jp", "ji"), M("tau", "ji")}, {C("recover")} >>, !.st.cmd = {0}, !.cbMin = 1, !.cbMax = 1, !.nr = 1,
          !.abort = "few", !.extra = {"close", "silence", "junk", "dead"}, !.junk = {0, 2000}, !.ex = 1]
    [] n = "fault2" -> [Base EXCEPT !.name = n, !.calls = << {New}, {M("cp", "ci"), M("tjv", "ji")}, {C("read_once"), C("stop")} >>, !.st.cmd = {0}, !.st.stop = {0, 1, 3}, !.cbMin = 1, !.cbMax = 1,
          !.abort = "few", !.extra = {"close", "silence", "dead"}, !.ex = 2]
    (* a motion after one that failed *)
    [] n = "again" -> [Base EXCEPT !.name = n, !.calls = << {New}, {M("jp", "ji"), M("tau", "ji")}, {M("tcv", "ji")} >>, !.st.stop = {0, 3}, !.cbMax = 0,
          !.abort = "few", !.finSt = {0, 9}, !.extra = {"silence", "dead", "junk", "close"}, !.ex = 1]
    (* the connection breaks in the middle of a reply *)
    [] n = "cutcmd" -> [Base EXCEPT !.name = n, !.calls = << {New}, {A("set_joint_imp", 7), [op |-> "get_wall", args |-> <<"3">>], Load(FALSE), M("jp", "ji")}, {C("recover"), C("read_once")} >>,
          !.st.cmd = {0}, !.cbMax = 0, !.libs = {[pad |-> 60]}, !.seg = TRUE, !.cut = 2, !.extra = {"cutoff"}, !.ex = 1]
    [] n = "gcut" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, {C("homing"), A("gmove", 2)}, {C("gstop"), C("read_once")} >>,
          !.st.cmd = {0}, !.seg = TRUE, !.cut = 2, !.extra = {"cutoff"}, !.ex = 1]
    (* signals *)
    [] n = "intr" -> [Base EXCEPT !.name = n, !.calls = << {New}, {A("set_joint_imp", 7), C("read_once"), C("read"), Load(FALSE), M("jp", "ji"), M("tau", "ji")} >>,
          !.st.cmd = {0}, !.cbMax = 1, !.nr = 1, !.libs = {[pad |-> 60]}, !.abort = "few", !.finSt = {0, 6}, !.extra = {"intr"}, !.ex = 2]
    [] n = "gintr" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, {C("homing"), C("read_once")}, {C("gstop"), C("read_once")} >>,
          !.st.cmd = {0}, !.extra = {"intr", "newer"}, !.ex = 3]
    (* the states pause, for less or more than the timeout *)
    [] n = "pause" -> [Base EXCEPT !.name = n, !.calls = << {New}, {C("read_once"), C("read"), M("jp", "ji"), M("tau", "ji")} >>,
          !.st.cmd = {0}, !.cbMax = 1, !.finSt = {0}, !.extra = {"pause", "intr", "silence", "stale"}, !.back = {0}, !.ex = 2]
    (* the reply takes its time *)
    [] n = "late" -> [Base EXCEPT !.name = n, !.calls = << {New}, {C("recover"), A("set_joint_imp", 7), C("stop"), M("jp", "ji"), M("tcv", "ji"), Load(TRUE)} >>,
          !.st.cmd = {0, 1, 2}, !.cbMin = 1, !.cbMax = 1, !.libs = {[pad |-> 60]}, !.abort = "few", !.finSt = {0, 6}, !.extra = {"late"}, !.ex = 1]
    [] n = "glate" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, {C("homing"), C("gstop"), A("gmove", 2)} >>,
          !.extra = {"late"}, !.ex = 1]
    [] n = "gpause" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, {C("homing"), C("read_once")}, {C("read_once")} >>,
          !.st.cmd = {0}, !.extra = {"pause", "intr", "silence"}, !.ex = 3]
    (* commands that cannot be sent *)
    [] n = "nosend" -> [Base EXCEPT !.name = n, !.calls = << {New}, FewMotions, {C("recover")} >>, !.st.cmd = {0}, !.st.stop = {0, 3}, !.cbMax = 1,
          !.abort = "few", !.finSt = {0}, !.extra = {"nosend"}, !.ex = 1]
    (* requests that do not fit into the socket at once *)
    [] n = "shortw" -> [Base EXCEPT !.name = n, !.calls = << {New}, AllSetters \union {M("jp", "ji"), Load(FALSE)}, {C("recover"), A("set_load", 13)} >>, !.st.cmd = {0}, !.cbMax = 0,
          !.libs = {[pad |-> 60]}, !.extra = {"shortw"}, !.ex = 2]
    [] n = "gshortw" -> [Base EXCEPT !.name = n, !.dev = "gripper", !.vers = {3}, !.calls = << {NewG}, GripperCmds, GripperCmds >>, !.st.cmd = {0}, !.extra = {"shortw"}, !.ex = 2]
    [] n = "reset" -> [Family("fault") EXCEPT !.name = n, !.extra = {"reset"}]
    [] n = "unreach" -> [Base EXCEPT !.name = n, !.calls = << {[op |-> "new", args |-> <<>>, log |-> 50, host |-> h] :
            h \in {"", "no.such.host.invalid", "256.256.256.256", "127.0.0.1:99", "a b"}} >>]
    (* motions *)
    [] n = "start" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions >>, !.st.move = 1..9, !.nr = 1, !.cbMax = 0,
          !.first = {IdleMode}, !.extra = {"early"}, !.ex = 1, !.abortSt = AllMoveErr]
    [] n = "startwait" -> [Base EXCEPT !.name = n, !.calls = << {New}, FewMotions >>, !.nr = 3, !.cbMax = 0, !.abortSt = {4, 6},
          !.extra = {"newer", "stale", "early"}, !.ex = 1]
    [] n = "busy" -> [Base EXCEPT !.name = n, !.calls = << {New}, FewMotions, {C("read_once")}, FewMotions >>, !.cbMax = 0,
          !.first = BusyModes(1, 0) \union {IdleMode}, !.idle = BusyModes(3, 1) \union {IdleMode}]
    [] n = "run" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions >>, !.cbMax = 3, !.gaps = {1, 2}, !.nr = 1]
    (* rate limiter and filter on *)
    [] n = "runcfg" -> [Base EXCEPT !.name = n, !.calls = << {New}, {Cfg(c, l, k) : c \in Motions, l \in BOOLEAN, k \in {10, 49, 100, 999, 1000}}, {C("read_once")} >>,
          !.cbMax = 2, !.nr = 1, !.gaps = {1, 3}]
    [] n = "runsim" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions, Motions, Motions >>, !.cbMax = 12, !.nr = 3, !.gaps = {1, 2, 5, 11, 300},
          !.finSt = {0, 0, 0, 6, 9}, !.extra = {"newer", "stale", "early"}, !.ex = 5]
    [] n = "finish" -> [Base EXCEPT !.name = n, !.calls = << {New}, FewMotions, {C("recover")} >>, !.st.cmd = {0}, !.cbMax = 0, !.nr = 1,
          !.finSt = {0} \union AllMoveErr, !.extra = {"early"}, !.ex = 1]
    [] n = "abort" -> [Base EXCEPT !.name = n, !.calls = << {New}, FewMotions, {A("set_joint_imp", 7)} >>, !.st.cmd = {0}, !.cbMin = 1, !.cbMax = 2, !.nr = 1,
          !.abort = "all", !.abortSt = {6, 7, 9}, !.st.stop = {0, 3}]
    [] n = "abortsim" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions, Motions, Motions, {C("recover")} >>, !.st.cmd = {0}, !.cbMin = 1, !.cbMax = 6, !.nr = 2,
          !.abort = "all", !.abortSt = AllMoveErr, !.st.stop = 0..4, !.extra = {"early", "silence", "newer", "stale"}, !.ex = 3]
    (* the log *)
    [] n = "log" -> [Base EXCEPT !.name = n, !.calls = << {NewLog(k) : k \in {0, 1, 2, 3}}, {M("jp", "ji")}, {M("tcv", "ji")} >>, !.cbMin = 4, !.cbMax = 4,
          !.abort = "few", !.finSt = {0, 6, 9}]
    [] n = "logsim" -> [Base EXCEPT !.name = n, !.calls = << {NewLog(k) : k \in {0, 1, 2, 3, 5, 8}}, Motions, Motions, Motions >>, !.cbMin = 1, !.cbMax = 14,
          !.abort = "few", !.abortSt = AllMoveErr, !.finSt = {0, 6, 9}, !.nr = 2, !.gaps = {1, 2}, !.extra = {"newer"}, !.ex = 2]
    (* the logged command is the one on the wire, whatever filter and limiter made of it *)
    [] n = "logcfg" -> [Base EXCEPT !.name = n, !.calls = << {NewLog(k) : k \in {2, 6}}, {Cfg(c, l, k) : c \in Motions, l \in BOOLEAN, k \in {10, 100, 1000}}, {Cfg(c, l, k) : c \in Motions, l \in BOOLEAN, k \in {10, 100, 1000}} >>,
          !.cbMin = 1, !.cbMax = 7, !.abort = "few", !.abortSt = AllMoveErr, !.finSt = {6, 9}, !.nr = 1, !.gaps = {1, 2},
          !.cbv = {[a |-> "cbret", rot |-> r] : r \in 0..3} \union {[a |-> "cbret", rot |-> 1, el |-> <<3, 1>>], [a |-> "cbret", rot |-> 2, el |-> <<4, -1>>]}]
    (* a motion and a read of more than a second *)
    [] n = "longrun" -> [Base EXCEPT !.name = n, !.calls = << {New}, {M("tjp", "ji")} >>, !.cbMin = 2300, !.cbMax = 2300]
    (* a robot that takes its time *)
    [] n = "slowstart" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions >>, !.nr = 350, !.slow = "start", !.cbMax = 1]
    [] n = "slowstop" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions, {C("recover")} >>, !.st.cmd = {0}, !.nr = 350, !.slow = "end", !.cbMax = 2, !.finSt = {0, 6, 9}]
    [] n = "slowrest" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions, {C("recover")} >>, !.st.cmd = {0}, !.nr = 350, !.slow = "end", !.cbMin = 4, !.cbMax = 5, !.abort = "all",
          !.abortSt = {6, 7, 9}]
    [] n = "longread" -> [Base EXCEPT !.name = n, !.calls = << {New}, {C("read")}, {C("read_once")} >>, !.cbMin = 1100, !.cbMax = 1100]
    [] n = "logbig" -> [Base EXCEPT !.name = n, !.calls = << {NewLog(1100)}, {M("jp", "ji")} >>, !.cbMin = 1120, !.cbMax = 1120, !.finSt = {9}]
    [] n = "logdefault" -> [Base EXCEPT !.name = n, !.calls = << {[op |-> "new", args |-> <<>>, rt |-> "ignore"], New}, FewMotions, FewMotions >>, !.cbMin = 40, !.cbMax = 70,
          !.finSt = {6, 9}]
    (* command contents *)
    [] n = "pass" -> [Base EXCEPT !.name = n, !.calls = << {New}, Motions >>, !.cbMax = 2,
          !.cbv = {[a |-> "cbret", rot |-> r] : r \in 0..3} \union {[a |-> "cbret", rot |-> 1, el |-> <<3, 1>>], [a |-> "cbret", rot |-> 0, el |-> <<4, -1>>]}]
    (* model library *)
    [] n = "model" -> [Base EXCEPT !.name = n, !.calls = << {New}, {Load(TRUE), Load(FALSE)}, {Load(TRUE), Load(FALSE)}, {Load(TRUE), Load(FALSE)} >>,
          !.st.model = {0, 1}, !.libs = {[pad |-> 0, libfile |-> "GOOD"], [pad |-> 7, libfile |-> "GOOD"], [pad |-> 1000]}]
    (* the disk is full for a while, the copy comes and goes *)
    [] n = "modeldisk" -> [Base EXCEPT !.name = n, !.calls = << {New}, {Load(TRUE), Load(FALSE)}, {Load(TRUE), Load(FALSE)}, {C("recover"), Load(TRUE)} >>,
          !.st.cmd = {0}, !.st.model = {0, 2}, !.libs = {[pad |-> 0, libfile |-> "GOOD"], [pad |-> 1000]}, !.extra = {"disk", "prep"}, !.ex = 2]
    (* realtime *)
    [] n = "rt" -> [Base EXCEPT !.name = n, !.calls = << {NewRt("enforce"), NewRt("default"), NewRt("ignore")}, FewMotions, {M("jp", "ji")} >>, !.cbMax = 0, !.rt = RtEnvs]
    [] n = "rtall" -> [Base EXCEPT !.name = n, !.calls = << {NewRt("enforce"), NewRt("default"), NewRt("ignore")}, Motions, {C("read_once"), C("recover")} >>, !.st.cmd = {0}, !.cbMax = 0, !.rt = RtEnvs]
=============================================================================
