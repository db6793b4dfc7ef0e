-------------------------------- MODULE MgGen --------------------------------
(* Draws point-to-point motions: starts, goals, speeds, patterns of time steps *)
EXTENDS FrankaNum, Json, IOUtils, TLC
Fam == IOEnv.FAM       \* mgen | jmotion
VARIABLES seed, done
R(k, S) == S[FPick(seed, k, Len(S))]
Deltas == <<"0", "0", "0.0000005", "-0.0000009", "0.000002", "-0.00001", "0.0001", "-0.001", "0.01", "-0.03", "0.05", "0.3", "-0.3", "1", "-1.2", "1.2", "2.5", "-2.5">>
Small == <<"0", "0", "0.0000005", "0.001", "-0.01", "0.05", "-0.1", "0.25", "-0.25">>
Profiles == <<Deltas, Deltas, <<"0">>, <<"0", "0", "0", "1">>, <<"0.000001", "0.3">>, <<"2.5", "0.0001">>, <<"-1", "-0.5", "-0.001">>>>
Starts == <<"0", "0.7", "-1.57", "2.4", "-2.8">>
Start(k) == LET f(i) == R(<<k, "s", i>>, Starts) IN V7(f)
Goal(k, s, D) == LET f(i) == FAdd(s[i], R(<<k, "d", i>>, D)) IN V7(f)
Slow == <<"0.05", "0.1", "0.3">>
Fast == <<"0.5", "0.77", "1">>
DtSlow == <<<<50000>>, <<30000, 70000>>, <<100000>>, <<20000, 1000, 90000, 0, 33333>>, <<30000000>>, <<1, 60000>>>>
DtFast == <<<<5000>>, <<4000, 6000, 1000>>, <<10000>>, <<100000>>, <<7000, 0, 0, 13000>>, <<3333>>, <<4000, 1>>, <<5000000>>, <<2000>>>>
Open(s) ==
  << [a |-> "call", op |-> "new", args |-> <<>>], [a |-> "resp", cmd |-> 0, id |-> 0, st |-> 0, ver |-> 5],
     [a |-> "state", mid |-> 1, mg |-> 0, cm |-> 3, rm |-> 1, zero |-> TRUE] >>
Refuse(s, g, speed) ==
  Open(s) \o << [a |-> "call", op |-> "joint_motion", args |-> g, speed |-> speed, start |-> s, goal |-> g, want |-> "command"],
     [a |-> "resp", cmd |-> 1, id |-> 1, st |-> R("rj", <<3, 4, 5>>)] >>
Driven(s, g, speed, last) ==
  Open(s) \o << [a |-> "call", op |-> "joint_motion", args |-> g, speed |-> speed, start |-> s, goal |-> g, want |-> IF last = 0 THEN "ok" ELSE "control"],
     [a |-> "resp", cmd |-> 1, id |-> 1, st |-> 1],
     [a |-> "state", mid |-> 2, mg |-> 1, cm |-> 0, rm |-> 2, zero |-> TRUE, set |-> [q_d |-> s, O_T_EE_c |-> Ident]],
     [a |-> "loop", max |-> 4000, mg |-> 1, cm |-> 0, rm |-> 2],
     [a |-> "state", mid |-> 100000, mg |-> 0, cm |-> 3, rm |-> 1, zero |-> TRUE],
     [a |-> "resp", cmd |-> 1, id |-> 1, st |-> last] >>
  \o IF last = 0 THEN <<>> ELSE << [a |-> "resp", cmd |-> 2, id |-> 2, st |-> 0], [a |-> "state", mid |-> 100001, mg |-> 0, cm |-> 3, rm |-> 1, zero |-> TRUE] >>
Pure(s, g, slow) == << [a |-> "call", op |-> "mgen", args |-> <<>>, start |-> s, goal |-> g, max |-> 1800,
                        speed |-> IF slow THEN R("sp", Slow) ELSE R("sp", Fast), dts |-> IF slow THEN R("dt", DtSlow) ELSE R("dt", DtFast)] >>
MInit == seed = 0 /\ done = FALSE
Draw == seed = 0 /\ seed' = RandomElement(1..2000000000) /\ UNCHANGED done
Emit == /\ seed # 0 /\ ~done /\ done' = TRUE /\ UNCHANGED seed
        /\ LET s == Start("a")
               st == IF Fam = "mgen" THEN Pure(s, Goal("b", s, R("pr", Profiles)), FPick(seed, "sl", 2) = 1)
                     ELSE IF FPick(seed, "rf", 10) = 1 THEN Refuse(s, Goal("b", s, Small), R("sp", Fast))
                     ELSE Driven(s, Goal("b", s, Small), R("sp", Fast), R("last", <<0, 0, 0, 2, 6, 7, 8, 9>>))
           IN PrintT("SCRIPT " \o ToJson([dev |-> "robot", fam |-> Fam, full |-> TRUE, steps |-> st]))
MSpec == MInit /\ [][Draw \/ Emit]_<<seed, done>>
=============================================================================
