------------------------------- MODULE StateGen -------------------------------
(* Draws datagrams: every field, mode and error flag, delivered by every call.   *)
EXTENDS StateSpec, Json, IOUtils, TLC
Fam == IOEnv.FAM       \* decode | gdecode
VARIABLES seed, done
R(k, S) == S[FPick(seed, k, Len(S))]
One(k, m) == FPick(seed, k, m) = 1
Odd == <<"0", "-0.0", "1", "-1", "nan", "inf", "-inf", "5E-324", "1.7976931348623157E308", "0.1", "-123456.789", "3.141592653589793", "4503599627370497.5">>
Masses == <<"0", "0", "0.73", "0.5", "3", "1E-9", "12.25">>
Coords == <<"0", "0.01", "-0.03", "0.2", "-1.5", "0.00001">>
Inert == <<"0", "0.001", "0.0025", "-0.0003", "0.3", "17">>
Inertials == {"m_ee", "m_load", "F_x_Cee", "F_x_Cload", "I_ee", "I_load"}
Free == [k \in 1..Len(Layout) |-> Layout[k].name]
RECURSIVE Sub(_, _)
Sub(k, i) == IF i > 40 THEN <<>> ELSE (IF One(<<k, i>>, 5) THEN <<i>> ELSE <<>>) \o Sub(k, i + 1)
Flags(k) == CASE FPick(seed, <<k, "f">>, 4) = 1 -> <<>> [] FPick(seed, <<k, "f">>, 4) = 2 -> <<FPick(seed, <<k, "one">>, 41) - 1>>
              [] FPick(seed, <<k, "f">>, 4) = 3 /\ One(<<k, "all">>, 3) -> [i \in 1..41 |-> i - 1]
              [] OTHER -> Sub(k, 0)
Vals(k, n) == [i \in 1..n |-> R(<<k, i>>, Odd)]
Small(k, n, S) == [i \in 1..n |-> R(<<k, i>>, S)]
(* a few fields get unusual values; the inertial ones realistic values *)
Pairs(k) == LET j == FPick(seed, <<k, "j">>, Len(Layout)) f == Layout[j] IN
            IF f.name \in Inertials THEN <<>> ELSE (f.name :> Vals(<<k, "v">>, f.n))
Bodies(k) == [m_ee |-> Small(<<k, 1>>, 1, Masses), m_load |-> Small(<<k, 2>>, 1, Masses), F_x_Cee |-> Small(<<k, 3>>, 3, Coords),
              F_x_Cload |-> Small(<<k, 4>>, 3, Coords), I_ee |-> Small(<<k, 5>>, 9, Inert), I_load |-> Small(<<k, 6>>, 9, Inert)]
Sets(k) == (IF One(<<k, "bo">>, 3) THEN <<>> ELSE Bodies(k)) @@ Pairs(<<k, 1>>) @@ Pairs(<<k, 2>>) @@ Pairs(<<k, 3>>)
           @@ (IF One(<<k, "ra">>, 3) THEN [rate |-> Vals(<<k, "r">>, 1)] ELSE <<>>)
Rmode(k) == FPick(seed, <<k, "rm">>, 7) - 1
St(k, mid, mg, cm, rm) == [a |-> "state", mid |-> mid, mg |-> mg, cm |-> cm, rm |-> rm, err |-> Flags(<<k, "e">>), refl |-> Flags(<<k, "r">>), zero |-> One(<<k, "zero">>, 6), tag |-> FPick(seed, <<k, "tag">>, 2000), set |-> Sets(k)]
Open == << [a |-> "call", op |-> "new", args |-> <<>>], [a |-> "resp", cmd |-> 0, id |-> 0, st |-> 0, ver |-> 5],
           [a |-> "state", mid |-> 1, mg |-> 0, cm |-> 3, rm |-> 1, zero |-> TRUE] >>
Once(k, mid) == << [a |-> "call", op |-> "read_once", args |-> <<>>], St(k, mid, FPick(seed, <<k, "mg">>, 5) - 1, FPick(seed, <<k, "cm">>, 4) - 1, Rmode(k)) >>
Many == << [a |-> "call", op |-> "read", args |-> <<>>] >> \o
        << St("a", 10, 0, 3, Rmode("a")), [a |-> "cbret", fin |-> FALSE], St("b", 11, 0, 3, Rmode("b")), [a |-> "cbret", fin |-> FALSE],
           St("c", 15, 0, 3, Rmode("c")), [a |-> "cbret", fin |-> TRUE] >>
(* states delivered to a motion callback: no current errors, or the motion would end *)
Run(k, mid) == [St(k, mid, 2, 0, 2) EXCEPT !.err = <<>>, !.refl = <<>>] 
Motion == << [a |-> "call", op |-> "jv", args |-> <<>>, lim |-> FALSE, cut |-> "1000"], [a |-> "resp", cmd |-> 1, id |-> 1, st |-> 1],
             Run("s", 20), Run("m1", 21), [a |-> "cbret", fin |-> FALSE, v |-> 0], Run("m2", 22), [a |-> "cbret", fin |-> TRUE, v |-> 0],
             [a |-> "state", mid |-> 23, mg |-> 0, cm |-> 3, rm |-> 1, zero |-> TRUE], [a |-> "resp", cmd |-> 1, id |-> 1, st |-> 0] >>
GState(k, mid) == [a |-> "state", mid |-> mid, width |-> R(<<k, "w">>, Odd), maxw |-> R(<<k, "m">>, Odd), grasped |-> One(<<k, "g">>, 2), temp |-> R(<<k, "t">>, <<0, 1, 30, 255, 256, 65535>>)]
GOpen == << [a |-> "call", op |-> "new", args |-> <<>>], [a |-> "resp", cmd |-> 0, id |-> 0, st |-> 0, ver |-> 3] >>
GOnce(k, mid) == << [a |-> "call", op |-> "read_once", args |-> <<>>], GState(k, mid) >>
MInit == seed = 0 /\ done = FALSE
Draw == seed = 0 /\ seed' = RandomElement(1..2000000000) /\ UNCHANGED done
Emit == /\ seed # 0 /\ ~done /\ done' = TRUE /\ UNCHANGED seed
        /\ PrintT("SCRIPT " \o ToJson(
             IF Fam = "decode" THEN [dev |-> "robot", fam |-> Fam, full |-> TRUE, decode |-> TRUE, base |-> R("base", <<0, 0, 100000, 2000000000>>), steps |-> Open \o Once("o1", 5) \o Many \o Motion]
             ELSE [dev |-> "gripper", fam |-> Fam, full |-> TRUE, steps |-> GOpen \o GOnce("a", 4) \o GOnce("b", 7) \o GOnce("c", 8)]))
MSpec == MInit /\ [][Draw \/ Emit]_<<seed, done>>
=============================================================================
