------------------------------ MODULE ModelGen ------------------------------
EXTENDS ModelSpec, Json, IOUtils, TLC
Fam == IOEnv.FAM       \* mq | mopen
VARIABLES seed, done
R(k, S) == S[FPick(seed, k, Len(S))]
Mode(k) == FPick(seed, <<k, "m">>, 8)
Nums == <<"0.5", "-1.25", "3.75", "0", "2", "-7", "1000.5", "0.0625">>
Vec(k, n) == [i \in 1..n |-> CASE Mode(k) = 1 -> "0" [] Mode(k) = 2 -> R(<<k, i>>, <<"0", "1E300", "nan", "-inf", "5E-324">>)
                                [] OTHER -> FAdd(R(<<k, i>>, Nums), FMul("0.001", i))]
Mat(k) == IF FPick(seed, <<k, "id">>, 5) = 1 THEN Ident ELSE
          [i \in 1..16 |-> IF FPick(seed, <<k, "z">>, 6) = 1 THEN "0" ELSE FAdd(R(<<k, i>>, Nums), FMul("0.01", i))]
Query(k) ==
  [f |-> R(<<k, "f">>, <<"pose", "body", "zero", "pose", "body", "zero", "mass", "coriolis", "gravity", "gravity">>), frame |-> FPick(seed, <<k, "fr">>, 10),
   st |-> FPick(seed, <<k, "st">>, 2) = 1, q |-> Vec(<<k, "q">>, 7), dq |-> Vec(<<k, "dq">>, 7), F |-> Mat(<<k, "F">>), K |-> Mat(<<k, "K">>),
   I |-> Vec(<<k, "I">>, 9), m |-> R(<<k, "m">>, <<"0", "1.5", "-0.3", "73", "nan">>), x |-> Vec(<<k, "x">>, 3), a |-> Vec(<<k, "a">>, 3)]
  @@ (IF FPick(seed, <<k, "g">>, 2) = 1 THEN [g |-> Vec(<<k, "gv">>, 3)] ELSE <<>>)
Libs == <<[lib |-> "GOOD", ok |-> TRUE], [lib |-> "LIB:empty", ok |-> FALSE], [lib |-> "LIB:text", ok |-> FALSE],
          [lib |-> "LIB:dir", ok |-> FALSE], [lib |-> "LIB:missing/x.so", ok |-> FALSE], [lib |-> "", ok |-> FALSE],
          [lib |-> "GOOD", libm |-> "LIB:missing", ok |-> FALSE], [lib |-> "GOOD", libm |-> "LIB:text", ok |-> FALSE]>>
MInit == seed = 0 /\ done = FALSE
Draw == seed = 0 /\ seed' = RandomElement(1..2000000000) /\ UNCHANGED done
Out(st) == PrintT("SCRIPT " \o ToJson([dev |-> "robot", fam |-> Fam, full |-> TRUE, steps |-> st]))
Open(b) == Out(<< [a |-> "call", op |-> "mopen", args |-> <<>>] @@ b >>)
Emit == /\ seed # 0 /\ ~done /\ done' = TRUE /\ UNCHANGED seed
        /\ Out(<< [a |-> "call", op |-> "mq", args |-> <<>>, lib |-> "GOOD", v |-> [k \in 1..40 |-> Query(k)]] >>)
EmitLibs == /\ ~done /\ done' = TRUE /\ UNCHANGED seed
            /\ \A i \in DOMAIN Libs : Open(Libs[i])
            /\ \A s \in Required : Open([lib |-> "LIB:no_" \o s, ok |-> FALSE])
MSpec == MInit /\ [][IF Fam = "mopen" THEN EmitLibs ELSE Draw \/ Emit]_<<seed, done>>
=============================================================================
