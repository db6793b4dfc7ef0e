------------------------------ MODULE StateTrace ------------------------------
EXTENDS StateSpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.VERBOSE = "1"
VARIABLES tr, l, st
vars == <<tr, l, st>>
T == Traces[tr]
E == T.ev[l]
Is(x) == l <= Len(T.ev) /\ E.e = x
Adv == l' = l + 1 /\ tr' = tr
MInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = [mid |-> 0]
Full(e) == e @@ [set |-> <<>>]
TState == Is("state") /\ Adv /\ st' = IF T.dev = "robot" THEN Full(E) ELSE E
TGot == /\ l <= Len(T.ev) /\ (E.e = "cb" \/ (E.e = "ret" /\ E.r = "state")) /\ Adv /\ UNCHANGED st
        /\ DecodeOk(st, E.st)
TGrip == /\ Is("ret") /\ E.r = "gstate" /\ Adv /\ UNCHANGED st
         /\ E.mid = st.mid /\ Same(E.width, st.width) /\ Same(E.maxw, st.maxw) /\ E.grasped = st.grasped /\ E.temp = st.temp
TRet == Is("ret") /\ E.r \in {"ver", "ok"} /\ Adv /\ UNCHANGED st
TOther == l <= Len(T.ev) /\ E.e \in {"call", "req", "resp", "cbret", "cmd"} /\ Adv /\ UNCHANGED st
TDone == l = Len(T.ev) + 1 /\ PrintT(<<"DONE", tr>>) /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED st
Show == Verbose => PrintT(<<"AT", tr, l, 0>>)
MSpec == MInit /\ [][TState \/ TGot \/ TGrip \/ TRet \/ TOther \/ TDone]_vars
=============================================================================
