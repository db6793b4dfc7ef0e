----------------------------- MODULE ModelTrace -----------------------------
EXTENDS ModelSpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
Verbose == IOEnv.VERBOSE = "1"
VARIABLES tr, l, call
vars == <<tr, l, call>>
E == Traces[tr].ev[l]
Is(x) == l <= Len(Traces[tr].ev) /\ E.e = x
Adv == l' = l + 1 /\ tr' = tr
MInit == tr \in 1..Len(Traces) /\ l = 1 /\ call = [op |-> "none"]
TCall == Is("call") /\ Adv /\ call' = E
TRet == /\ Is("ret") /\ Adv /\ UNCHANGED call
        /\ CASE call.op = "mq" -> E.r = "mq" /\ Len(E.x) = Len(call.v) /\ \A i \in DOMAIN E.x : QueryOk(call.v[i], E.x[i])
             [] call.op = "mopen" -> IF call.ok THEN E.r = "ok" ELSE E.r = "err" /\ E.k = "model"
TDone == l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"DONE", tr>>) /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED call
Wrong == IF call.op = "mq" /\ Is("ret") THEN {i \in DOMAIN E.x : ~QueryOk(call.v[i], E.x[i])} ELSE {}
Show == Verbose => PrintT(<<"AT", tr, l, Wrong>>)
MSpec == MInit /\ [][TCall \/ TRet \/ TDone]_vars
=============================================================================
