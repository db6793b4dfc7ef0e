------------------------------- MODULE FrankaMC -------------------------------
(* All interleavings of the client (FrankaClient), the network, the device and  *)
(* the user within small budgets.  The listed properties are stated here over a *)
(* history kept by an observer (gh) that sees only what the user and the device *)
(* see; an observation that breaks property p puts p into gh.bad.               *)
EXTENDS FrankaClient, IOUtils, Json
Scope == IOEnv.SCOPE      \* robotcmd | gripper | motion | motion2 | read | model | rt
Deep == IOEnv.DEEP = "1"  \* larger budgets
B(quick, deep) == IF Deep THEN deep ELSE quick
VARIABLES gh, bu
mcvars == <<dev, pc, call, res, cl, tcpq, udpq, conn, file, rtenv, gh, bu>>

S(op) == [op |-> op, args |-> <<>>]
Mv(op) == [op |-> op, args |-> <<>>, lim |-> FALSE, cut |-> 1000]
Nw(n, rt) == [op |-> "new", args |-> <<>>, log |-> n, rt |-> rt]
Par == CASE Scope = "robotcmd" -> [dev |-> "robot", calls |-> << {Nw(1, "ignore")}, {S("recover"), S("stop"), S("default_behavior")}, {S("recover")} >>,
                                   mids |-> 1, resp |-> 5, junk |-> 0, close |-> 1, sil |-> 1, cmdSt |-> {0, 1}, moveSt |-> {}, modes |-> "idle", foreign |-> TRUE]
         [] Scope = "gripper" -> [dev |-> "gripper", calls |-> << {Nw(1, "ignore")}, {S("homing"), S("gstop"), S("read_once")}, {S("homing"), S("read_once")} >>,
                                   mids |-> B(1, 2), resp |-> B(3, 4), junk |-> B(0, 1), close |-> 1, sil |-> 1, cmdSt |-> {0, 1, 2, 3}, moveSt |-> {}, modes |-> "idle", foreign |-> TRUE]
         [] Scope = "read" -> [dev |-> "robot", calls |-> << {Nw(1, "ignore")}, {S("read"), S("read_once")}, {S("read_once")} >>,
                                   mids |-> 5, resp |-> 1, junk |-> 1, close |-> 0, sil |-> 1, cmdSt |-> {0}, moveSt |-> {}, modes |-> "idle", foreign |-> FALSE]
         [] Scope = "motion" -> [dev |-> "robot", calls |-> << {Nw(1, "ignore")}, B({Mv("tjv")}, {Mv("jp"), Mv("tjv")}) >>,
                                   mids |-> B(4, 5), resp |-> 4, junk |-> 0, close |-> B(0, 1), sil |-> B(0, 1), cmdSt |-> B({0}, {0, 1}), moveSt |-> B({1}, {1, 3, 6}), modes |-> "all", foreign |-> FALSE]
         [] Scope = "motion2" -> [dev |-> "robot", calls |-> << {Nw(2, "ignore")}, {Mv("jp"), Mv("tau")}, {Mv("cv"), S("read_once")} >>,
                                   mids |-> 6, resp |-> 6, junk |-> 0, close |-> 0, sil |-> 0, cmdSt |-> {0}, moveSt |-> {1, 6}, modes |-> "all", foreign |-> FALSE]
         [] Scope = "log" -> [dev |-> "robot", calls |-> << {Nw(n, "ignore") : n \in B({1}, {1, 2, 3})}, B({Mv("jp")}, {Mv("jp"), Mv("tau")}), {Mv("tjv")} >>,
                                   mids |-> B(10, 11), resp |-> 7, junk |-> 0, close |-> 0, sil |-> 0, cmdSt |-> {0}, moveSt |-> {1}, modes |-> "seq", foreign |-> FALSE]
         [] Scope = "model" -> [dev |-> "robot", calls |-> << {Nw(1, "ignore")}, {[S("load_model") EXCEPT !.args = <<>>] @@ [persistent |-> p] : p \in BOOLEAN}, {S("load_model") @@ [persistent |-> p] : p \in BOOLEAN}, {S("load_model") @@ [persistent |-> p] : p \in BOOLEAN} >>,
                                   mids |-> 1, resp |-> 4, junk |-> 0, close |-> 1, sil |-> 0, cmdSt |-> {0, 1}, moveSt |-> {}, modes |-> "idle", foreign |-> FALSE]
         [] Scope = "rt" -> [dev |-> "robot", calls |-> << {Nw(1, "enforce"), Nw(1, "ignore")}, {Mv("jp"), Mv("tau")} >>,
                                   mids |-> B(2, 3), resp |-> B(2, 3), junk |-> 0, close |-> 0, sil |-> 0, cmdSt |-> {0}, moveSt |-> {1}, modes |-> "few", foreign |-> FALSE]
Idle0 == [mg |-> 0, cm |-> 3, rm |-> 1]
IsMotion == call.op \in MotionOps
Want(rm) == [mg |-> cl.wmg, cm |-> cl.wcm, rm |-> rm]
ModeSet == CASE Par.modes = "idle" -> {Idle0}
             [] Par.modes = "seq" -> {Idle0} \union (IF IsMotion THEN {Want(2)} ELSE {})
             [] Par.modes = "few" -> {Idle0, Want(2)}
             [] OTHER -> {Idle0} \union (IF IsMotion THEN {Want(2), Want(4)} ELSE {[mg |-> 1, cm |-> 0, rm |-> 2]})
                         \union (IF IsMotion /\ Deep THEN {[mg |-> 0, cm |-> 3, rm |-> 4], [mg |-> cl.wmg, cm |-> 3, rm |-> 2]} ELSE {})

MInit ==
  /\ dev = Par.dev /\ pc = "idle" /\ call = NoCall /\ res = NoRes /\ cl = InitClient(dev)
  /\ tcpq = <<>> /\ udpq = <<>> /\ conn = TRUE /\ file = 0
  /\ rtenv \in (IF Scope = "rt" THEN {[kernel |-> k, priomax |-> p, setsched |-> s, mlockall |-> m] : k \in BOOLEAN, p \in {99, -1}, s \in {0, 1}, m \in {0, -1}}
                ELSE {[kernel |-> FALSE, priomax |-> 99, setsched |-> 0, mlockall |-> 0]})
  /\ bu = [calls |-> 0, sent |-> 0, resp |-> 0, junk |-> 0, close |-> 0, sil |-> 0, cbs |-> 0]
  /\ gh = [bad |-> {}, reqs |-> 0,
           rep |-> <<>>,             \* replies in the order of arrival
           last |-> 0,               \* newest state handed to the user
           arr |-> <<>>,             \* states that arrived since the last one was used: [mid, since]
           callAt |-> 0,             \* number of states that had arrived when the call began
           acc |-> FALSE, modes |-> FALSE, ask |-> FALSE, left |-> FALSE, stop |-> 0,
           ph |-> "none",            \* none: no unanswered state; got: state accepted; mot: motion callback done; done: callbacks done
           prev |-> 0, hist |-> <<>>, cmdv |-> 0, rt |-> {}, pre |-> 0, dl |-> 0 ]
Flag(p, ok) == IF ok THEN {} ELSE {p}
NoB == UNCHANGED bu
RepOf(i) == {n \in DOMAIN gh.rep : gh.rep[n].id = i}
FirstOf(i) == gh.rep[CHOOSE n \in RepOf(i) : \A m \in RepOf(i) : n <= m]
NthOf(i, k) == LET ns == RepOf(i) IN gh.rep[CHOOSE n \in ns : Cardinality({m \in ns : m < n}) = k - 1]

(* ---- user ---- *)
MCall == /\ pc = "idle" /\ bu.calls < Len(Par.calls) /\ (bu.calls = 0 \/ cl.up)
         /\ \E c \in Par.calls[bu.calls + 1] : UCall(c)
         /\ bu' = [bu EXCEPT !.calls = @ + 1, !.cbs = 0]
         /\ gh' = [gh EXCEPT !.acc = FALSE, !.modes = FALSE, !.ask = FALSE, !.left = FALSE, !.stop = 0, !.ph = "none", !.prev = 0, !.hist = <<>>, !.rt = {},
                             !.pre = file, !.dl = 0, !.callAt = bu.sent]
MCbRet == /\ \E f \in BOOLEAN :
               /\ (bu.cbs >= 2 => f)
               /\ UCbRet([vi |-> bu.cbs + 1, ti |-> bu.cbs + 1, rot |-> 0, el |-> <<>>, bad |-> FALSE, fin |-> f, k |-> cl.k])
               /\ gh' = [gh EXCEPT !.ask = @ \/ (f /\ cl.k # "read"),
                                   !.ph = IF cl.k = "mot" /\ External(call.op) /\ ~f THEN "mot" ELSE "done",
                                   !.prev = cl.stt.mid]
          /\ bu' = [bu EXCEPT !.cbs = @ + 1]
(* ---- client, observed ---- *)
MReq == /\ CReq /\ NoB
        /\ gh' = [gh EXCEPT !.reqs = @ + 1, !.stop = IF ReqCmd = 2 /\ IsMotion THEN @ + 1 ELSE @, !.dl = IF ReqCmd = 13 THEN @ + 1 ELSE @,
                            !.bad = @ \union Flag("C03", ReqObs.id = gh.reqs)
                                      \union Flag("C09", ReqCmd = 1 /\ dev = "robot" => ~Running)
                                      \union Flag("C22", ReqCmd = 1 /\ cl.enforce => rtenv.kernel /\ <<"setsched", TRUE>> \in gh.rt /\ <<"mlockall", TRUE>> \in gh.rt)
                                      \union Flag("C09", ReqCmd = 2 /\ IsMotion => gh.modes)
                                      \union Flag("C21", ReqCmd = 13 => gh.pre = 0)
                                      \union Flag("C12", ReqCmd = 2 /\ IsMotion => gh.stop = 0)]
MSendFails == SendFails /\ NoB /\ gh' = [gh EXCEPT !.reqs = @ + 1]
MCb == /\ CCb /\ NoB
       /\ LET second == cl.k = "ctl" /\ HasMotionCb(call.op) IN
          gh' = [gh EXCEPT !.last = cl.stt.mid,
                 !.bad = @ \union Flag("C06", IF second THEN cl.stt.mid = gh.last ELSE cl.stt.mid > gh.last)
                           \union (IF cl.k = "read" THEN {} ELSE
                                   Flag("C09", gh.acc /\ gh.modes)
                                   \union Flag("C10", gh.ph = (IF second THEN "mot" ELSE "got"))
                                   \union Flag("C10", second \/ CbObs.dt = (IF gh.prev = 0 THEN 0 ELSE cl.stt.mid - gh.prev))
                                   \union Flag("C11", ~gh.ask) \union Flag("C12", ~gh.left /\ gh.stop = 0))]
MCmd == /\ CCmd /\ NoB
        /\ gh' = [gh EXCEPT !.ph = "none", !.cmdv = cl.vi,
                  !.bad = @ \union Flag("C09", gh.acc /\ gh.modes)
                            \union Flag("C10", gh.ph = (IF gh.ask /\ gh.ph # "done" THEN "got" ELSE "done") /\ CmdObs.mid = cl.stt.mid)
                            \union Flag("C11", (CmdObs.fin = 1) = gh.ask)
                            \union Flag("C12", ~gh.left /\ gh.stop = 0)]
(* silent steps: the observer notices the states the client uses, by what it answers *)
Accepts == (pc = "recv" /\ dev = "robot" /\ Newer # {})
MSilent == /\ Silent /\ NoB
           /\ gh' = LET s == cl'.stt  new == pc \in {"recv", "first"} /\ cl'.last # cl.last
                        wrong == s.rm # RmMove \/ s.mg # cl.wmg \/ s.cm # cl.wcm IN
              [gh EXCEPT
                !.acc = @ \/ (pc = "wait" /\ cl.pur = "move" /\ pc' = "startchk"),
                !.modes = @ \/ (new /\ IsMotion /\ s.mg = cl.wmg /\ s.cm = cl.wcm),
                !.left = @ \/ (new /\ cl.rk \in {"run0", "run"} /\ IsMotion /\ wrong),
                !.ph = IF new THEN "got" ELSE @,
                !.hist = IF new /\ cl.rk \in {"run", "fin"} THEN Append(@, [mid |-> s.mid, tag |-> s.tag, v |-> cl.vi, t |-> cl.ti]) ELSE @,
                !.last = IF pc' = "ret" /\ pc = "recv" /\ res'.r = "state" /\ cl.rk = "once" THEN s.mid ELSE @,
                !.bad = @ \union Flag("C06", pc' = "ret" /\ pc = "recv" /\ cl.rk = "once" /\ res'.r = "state" => s.mid > gh.last)
                          \union Flag("C07", Accepts /\ new => \A n \in 1..FullPrefix : udpq[n].mid <= s.mid)
                          \union Flag("C07", pc' = "ret" /\ pc = "recv" /\ cl.rk = "once" /\ res'.r \in {"state", "gstate"} => res'.aux[1].tag > gh.callAt)
                          \union Flag("C10", new /\ cl.rk = "run" => gh.ph = "none")]
MRtCall == /\ pc = "rt"
           /\ \E x \in {<<"priomax", rtenv.priomax>>, <<"setsched", rtenv.setsched>>, <<"mlockall", rtenv.mlockall>>} :
                /\ <<x[1], TRUE>> \notin cl.rtd /\ <<x[1], FALSE>> \notin cl.rtd
                /\ rtenv.kernel /\ ~(\E y \in cl.rtd : y[2] = FALSE)
                /\ (x[1] # "priomax" => <<"priomax", TRUE>> \in cl.rtd)
                /\ CRt(x[1], IF x[1] = "mlockall" THEN 3 ELSE 1, 1, x[2])
           /\ NoB /\ gh' = [gh EXCEPT !.rt = cl'.rtd]
MRtDecide == RtDecide /\ NoB /\ UNCHANGED gh
MDlopen == CDlopen(TRUE) /\ NoB /\ UNCHANGED gh
LastN(h, n) == IF Len(h) > n THEN SubSeq(h, Len(h) - n + 1, Len(h)) ELSE h
Subs == IF call.op = "default_behavior" THEN 3 ELSE 1
MRet == /\ CRet /\ NoB
        /\ gh' = [gh EXCEPT !.bad = @
             \union Flag("C01", call.op \in RobotSimple \union GripperSimple /\ ~(res.r = "err" /\ res.k = "network") =>
                           RepOf(MyId) # {} /\ res = Outcome(dev, ReqCmd, FirstOf(MyId).st))
             \union Flag("C04", call.op = "new" /\ res.r = "ver" => FirstOf(0).st = 0 /\ res.aux[1] = FirstOf(0).ver)
             \union Flag("C04", call.op = "new" /\ res.k = "incompat" => FirstOf(0).st # 0 /\ res.aux = <<FirstOf(0).ver, Version(dev)>>)
             \union Flag("C05", res.r = "err" /\ res.k = "network" => ~conn \/ bu.sil > 0 \/ bu.junk > 0)
             \union Flag("C11", IsMotion /\ res.r # "err" => gh.ask /\ ~Running /\ NthOf(cl.moveId, 2).st \in {0, 1})
             \union Flag("C09", IsMotion /\ res.r = "err" /\ ~gh.acc => gh.hist = <<>> /\ gh.stop = 0)
             \union Flag("C12", IsMotion /\ res.r = "err" /\ (gh.left \/ gh.hist # <<>>) => gh.stop = 1 \/ ~conn)
             \union Flag("C12", IsMotion /\ res.r = "err" /\ res.haslog =>
                                LET st == NthOf(cl.moveId, 2).st IN
                                /\ res.why = (IF ~gh.left /\ st = 6 THEN "stillmoving" ELSE MoveWhy(st))
                                /\ res.errs = (IF st = 6 THEN cl.stt.refl ELSE <<>>))
             \union Flag("C13", IsMotion /\ res.r = "err" /\ res.haslog => res.log = LastN(gh.hist, cl.logSize))
             \union Flag("C21", call.op = "load_model" =>
                           IF res.r = "err" THEN file = gh.pre
                           ELSE IF gh.pre # 0 THEN file = gh.pre /\ gh.dl = 0
                           ELSE gh.dl = 1 /\ file = (IF Get(call, "persistent", FALSE) THEN FirstOf(MyId).lib ELSE 0))
             \union Flag("C22", IsMotion /\ cl.enforce /\ ~(rtenv.kernel /\ rtenv.priomax # -1 /\ rtenv.setsched = 0 /\ rtenv.mlockall = 0) => res.k = "realtime")
             \union Flag("C22", IsMotion /\ ~cl.enforce => gh.rt = {})]
(* ---- device and network, at any moment ---- *)
Alive == cl.nextId > 0
Outstanding == IF pc = "wait" THEN {<<MyId, ReqCmd>>} ELSE {}
MResp == /\ Alive /\ bu.resp < Par.resp /\ conn
         /\ \/ \E x \in Outstanding : \E st \in (IF x[2] = 0 THEN {0, 1} ELSE IF cl.pur = "move" THEN Par.moveSt ELSE Par.cmdSt) :
                 /\ ~HasReply(x[1]) /\ st \in StatusSet(dev, x[2])
                 /\ EResp([cmd |-> x[2], id |-> x[1], st |-> st, ver |-> Version(dev), wall |-> 0, lib |-> IF x[2] = 13 /\ st = 0 THEN bu.resp + 1 ELSE 0])
                 /\ gh' = [gh EXCEPT !.rep = Append(@, [id |-> x[1], st |-> st, ver |-> Version(dev), lib |-> IF x[2] = 13 /\ st = 0 THEN bu.resp + 1 ELSE 0])]
            \/ /\ IsMotion /\ gh.acc /\ ~HasReply(cl.moveId) /\ Cardinality(RepOf(cl.moveId)) = 1
               /\ \E st \in (IF gh.ask THEN {0, 6} ELSE B({6}, {6, 9})) :
                 /\ EResp([cmd |-> 1, id |-> cl.moveId, st |-> st, ver |-> 0, wall |-> 0, lib |-> 0])
                 /\ gh' = [gh EXCEPT !.rep = Append(@, [id |-> cl.moveId, st |-> st, ver |-> 0, lib |-> 0])]
            \/ /\ Par.foreign
               /\ \E i \in {90} \union (IF MyId > 0 THEN {MyId - 1} ELSE {}), st \in {0, 1} :
                 /\ EResp([cmd |-> 5, id |-> i, st |-> st, ver |-> 0, wall |-> 0, lib |-> 0])
                 /\ gh' = [gh EXCEPT !.rep = Append(@, [id |-> i, st |-> st, ver |-> 0, lib |-> 0])]
         /\ bu' = [bu EXCEPT !.resp = @ + 1]
MState == /\ Alive /\ bu.sent < Par.mids /\ Len(udpq) < B(2, 3)
          /\ (Par.modes = "seq" => pc \in {"recv", "first"} /\ udpq = <<>>)
          /\ \E mid \in (IF Par.modes = "seq" THEN {bu.sent + 1} ELSE {m \in 1..(Par.mids + 2) : m >= cl.last /\ m <= cl.last + 2}), m \in ModeSet :
               EDatagram([mid |-> mid, tag |-> bu.sent + 1, mg |-> m.mg, cm |-> m.cm, rm |-> m.rm, err |-> <<>>, refl |-> <<>>,
                          width |-> "0", maxw |-> "0", grasped |-> FALSE, temp |-> 0])
          /\ bu' = [bu EXCEPT !.sent = @ + 1] /\ UNCHANGED gh
MJunk == Alive /\ bu.junk < Par.junk /\ EDatagram([junk |-> TRUE]) /\ bu' = [bu EXCEPT !.junk = @ + 1] /\ UNCHANGED gh
MSilence == bu.sil < Par.sil /\ ESilence /\ bu' = [bu EXCEPT !.sil = @ + 1] /\ UNCHANGED gh
(* the disk fills up, or has room again *)
MDisk == /\ Scope = "model" /\ bu.sil < B(2, 3) /\ rtenv' = [disk |-> ~Get(rtenv, "disk", FALSE)] @@ rtenv
         /\ bu' = [bu EXCEPT !.sil = @ + 1] /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, udpq, conn, file, gh>>
MClose == Alive /\ bu.close < Par.close /\ EClose /\ bu' = [bu EXCEPT !.close = @ + 1] /\ UNCHANGED gh

Client == MReq \/ MSendFails \/ MCb \/ MCmd \/ MSilent \/ MRtCall \/ MRtDecide \/ MDlopen \/ MRet
User == MCall \/ MCbRet
Device == MResp \/ MState \/ MJunk \/ MSilence \/ MDisk \/ MClose
MNext == Client \/ User \/ Device
MSpec == MInit /\ [][MNext]_mcvars
(* when the states stop and the connection closes every call comes to its end (unless its callback does not) *)
(* unlimited silence and one close, always possible *)
LSilence == ESilence /\ UNCHANGED <<gh, bu>>
LClose == Alive /\ EClose /\ UNCHANGED <<gh, bu>>
LNext == MNext \/ LSilence \/ LClose
LSpec == MInit /\ [][LNext]_mcvars /\ WF_mcvars(Client) /\ WF_mcvars(LSilence) /\ WF_mcvars(LClose) /\ WF_mcvars(MCbRet)
CallsEnd == []<>(pc = "idle")

Holds == gh.bad = {}
(* the client is never stuck: it can go on, or waits for a reply, a state, or the user *)
NeverStuck == ENABLED Client \/ pc \in {"wait", "errwait", "finwait", "recv", "first", "incb", "idle"}
TypeOk == pc \in {"idle", "send", "wait", "first", "recv", "drain", "cb", "incb", "cmd", "guard", "startchk", "check", "errwait", "finchk", "finwait", "ret", "rt", "dlopen", "unreachable", "version", "dropped", "panic", "end"}
=============================================================================
