---------------------------- MODULE FrankaClient ----------------------------
(* The client library as a state machine: one control thread, a TCP command   *)
(* channel and a UDP state channel, talking to a robot or gripper that may     *)
(* answer anything the protocol allows, late, early, never, or vanish.         *)
(*                                                                             *)
(* Every action is one of                                                      *)
(*   - a silent client step (taking a reply or a state from a queue),          *)
(*   - an observable client step (request, command, callback, return ...),     *)
(*   - a user step (call, callback result),                                    *)
(*   - an environment step (reply, state, short datagram, silence, close).     *)
(* FrankaMC explores all interleavings; FrankaGen lets the environment act     *)
(* only when the client waits and records the schedule as a test script;       *)
(* FrankaTrace accepts exactly the traces of the real library that this        *)
(* machine allows.                                                             *)
EXTENDS FrankaWire, FiniteSets

VARIABLES
  dev,    \* "robot" or "gripper"
  pc,     \* where the client is
  call,   \* the API call being executed
  res,    \* its result, once decided (kept while an interrupted motion is cancelled)
  cl,     \* client memory
  tcpq,   \* replies that arrived and were not consumed, oldest first
  udpq,   \* datagrams that arrived and were not consumed, oldest first
  conn,   \* the device has not closed the command connection
  file,   \* local copy of the model library (0: none)
  rtenv   \* what the operating system grants: kernel, priomax, setsched, mlockall

vars == <<dev, pc, call, res, cl, tcpq, udpq, conn, file, rtenv>>

NoCall == [op |-> "none", args |-> <<>>]
NoState == [mid |-> 0, tag |-> 0, mg |-> 0, cm |-> CmOther, rm |-> 1, err |-> <<>>, refl |-> <<>>]

InitClient(d) == [
  nextId |-> 0, up |-> FALSE, ver |-> 0, enforce |-> FALSE, logSize |-> 50,
  pur |-> "",      \* why the current request is sent: conn, cmd, move, stop, model
  rk |-> "",       \* why a state is awaited: once, read, start, run0, run, fin, rest
  sub |-> 0,       \* position in a composite call
  last |-> 0, mg |-> MgIdle, cm |-> CmOther,       \* newest state seen
  wmg |-> 0, wcm |-> 0, moveId |-> 0,              \* the running motion
  stt |-> NoState,                                 \* the state to be answered
  k |-> "", prev |-> 0, first |-> TRUE,            \* callbacks
  vi |-> 0, ti |-> 0, rot |-> 0, el |-> <<>>,      \* last computed command
  fin |-> FALSE, log |-> <<>>,
  rtd |-> {}, down |-> FALSE ]

Init ==
  /\ dev \in {"robot", "gripper"}
  /\ pc = "idle" /\ call = NoCall /\ res = NoRes
  /\ cl = InitClient(dev)
  /\ tcpq = <<>> /\ udpq = <<>> /\ conn = TRUE /\ file = 0
  /\ rtenv = [kernel |-> FALSE, priomax |-> 99, setsched |-> 0, mlockall |-> 0]

(* ---- helpers ------------------------------------------------------------- *)
MyId == cl.nextId - 1
RepliesTo(i) == {n \in DOMAIN tcpq : tcpq[n].id = i}
HasReply(i) == RepliesTo(i) # {}
FirstReply(i) == CHOOSE n \in RepliesTo(i) : \A m \in RepliesTo(i) : n <= m
Without(s, n) == SubSeq(s, 1, n - 1) \o SubSeq(s, n + 1, Len(s))

IsJunk(d) == "junk" \in DOMAIN d
(* datagrams in front of the first short one *)
FullPrefix == LET J == {n \in DOMAIN udpq : IsJunk(udpq[n])}
              IN IF J = {} THEN Len(udpq) ELSE (CHOOSE n \in J : \A m \in J : n <= m) - 1
(* the queued states that are newer than everything used before; the newest of them *)
Newer == {n \in 1..FullPrefix : udpq[n].mid > cl.last}
Freshest == CHOOSE n \in Newer : \A m \in Newer : udpq[m].mid < udpq[n].mid \/ (udpq[m].mid = udpq[n].mid /\ n <= m)

Running == cl.mg # MgIdle \/ cl.cm = CmExternal
ModesReached == cl.mg = cl.wmg /\ cl.cm = cl.wcm

TruncLog(l) == IF Len(l) > cl.logSize THEN SubSeq(l, Len(l) - cl.logSize + 1, Len(l)) ELSE l

(* ---- user steps ------------------------------------------------------------ *)
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

UCall(c) ==
  /\ pc = "idle"
  /\ call' = c
  /\ res' = NoRes
  /\ UNCHANGED <<dev, tcpq, udpq, conn, file, rtenv>>
  /\ LET op == c.op IN
     IF op = "new" THEN
       /\ ~cl.up
       /\ pc' = IF Get(c, "host", "self") # "self" \/ Get(c, "nolisten", FALSE) THEN "unreachable" ELSE "send"
       /\ cl' = [cl EXCEPT !.pur = "conn", !.logSize = Get(c, "log", 50),
                           !.enforce = Get(c, "rt", "ignore") \in {"enforce", "default"}]
     ELSE IF op = "drop" THEN pc' = "dropped" /\ UNCHANGED cl
     ELSE IF op = "version" THEN pc' = "version" /\ UNCHANGED cl
     ELSE IF op = "default_behavior" THEN
       pc' = "send" /\ cl' = [cl EXCEPT !.pur = "cmd", !.sub = 1]
     ELSE IF op \in RobotSimple \union GripperSimple THEN
       pc' = "send" /\ cl' = [cl EXCEPT !.pur = "cmd", !.sub = 0]
     ELSE IF op = "read_once" THEN pc' = "drain" /\ cl' = [cl EXCEPT !.rk = "once"]
     ELSE IF op = "read" THEN pc' = "recv" /\ cl' = [cl EXCEPT !.rk = "read"]
     ELSE IF op = "load_model" THEN
       /\ pc' = IF file = 0 THEN "send" ELSE "dlopen"
       /\ cl' = [cl EXCEPT !.pur = "model", !.down = FALSE]
     ELSE
       /\ op \in MotionOps
       /\ pc' = IF cl.enforce THEN "rt" ELSE "guard"
       /\ cl' = [cl EXCEPT !.wmg = OpMg(op),
                           !.wcm = IF External(op) THEN CmExternal ELSE IF Get(c, "cm", "ji") = "ci" THEN 1 ELSE 0,
                           !.rtd = {}, !.fin = FALSE, !.first = TRUE, !.vi = 0, !.ti = -1, !.rot = 0, !.el = <<>>]

(* the user's callback returns *)
UCbRet(b) ==
  /\ pc = "incb"
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>
  /\ IF cl.k = "read" THEN
       /\ IF b.fin THEN pc' = "ret" /\ res' = Ok("ok") ELSE pc' = "recv" /\ UNCHANGED res
       /\ UNCHANGED cl
     ELSE
       /\ UNCHANGED res
       /\ IF b.bad THEN pc' = "panic" /\ UNCHANGED cl
          ELSE IF cl.k = "mot" THEN
            /\ cl' = [cl EXCEPT !.vi = b.vi, !.rot = b.rot, !.el = b.el, !.fin = b.fin,
                                !.k = IF ~b.fin /\ External(call.op) THEN "ctl" ELSE "",
                                !.prev = IF ~b.fin /\ External(call.op) THEN cl.prev ELSE cl.stt.mid,
                                !.first = IF ~b.fin /\ External(call.op) THEN cl.first ELSE FALSE]
            /\ pc' = IF ~b.fin /\ External(call.op) THEN "cb" ELSE "cmd"
          ELSE
            /\ cl' = [cl EXCEPT !.ti = b.ti, !.fin = b.fin, !.k = "", !.prev = cl.stt.mid, !.first = FALSE]
            /\ pc' = "cmd"

(* ---- silent client steps ---------------------------------------------------- *)
(* leave the call with an error found while the motion was running: stop the robot first *)
Cancel(e) == /\ res' = e /\ pc' = "send" /\ cl' = [cl EXCEPT !.pur = "stop"]
Finish(e) == /\ res' = e /\ pc' = "ret" /\ UNCHANGED cl

InMotion == cl.rk \in {"run0", "run", "fin"}

(* a reply to the awaited request is there *)
TakeReply ==
  /\ pc = "wait"
  /\ HasReply(MyId)
  /\ LET n == FirstReply(MyId)  m == tcpq[n] IN
     /\ tcpq' = Without(tcpq, n)
     /\ UNCHANGED <<dev, call, udpq, conn, rtenv>>
     /\ CASE cl.pur = "conn" ->
               /\ UNCHANGED file
               /\ IF m.st # 0 THEN /\ res' = [Err("incompat", "") EXCEPT !.aux = <<m.ver, Version(dev)>>]
                                   /\ pc' = "ret" /\ UNCHANGED cl
                  ELSE /\ cl' = [cl EXCEPT !.ver = m.ver, !.up = (dev = "gripper")]
                       /\ IF dev = "gripper" THEN pc' = "ret" /\ res' = [Ok("ver") EXCEPT !.aux = <<m.ver>>]
                          ELSE pc' = "first" /\ UNCHANGED res
          [] cl.pur = "cmd" ->
               /\ UNCHANGED file
               /\ LET o == Outcome(dev, m.cmd, m.st) IN
                  IF cl.sub > 0 /\ o.r = "ok" /\ cl.sub < Len(DefaultSeq)
                  THEN pc' = "send" /\ cl' = [cl EXCEPT !.sub = @ + 1] /\ UNCHANGED res
                  ELSE /\ pc' = "ret" /\ UNCHANGED cl
                       /\ res' = IF call.op = "get_wall" /\ o.r = "ok" THEN [Ok("wall") EXCEPT !.aux = <<m.wall>>] ELSE o
          [] cl.pur = "move" ->
               /\ UNCHANGED file
               /\ IF MoveAccepted(m.st)
                  THEN pc' = "startchk" /\ cl' = [cl EXCEPT !.moveId = MyId] /\ UNCHANGED res
                  ELSE Finish(Err("command", MoveWhy(m.st)))
          [] cl.pur = "stop" ->   \* whatever the robot answers, wait for it to rest
               /\ UNCHANGED <<file, res>>
               /\ pc' = "recv" /\ cl' = [cl EXCEPT !.rk = "rest"]
          [] cl.pur = "model" ->
               IF m.st # 0 \/ Get(rtenv, "disk", FALSE) THEN Finish(Err("model", "")) /\ UNCHANGED file
               ELSE /\ pc' = "dlopen" /\ file' = m.lib /\ UNCHANGED res
                    /\ cl' = [cl EXCEPT !.down = TRUE]

(* the connection is gone and the reply cannot come any more *)
LoseConn ==
  /\ pc = "wait" /\ ~HasReply(MyId) /\ ~conn
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>
  /\ IF cl.pur = "stop" THEN pc' = "recv" /\ cl' = [cl EXCEPT !.rk = "rest"] /\ UNCHANGED res
     ELSE Finish(NetErr)
(* a request cannot be written any more *)
SendFails ==
  /\ pc = "send" /\ ~conn
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>
  /\ IF cl.pur = "stop" THEN pc' = "recv" /\ cl' = [cl EXCEPT !.rk = "rest", !.nextId = @ + 1] /\ UNCHANGED res
     ELSE res' = NetErr /\ pc' = "ret" /\ cl' = [cl EXCEPT !.nextId = @ + 1]

(* what happens with an accepted state *)
Deliver(s, c) ==
  LET c1 == [c EXCEPT !.last = s.mid, !.mg = s.mg, !.cm = s.cm, !.stt = s] IN
  CASE cl.rk = "once" -> pc' = "ret" /\ cl' = c1 /\ res' = [Ok("state") EXCEPT !.aux = <<s>>]
    [] cl.rk = "read" -> pc' = "cb" /\ cl' = [c1 EXCEPT !.k = "read"] /\ UNCHANGED res
    [] cl.rk = "start" -> pc' = "startchk" /\ cl' = c1 /\ UNCHANGED res
    [] cl.rk = "run0" -> pc' = "check" /\ cl' = c1 /\ UNCHANGED res
    [] cl.rk \in {"run", "fin"} ->
         /\ UNCHANGED res
         /\ cl' = [c1 EXCEPT !.log = TruncLog(Append(cl.log, [mid |-> s.mid, tag |-> s.tag, v |-> cl.vi, t |-> cl.ti]))]
         /\ pc' = IF cl.rk = "run" THEN "check" ELSE "finchk"
    [] cl.rk = "rest" ->
         /\ cl' = c1
         /\ UNCHANGED res
         /\ pc' = IF s.mg # MgIdle \/ s.cm = CmExternal THEN "recv" ELSE "ret"

StateFails ==
  IF cl.rk = "rest" THEN pc' = "ret" /\ UNCHANGED <<cl, res>>
  ELSE IF InMotion THEN Cancel(NetErr)
  ELSE Finish(NetErr)

(* a single read discards what was queued before it began *)
Drain ==
  /\ pc = "drain"
  /\ udpq' = SubSeq(udpq, FullPrefix + 1, Len(udpq))
  /\ pc' = "recv"
  /\ UNCHANGED <<dev, call, res, cl, tcpq, conn, file, rtenv>>

(* the freshest queued state is used, the others in front of it are discarded *)
TakeFreshest ==
  /\ pc = "recv" /\ dev = "robot"
  /\ Newer # {}
  /\ udpq' = SubSeq(udpq, FullPrefix + 1, Len(udpq))
  /\ Deliver(udpq[Freshest], cl)
  /\ UNCHANGED <<dev, call, tcpq, conn, file, rtenv>>
(* nothing newer: stale ones are dropped *)
DropStale ==
  /\ pc = "recv" /\ dev = "robot"
  /\ Newer = {} /\ FullPrefix > 0
  /\ udpq' = SubSeq(udpq, FullPrefix + 1, Len(udpq))
  /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, conn, file, rtenv>>
(* a short datagram is the next thing to read *)
TakeJunk ==
  /\ pc \in {"recv", "first"}
  /\ udpq # <<>> /\ IsJunk(udpq[1])
  /\ udpq' = Tail(udpq)
  /\ IF pc = "first" THEN Finish(NetErr) ELSE StateFails
  /\ UNCHANGED <<dev, call, tcpq, conn, file, rtenv>>
(* the first state after connecting is the starting point *)
TakeFirst ==
  /\ pc = "first"
  /\ udpq # <<>> /\ ~IsJunk(udpq[1])
  /\ LET s == udpq[1] IN cl' = [cl EXCEPT !.last = s.mid, !.mg = s.mg, !.cm = s.cm, !.stt = s, !.up = TRUE]
  /\ udpq' = Tail(udpq)
  /\ pc' = "ret" /\ res' = [Ok("ver") EXCEPT !.aux = <<cl.ver>>]
  /\ UNCHANGED <<dev, call, tcpq, conn, file, rtenv>>
(* gripper: the state that arrives next *)
TakeGripper ==
  /\ pc = "recv" /\ dev = "gripper"
  /\ udpq # <<>> /\ ~IsJunk(udpq[1])
  /\ udpq' = Tail(udpq)
  /\ res' = [Ok("gstate") EXCEPT !.aux = <<udpq[1]>>] /\ pc' = "ret"
  /\ UNCHANGED <<dev, call, cl, tcpq, conn, file, rtenv>>

(* a motion is refused while one is running *)
Guard ==
  /\ pc = "guard"
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>
  /\ IF Running THEN Finish(Err("control", "multiple"))
     ELSE pc' = "send" /\ cl' = [cl EXCEPT !.pur = "move"] /\ UNCHANGED res

(* after acceptance: wait until the robot reports the requested modes, unless it aborts *)
StartCheck ==
  /\ pc = "startchk"
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>
  /\ \/ /\ ModesReached
        /\ pc' = "recv" /\ cl' = [cl EXCEPT !.rk = "run0", !.log = <<>>] /\ UNCHANGED res
     \/ /\ ~ModesReached /\ HasReply(cl.moveId)
        /\ LET m == tcpq[FirstReply(cl.moveId)] IN
           ~MoveAccepted(m.st) /\ Finish(Err("control", MoveWhy(m.st)))
     \/ /\ ~ModesReached /\ ~HasReply(cl.moveId)
        /\ pc' = "recv" /\ cl' = [cl EXCEPT !.rk = "start"] /\ UNCHANGED res
     \/ /\ ~ModesReached /\ ~HasReply(cl.moveId) /\ ~conn
        /\ Finish(NetErr)

(* every state of a running motion is checked before a callback sees it *)
Check ==
  /\ pc = "check"
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv, res>>
  /\ IF cl.stt.rm # RmMove \/ ~ModesReached
     THEN pc' = "errwait" /\ UNCHANGED cl
     ELSE pc' = "cb" /\ cl' = [cl EXCEPT !.k = IF HasMotionCb(call.op) THEN "mot" ELSE "ctl"]

WithErrs(e, st) == [e EXCEPT !.haslog = TRUE, !.log = cl.log, !.errs = IF st = MoveReflex THEN cl.stt.refl ELSE <<>>]

ErrWait ==
  /\ pc = "errwait"
  /\ UNCHANGED <<dev, call, udpq, conn, file, rtenv>>
  /\ \/ /\ HasReply(cl.moveId)
        /\ LET n == FirstReply(cl.moveId)  m == tcpq[n] IN
           /\ tcpq' = Without(tcpq, n)
           /\ ~MoveAccepted(m.st)
           /\ Cancel(WithErrs(Err("control", MoveWhy(m.st)), m.st))
     \/ /\ ~HasReply(cl.moveId) /\ ~conn
        /\ UNCHANGED tcpq
        /\ Cancel(NetErr)

(* finishing: keep sending the finished command until the robot stopped, then wait for the verdict *)
FinCheck ==
  /\ pc = "finchk"
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv, res, cl>>
  /\ pc' = IF Running THEN "cmd" ELSE "finwait"

FinWait ==
  /\ pc = "finwait"
  /\ UNCHANGED <<dev, call, udpq, conn, file, rtenv>>
  /\ \/ /\ HasReply(cl.moveId)
        /\ LET n == FirstReply(cl.moveId)  m == tcpq[n] IN
           /\ tcpq' = Without(tcpq, n)
           /\ IF MoveAccepted(m.st) THEN pc' = "ret" /\ res' = Ok("ok") /\ UNCHANGED cl
              ELSE Cancel(WithErrs(Err("control", IF m.st = MoveReflex THEN "stillmoving" ELSE MoveWhy(m.st)), m.st))
     \/ /\ ~HasReply(cl.moveId) /\ ~conn
        /\ UNCHANGED tcpq
        /\ Cancel(NetErr)

(* realtime enforcement succeeded or failed *)
RtGranted == /\ rtenv.kernel
             /\ <<"setsched", TRUE>> \in cl.rtd /\ <<"mlockall", TRUE>> \in cl.rtd
RtRefused == ~rtenv.kernel \/ \E x \in cl.rtd : x[2] = FALSE
RtDecide ==
  /\ pc = "rt"
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>
  /\ \/ RtGranted /\ ~RtRefused /\ pc' = "guard" /\ UNCHANGED <<cl, res>>
     \/ RtRefused /\ Finish(Err("realtime", ""))

Unreachable ==
  /\ pc = "unreachable"
  /\ Finish(NetErr)
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>

Local ==
  /\ pc \in {"version", "dropped"}
  /\ pc' = "ret" /\ UNCHANGED cl
  /\ res' = IF pc = "version" THEN [Ok("ver") EXCEPT !.aux = <<cl.ver>>] ELSE Ok("ok")
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>

Silent == TakeReply \/ LoseConn \/ Drain \/ TakeFreshest \/ DropStale \/ TakeJunk \/ TakeFirst \/ TakeGripper
          \/ Guard \/ StartCheck \/ Check \/ ErrWait \/ FinCheck \/ FinWait \/ Unreachable \/ Local

(* the same enabledness as a state predicate (the client is not waiting for anybody) *)
CanStep ==
  \/ pc = "wait" /\ (HasReply(MyId) \/ ~conn)
  \/ pc \in {"errwait", "finwait"} /\ (HasReply(cl.moveId) \/ ~conn)
  \/ pc \in {"recv", "first"} /\ udpq # <<>>
  \/ pc \in {"drain", "guard", "startchk", "check", "finchk", "unreachable", "version", "dropped"}

(* ---- observable client steps --------------------------------------------------- *)
ReqCmd == IF cl.pur = "conn" THEN 0 ELSE IF cl.pur = "move" THEN 1 ELSE IF cl.pur = "stop" THEN 2
          ELSE IF cl.pur = "model" THEN 13
          ELSE IF cl.sub > 0 THEN CmdOf(DefaultSeq[cl.sub].op) ELSE CmdOf(call.op)
ReqArgs == IF cl.pur = "conn" THEN <<Str(Version(dev)), "port">>
           ELSE IF cl.pur = "move" THEN <<Str(cl.wcm), Str(cl.wmg - 1)>> \o Deviation \o Deviation
           ELSE IF cl.pur = "stop" THEN <<>>
           ELSE IF cl.pur = "model" THEN <<"0", "0">>
           ELSE IF cl.sub > 0 THEN DefaultSeq[cl.sub].args ELSE WireArgs(call.op, call.args)
ReqObs == [cmd |-> ReqCmd, id |-> cl.nextId, size |-> HeaderLen(dev) + BodyLen(dev, ReqCmd), p |-> ReqArgs]
CReq ==
  /\ pc = "send"
  /\ pc' = "wait" /\ cl' = [cl EXCEPT !.nextId = @ + 1]
  /\ UNCHANGED <<dev, call, res, tcpq, udpq, conn, file, rtenv>>

(* n successful commands in a row: of all they do, only the numbers used up remain *)
Series(n) ==
  /\ pc = "idle" /\ cl.up /\ conn
  /\ cl' = [cl EXCEPT !.nextId = @ + n]
  /\ UNCHANGED <<dev, pc, call, res, tcpq, udpq, conn, file, rtenv>>

CbObs == [k |-> cl.k, mid |-> cl.stt.mid, tag |-> cl.stt.tag, dt |-> IF cl.first THEN 0 ELSE cl.stt.mid - cl.prev]
CCb ==
  /\ pc = "cb" /\ pc' = "incb"
  /\ UNCHANGED <<dev, call, res, cl, tcpq, udpq, conn, file, rtenv>>

CmdObs == [mid |-> cl.stt.mid, fin |-> IF cl.fin THEN 1 ELSE 0, vi |-> cl.vi, ti |-> cl.ti]
CCmd ==
  /\ pc = "cmd"
  /\ pc' = "recv" /\ cl' = [cl EXCEPT !.rk = IF cl.fin THEN "fin" ELSE "run"]
  /\ UNCHANGED <<dev, call, res, tcpq, udpq, conn, file, rtenv>>

(* the network refuses the command *)
CCmdFails ==
  /\ pc = "cmd" /\ Cancel(NetErr)
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>

CRt(f, a, b, r) ==
  /\ pc = "rt"
  /\ f = "priomax" => a = 1
  /\ f = "setsched" => a = 1 /\ b \in 1..rtenv.priomax
  /\ f = "mlockall" => a = 3
  /\ cl' = [cl EXCEPT !.rtd = @ \union {<<f, IF f = "priomax" THEN r # -1 ELSE r = 0>>}]
  /\ UNCHANGED <<dev, pc, call, res, tcpq, udpq, conn, file, rtenv>>

(* the model library is opened, then removed again if this call downloaded it and must not keep it *)
CDlopen(good) ==
  /\ pc = "dlopen"
  /\ pc' = "ret"
  /\ res' = IF good THEN Ok("model") ELSE Err("model", "")
  /\ file' = IF cl.down /\ ~Get(call, "persistent", FALSE) THEN 0 ELSE file
  /\ UNCHANGED <<dev, call, cl, tcpq, udpq, conn, rtenv>>

CRet ==
  /\ pc = "ret"
  /\ pc' = "idle" /\ call' = NoCall
  /\ UNCHANGED <<dev, res, cl, tcpq, udpq, conn, file, rtenv>>

CPanic ==
  /\ pc = "panic" /\ pc' = "end"
  /\ UNCHANGED <<dev, call, res, cl, tcpq, udpq, conn, file, rtenv>>

(* ---- environment steps ------------------------------------------------------------ *)
EResp(m) ==
  /\ conn
  /\ tcpq' = Append(tcpq, m)
  /\ UNCHANGED <<dev, pc, call, res, cl, udpq, conn, file, rtenv>>
EDatagram(d) ==
  /\ udpq' = Append(udpq, d)
  /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, conn, file, rtenv>>
(* nothing arrived for the timeout period *)
ESilence ==
  /\ pc \in {"recv", "first"} /\ udpq = <<>>
  /\ IF pc = "first" THEN Finish(NetErr) ELSE StateFails
  /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv>>
EClose ==
  /\ conn /\ conn' = FALSE
  /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, udpq, file, rtenv>>
=============================================================================
