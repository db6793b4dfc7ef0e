----------------------------- MODULE FrankaTrace -----------------------------
(* Accepts a recorded trace of the real library iff FrankaClient allows it.    *)
(* All traces of a batch are checked in one run; a trace that can be replayed   *)
(* to its end prints <<"DONE", index>>.  FOCUS selects which observable fields  *)
(* are compared besides the control skeleton.                                   *)
EXTENDS FrankaClient, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Focus == IOEnv.FOCUS
Verbose == IOEnv.VERBOSE = "1"

VARIABLES tr, l
tvars == <<dev, pc, call, res, cl, tcpq, udpq, conn, file, rtenv, tr, l>>

Tr == Traces[tr]
E == Tr.ev[l]
Is(x) == l <= Len(Tr.ev) /\ E.e = x

(* which checks care about which field *)
ChkPayload == Focus \in {"C03", "C04", "C09", "C12", "C21", "all"}
ChkWhy     == Focus \in {"C01", "C02", "C05", "C09", "C11", "C12", "all"}
ChkErrs    == Focus \in {"C12", "C08", "all"}
ChkLog     == Focus \in {"C13", "all"}
ChkDt      == Focus \in {"C10", "all"}
ChkVals    == Focus \in {"C10", "C11", "C15", "all"}
ChkSample  == Focus \in {"C04", "C06", "C07", "C08", "C10", "C12", "C13", "all"}
ChkFull    == Focus \in {"C15", "all"}
ChkKind    == Focus # "C22"

Range(s) == {s[i] : i \in DOMAIN s}

TInit ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1
  /\ dev = Traces[tr].dev
  /\ pc = "idle" /\ call = NoCall /\ res = NoRes
  /\ cl = InitClient(dev)
  /\ tcpq = <<>> /\ udpq = <<>> /\ conn = TRUE /\ file = 0
  /\ rtenv = Traces[tr].rt

Adv == l' = l + 1 /\ tr' = tr

TCall == Is("call") /\ UCall(E) /\ Adv
TCbRet == Is("cbret") /\ UCbRet(E) /\ Adv /\ E.k = cl.k

TReq == /\ Is("req") /\ CReq /\ Adv
        /\ E.cmd = ReqObs.cmd /\ E.id = ReqObs.id
        /\ (ChkPayload => E.size = ReqObs.size /\ E.p = ReqObs.p)
TSendFail == Is("sendfail") /\ SendFails /\ Adv
(* a write error may also surface without a trace event (error reported by the next system call) *)
TCb == /\ Is("cb") /\ CCb /\ Adv
       /\ E.k = CbObs.k
       /\ (ChkSample => E.mid = CbObs.mid)
       /\ (ChkSample /\ CbObs.tag >= 0 => E.c = Sample(CbObs.tag))
       /\ (ChkDt /\ CbObs.k # "read" => E.dt = CbObs.dt)

Rots == << <<1,0,0, 0,1,0, 0,0,1>>, <<0,1,0, -1,0,0, 0,0,1>>, <<1,0,0, 0,0,1, 0,-1,0>>, <<0,1,0, 0,0,1, 1,0,0>> >>
SeqStr(n, k) == [i \in 1..k |-> Str(n + i - 1)]
Zeros(k) == [i \in 1..k |-> "0"]
PoseStr(n, rot) == LET R == Rots[rot + 1] IN
  << Str(R[1]), Str(R[2]), Str(R[3]), "0", Str(R[4]), Str(R[5]), Str(R[6]), "0",
     Str(R[7]), Str(R[8]), Str(R[9]), "0", Str(n), Str(n + 1), Str(n + 2), "1" >>
FullMatch(e) ==
  LET op == call.op IN
  /\ e.q   = IF op \in {"jp", "tjp"} THEN SeqStr(cl.vi, 7) ELSE Zeros(7)
  /\ e.dq  = IF op \in {"jv", "tjv"} THEN SeqStr(cl.vi, 7) ELSE Zeros(7)
  /\ e.T   = IF op \in {"cp", "tcp"} THEN PoseStr(cl.vi, cl.rot) ELSE Zeros(16)
  /\ e.dP  = IF op \in {"cv", "tcv"} THEN SeqStr(cl.vi, 6) ELSE Zeros(6)
  /\ e.el  = IF cl.el # <<>> /\ op \in {"cp", "tcp", "cv", "tcv"} THEN cl.el ELSE Zeros(2)
  /\ e.ve  = IF cl.el # <<>> /\ op \in {"cp", "tcp", "cv", "tcv"} THEN 1 ELSE 0
  /\ e.tau = IF External(op) /\ cl.ti # -1 THEN SeqStr(cl.ti, 7) ELSE Zeros(7)

Plain == Get(call, "lim", TRUE) = FALSE /\ Get(call, "cut", 100) >= 1000
TauStr == IF External(call.op) /\ cl.ti # -1 THEN Str(cl.ti) ELSE "0"
VStr == IF call.op = "tau" THEN "0" ELSE Str(cl.vi)
TCmd == /\ Is("cmd") /\ CCmd /\ Adv
        /\ E.mid = CmdObs.mid /\ E.fin = CmdObs.fin /\ E.dst
        /\ (ChkVals /\ Plain => E.v = VStr /\ E.t = TauStr)
        /\ (ChkFull /\ Plain /\ Get(E, "q", <<>>) # <<>> => FullMatch(E))

TCmdFails == Is("cmdfail") /\ CCmdFails /\ Adv

(* the command on the wire that a logged state answers: the last one before it *)
SentBefore(m) == LET J == {j \in 1..(l - 1) : Tr.ev[j].e = "cmd" /\ Tr.ev[j].mid < m} IN Tr.ev[CHOOSE j \in J : \A i \in J : i <= j]
LogMatch(a, b) ==   \* a: recorded, b: specified
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a :
       /\ a[i].mid = b[i].mid
       /\ a[i].c = Sample(b[i].tag)
       /\ Get(a[i], "q", <<>>) # <<>> =>
            LET c == SentBefore(a[i].mid) IN a[i].q = c.q /\ a[i].dq = c.dq /\ a[i].T = c.T /\ a[i].dP = c.dP /\ a[i].tau = c.tau
                                                  /\ a[i].el = IF c.ve = 1 THEN c.el ELSE <<>>
       /\ Plain => /\ a[i].v = IF call.op = "tau" THEN "0" ELSE Str(b[i].v)
                   /\ a[i].t = IF External(call.op) /\ b[i].t # -1 THEN Str(b[i].t) ELSE "0"

GStateMatch(e, s) == e.mid = s.mid /\ e.width = s.width /\ e.maxw = s.maxw /\ e.grasped = s.grasped /\ e.temp = s.temp
WallMatch(e, w) ==
  /\ Str(e.id) = call.args[1]
  /\ e.w = [i \in 1..19 |-> Str(w * 100 + i - 1)]
  /\ e.active = (w % 2 = 1)
ErrMatch(e) ==
  /\ e.k = res.k
  /\ (ChkWhy /\ res.k \in {"command", "control"} => e.why = res.why)
  /\ (ChkErrs /\ res.k = "control" => Range(e.errs) = Range(res.errs))
  /\ (ChkLog /\ res.k = "control" => LogMatch(e.log, res.log))
  /\ (res.k = "incompat" => e.sv = res.aux[1] /\ e.lv = res.aux[2])
FileMatch(e) == e.left = 0 /\ e.exists = (file # 0) /\ (file # 0 => e.hash = file)
TRet == /\ Is("ret") /\ CRet /\ Adv
        /\ E.r = res.r
        /\ (res.r = "err" /\ ChkKind => ErrMatch(E))
        /\ (res.r = "ver" => E.ver = res.aux[1])
        /\ (res.r = "state" => E.mid = res.aux[1].mid)
        /\ (res.r = "state" /\ ChkSample => E.c = Sample(res.aux[1].tag))
        /\ (res.r = "gstate" => GStateMatch(E, res.aux[1]))
        /\ (res.r = "wall" => WallMatch(E, res.aux[1]))
        /\ (call.op = "load_model" => FileMatch(E))
TDlopen == /\ Is("dlopen") /\ Adv
           /\ E.hash = file
           /\ \E good \in BOOLEAN : CDlopen(good)
(* a series of commands: every one succeeded, with one request each, numbered without gaps *)
TSeries == /\ Is("warm") /\ Series(E.n) /\ Adv
           /\ E.ok = E.n /\ E.reqs = E.n /\ E.first = cl.nextId /\ E.last = cl.nextId + E.n - 1 /\ E.gaps = 0 /\ E.odd = 0
TPanic == Is("panic") /\ CPanic /\ Adv
TRt == Is("rt") /\ CRt(E.f, E.a, E.b, E.r) /\ Adv

(* the environment acts only when the client cannot go on by itself *)
Waiting == ~CanStep
(* replies that travel in one segment arrive together *)
Joined == Is("resp") /\ Get(E, "join", FALSE)
TResp == Is("resp") /\ (Waiting \/ Joined) /\ EResp([cmd |-> E.cmd, id |-> E.id, st |-> E.st, ver |-> Get(E, "ver", 0),
                                         wall |-> Get(E, "wall", 0), lib |-> Get(E, "lib", 0)]) /\ Adv
TState == Is("state") /\ Waiting /\ EDatagram(E) /\ Adv
TJunk == Is("junk") /\ Waiting /\ EDatagram([junk |-> TRUE]) /\ Adv
TSilence == Is("silence") /\ Waiting /\ ESilence /\ Adv
TClose == Is("close") /\ Waiting /\ EClose /\ Adv
TPrep == /\ Is("prep") /\ Waiting /\ Adv
         /\ file' = IF E.exists THEN E.hash ELSE 0
         /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, udpq, conn, rtenv>>
TDisk == /\ Is("disk") /\ Waiting /\ Adv
         /\ rtenv' = [disk |-> E.bad] @@ rtenv
         /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, udpq, conn, file>>
TNoop == (Is("seg") \/ Is("intr") \/ Is("pause") \/ Is("nosend") \/ Is("shortw") \/ Is("dead") \/ Is("skip")) /\ Adv /\ UNCHANGED vars
(* there is no object to call after a failed connect *)
TNoDev == Is("nodev") /\ pc = "idle" /\ res.r = "err" /\ Adv /\ UNCHANGED vars
(* the script ended while the client was rightly waiting *)
TBlocked ==
  /\ Is("blocked") /\ Waiting /\ Adv
  /\ E.why \in {"end", "desync"}
  /\ \/ E.on = "tcp" /\ pc \in {"wait", "errwait", "finwait"} /\ conn
     \/ E.on = "udp" /\ pc \in {"recv", "first"} /\ udpq = <<>>
  /\ pc' = "end" /\ UNCHANGED <<dev, call, res, cl, tcpq, udpq, conn, file, rtenv>>

TSilent == ~Joined /\ (Silent \/ (pc = "rt" /\ RtDecide) \/ (pc = "send" /\ SendFails)) /\ UNCHANGED <<tr, l>>
TDone == /\ l = Len(Tr.ev) + 1 /\ Waiting
         /\ pc \in {"idle", "end"}
         /\ PrintT(<<"DONE", tr>>)
         /\ l' = l + 1 /\ tr' = tr /\ UNCHANGED vars

TNext == TCall \/ TCbRet \/ TReq \/ TSendFail \/ TCb \/ TCmd \/ TCmdFails \/ TRet \/ TDlopen \/ TSeries \/ TPanic \/ TRt
         \/ TResp \/ TState \/ TJunk \/ TSilence \/ TClose \/ TPrep \/ TDisk \/ TNoop \/ TNoDev \/ TBlocked \/ TSilent \/ TDone
Show == Verbose => PrintT(<<"AT", tr, l, pc, cl.pur, cl.rk, res.r, res.k, res.why>>)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
