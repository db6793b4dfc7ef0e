------------------------------ MODULE FrankaGen ------------------------------
(* Test generation: FrankaClient with an eager client.  The environment and    *)
(* the user act only where the real harness lets them act (client waiting, in  *)
(* a callback, or idle); what they do is recorded as a script, printed as JSON *)
(* when the calls of the family are used up.  Run breadth-first for all        *)
(* scripts within the budgets, or with -simulate for long random ones.         *)
EXTENDS FrankaClient, FrankaFamilies, Json, IOUtils

F == Family(IOEnv.FAM)

VARIABLES
  script,  \* the recorded environment and user steps
  out,     \* reply bytes the device has produced but the network not delivered: <<[m, left]>>
  g        \* budgets and counters
gvars == <<dev, pc, call, res, cl, tcpq, udpq, conn, file, rtenv, script, out, g>>

GInit ==
  /\ dev = F.dev
  /\ pc = "idle" /\ call = NoCall /\ res = NoRes
  /\ cl = InitClient(dev)
  /\ tcpq = <<>> /\ udpq = <<>> /\ conn = TRUE /\ file = 0
  /\ rtenv \in F.rt
  /\ script = <<>> /\ out = <<>>
  /\ g = [n |-> 0,          \* datagrams sent
          top |-> 0,        \* highest message id used
          calls |-> 0,      \* calls started
          ex |-> F.ex,      \* extra (unneeded) environment steps left
          nr |-> F.nr,      \* "not yet" states left
          cb |-> 0,         \* callbacks of this motion
          val |-> 0,        \* last value a callback returned
          mode |-> IdleMode, \* what the robot last reported
          cut |-> F.cut, dead |-> FALSE, over |-> FALSE,
          nosend |-> FALSE,  \* the next command cannot be sent
          quiet |-> FALSE]   \* the states paused since the last one

Rec(s) == script' = Append(script, s)
NoG == UNCHANGED <<script, out, g>>

EagerEnabled == CanStep \/ pc \in {"send", "cb", "cmd", "ret", "panic", "dlopen", "rt"}
AtPoint == ~EagerEnabled /\ ~g.over /\ pc \in {"wait", "errwait", "finwait", "recv", "first", "incb", "idle"}
RtAll == /\ pc = "rt"
         /\ UNCHANGED <<dev, call, tcpq, udpq, conn, file, rtenv, cl>>
         /\ IF rtenv.kernel /\ rtenv.priomax # -1 /\ rtenv.setsched = 0 /\ rtenv.mlockall = 0
            THEN pc' = "guard" /\ UNCHANGED res
            ELSE pc' = "ret" /\ res' = Err("realtime", "")
(* client: everything it can do without the environment or the user *)
Eager == /\ ~g.over
         /\ \/ Silent
            \/ CReq \/ CCb \/ CRet \/ CPanic \/ CDlopen(TRUE)
            \/ ~g.nosend /\ CCmd
            \/ g.nosend /\ CCmdFails
            \/ RtAll
         /\ UNCHANGED <<script, out>>
         /\ g' = IF pc = "cmd" THEN [g EXCEPT !.nosend = FALSE] ELSE g

(* ---- environment --------------------------------------------------------- *)
Modes == IF pc = "first" THEN F.first
         ELSE CASE cl.rk = "start" /\ F.slow = "start" /\ g.nr > 0 -> {m \in StartModes(cl.wmg, cl.wcm) : m.need = 1}
                [] cl.rk \in {"fin", "rest"} /\ F.slow = "end" /\ g.nr > 0 -> {[m EXCEPT !.need = 1] : m \in BusyModes(cl.wmg, cl.wcm)}
                [] cl.rk = "start" -> {[mg |-> cl.wmg, cm |-> cl.wcm, rm |-> RmMove, refl |-> <<>>, need |-> 0]}
                                      \union (IF g.nr > 0 /\ F.slow # "end" THEN StartModes(cl.wmg, cl.wcm) ELSE {})
                [] cl.rk \in {"run0", "run"} -> {[mg |-> cl.wmg, cm |-> cl.wcm, rm |-> RmMove, refl |-> <<>>, need |-> 0]}
                                      \union AbortSet(F.abort, cl.wmg, cl.wcm)
                [] cl.rk \in {"fin", "rest"} -> StopModes \union (IF F.abort = "all" THEN {[IdleMode EXCEPT !.rm = 0]} ELSE {}) \union (IF g.nr > 0 THEN {[m EXCEPT !.need = 1] : m \in BusyModes(cl.wmg, cl.wcm)} ELSE {})
                [] OTHER -> F.idle

DoState(mid, m) ==
  LET s == [mid |-> mid, tag |-> g.n + 1, mg |-> m.mg, cm |-> m.cm, rm |-> m.rm, err |-> <<>>, refl |-> m.refl] IN
  /\ EDatagram(s) /\ UNCHANGED out
  /\ Rec([a |-> "state", mid |-> mid, tag |-> g.n + 1, mg |-> m.mg, cm |-> m.cm, rm |-> m.rm, refl |-> m.refl])

GSt(mid, n) == [mid |-> mid, width |-> Str(n * 10 + 1), maxw |-> Str(n * 10 + 2), grasped |-> (n % 2 = 1), temp |-> n + 20]
GSc(mid, n) == [a |-> "state", mid |-> mid, width |-> n * 10 + 1, maxw |-> n * 10 + 2, grasped |-> (n % 2 = 1), temp |-> n + 20]
DoGState(mid) ==
  /\ EDatagram(GSt(mid, g.n)) /\ UNCHANGED out
  /\ Rec(GSc(mid, g.n))

(* the state the client is waiting for *)
GState ==
  /\ pc \in {"recv", "first"} /\ udpq = <<>> /\ ~g.dead
  /\ \E gap \in F.gaps :
       IF dev = "gripper"
       THEN DoGState(g.top + gap) /\ g' = [g EXCEPT !.n = @ + 1, !.top = @ + gap, !.quiet = FALSE]
       ELSE \E m \in Modes :
              DoState(g.top + gap, m)
              /\ g' = [g EXCEPT !.n = @ + 1, !.top = @ + gap, !.nr = @ - m.need, !.mode = m, !.quiet = FALSE]

(* length of a reply in bytes *)
MsgLen(m, pad) == HeaderLen(dev) + (IF dev = "robot" THEN 1 ELSE 2) + (IF m.cmd = 0 THEN 2 ELSE 0)
             + (IF dev = "robot" /\ m.cmd = 3 THEN 153 ELSE 0) + pad
(* the device sends a reply: delivered at once, or byte by byte later if the family segments *)
Put(m, s, pad) ==
  IF F.seg THEN /\ Rec(s @@ [hold |-> TRUE])
                /\ out' = Append(out, [m |-> m, left |-> MsgLen(m, pad)])
                /\ conn /\ UNCHANGED vars
  ELSE EResp(m) /\ Rec(s) /\ UNCHANGED out
RespTo(i, cmd, st) ==
  LET m == [cmd |-> cmd, id |-> i, st |-> st, ver |-> 0, wall |-> 0, lib |-> 0]
      s == [a |-> "resp", cmd |-> cmd, id |-> i, st |-> st] IN
  IF cmd = 0 THEN \E v \in F.vers : Put([m EXCEPT !.ver = v], s @@ [ver |-> v], 0)
  ELSE IF cmd = 3 /\ dev = "robot" THEN \E w \in {g.n + 3, g.n + 4} : Put([m EXCEPT !.wall = w], s @@ [wall |-> w], 0)
  ELSE IF cmd = 13 /\ st = 0 THEN \E b \in F.libs : Put([m EXCEPT !.lib = 1], s @@ b, b.pad)
  ELSE Put(m, s, 0)
Coming(i) == HasReply(i) \/ \E n \in DOMAIN out : out[n].m.id = i

(* the network delivers the next n bytes *)
RECURSIVE Total(_)
Total(o) == IF o = <<>> THEN 0 ELSE o[1].left + Total(Tail(o))
RECURSIVE Cut(_, _, _)
Cut(o, n, done) == IF o = <<>> \/ n = 0 THEN [o |-> o, done |-> done]
                   ELSE IF o[1].left <= n THEN Cut(Tail(o), n - o[1].left, Append(done, o[1].m))
                   ELSE [o |-> <<[o[1] EXCEPT !.left = @ - n]>> \o Tail(o), done |-> done]
Cuts == LET t == Total(out)  f == out[1].left  h == HeaderLen(dev)
        IN {n \in ({1, h - 1, h, h + 1, f - 1, f, f + 1, f + h, t - 1, t} \union F.cuts) : n >= 1 /\ n <= t}
GFlush ==
  /\ out # <<>> /\ AtPoint
  /\ \E n \in (IF g.cut > 0 THEN Cuts ELSE {Total(out)}) :
       LET c == Cut(out, n, <<>>) IN
       /\ Rec([a |-> "flush", n |-> n])
       /\ out' = c.o /\ tcpq' = tcpq \o c.done
       /\ g' = [g EXCEPT !.cut = IF @ > 0 THEN @ - 1 ELSE 0]
  /\ UNCHANGED <<dev, pc, call, res, cl, udpq, conn, file, rtenv>>

(* the reply the client is waiting for *)
GResp ==
  /\ conn
  /\ \/ /\ pc = "wait" /\ ~Coming(MyId)
        /\ \E st \in F.st[cl.pur] \intersect StatusSet(dev, ReqCmd) : RespTo(MyId, ReqCmd, st)
     \/ /\ pc = "errwait" /\ ~Coming(cl.moveId)
        /\ \E st \in F.abortSt : RespTo(cl.moveId, 1, st)
     \/ /\ pc = "finwait" /\ ~Coming(cl.moveId)
        /\ \E st \in F.finSt : RespTo(cl.moveId, 1, st)
  /\ UNCHANGED g

(* things nobody waits for *)
UdpOpen == cl.nextId > 0 /\ ~g.dead /\ (pc # "idle" \/ cl.up)
GExtra ==
  /\ AtPoint /\ g.ex > 0
  /\ \/ /\ "newer" \in F.extra /\ UdpOpen
        /\ \E gap \in F.gaps :
             /\ IF dev = "gripper" THEN DoGState(g.top + gap) ELSE DoState(g.top + gap, g.mode)
             /\ g' = [g EXCEPT !.ex = @ - 1, !.n = @ + 1, !.top = @ + gap]
     \/ /\ "stale" \in F.extra /\ UdpOpen /\ g.top > 0
        /\ \E back \in F.back :
             /\ back < g.top
             /\ IF dev = "gripper" THEN DoGState(g.top - back) ELSE DoState(g.top - back, g.mode)
             /\ g' = [g EXCEPT !.ex = @ - 1, !.n = @ + 1]
     \/ /\ "stalemode" \in F.extra /\ UdpOpen /\ g.top > 1 /\ dev = "robot"
        /\ \E m \in OldModes :
             /\ DoState(g.top, m)
             /\ g' = [g EXCEPT !.ex = @ - 1, !.n = @ + 1]
     \* many states pile up
     \/ /\ "burst" \in F.extra /\ UdpOpen /\ pc \notin {"recv", "first"}
        /\ \E k \in {n \in F.burst : Len(udpq) + n <= 400} :
             LET st(i) == IF dev = "gripper" THEN GSt(g.top + i, g.n + i - 1)
                          ELSE [mid |-> g.top + i, tag |-> g.n + i, mg |-> g.mode.mg, cm |-> g.mode.cm, rm |-> g.mode.rm, err |-> <<>>, refl |-> g.mode.refl]
                 sc(i) == IF dev = "gripper" THEN GSc(g.top + i, g.n + i - 1)
                          ELSE [a |-> "state", mid |-> g.top + i, tag |-> g.n + i, mg |-> g.mode.mg, cm |-> g.mode.cm, rm |-> g.mode.rm, refl |-> g.mode.refl] IN
             /\ udpq' = udpq \o [i \in 1..k |-> st(i)]
             /\ script' = script \o [i \in 1..k |-> sc(i)]
             /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, conn, file, rtenv, out>>
             /\ g' = [g EXCEPT !.ex = @ - 1, !.n = @ + k, !.top = @ + k]
     \/ /\ "junk" \in F.extra /\ UdpOpen
        /\ \E n \in F.junk : EDatagram([junk |-> TRUE]) /\ UNCHANGED out /\ Rec([a |-> "junk", n |-> n])
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \/ /\ "foreign" \in F.extra /\ conn /\ cl.nextId > 0 /\ Len(tcpq) < 4
        /\ \E i \in {900 + Len(script)} \union (IF pc = "wait" THEN 0..(MyId - 1) ELSE {}) :
           \E st \in F.foreignSt :
             /\ i # cl.moveId \/ cl.moveId = 0
             /\ LET c == IF dev = "gripper" THEN 1 ELSE 5 IN
                Put([cmd |-> c, id |-> i, st |-> st, ver |-> 0, wall |-> 0, lib |-> 0],
                    [a |-> "resp", cmd |-> c, id |-> i, st |-> st], 0)
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \* a reply to a request that was not made yet (and, this being the last call, never will be)
     \/ /\ "future" \in F.extra /\ conn /\ pc = "wait" /\ cl.pur = "cmd" /\ cl.sub = 0 /\ g.calls = Len(F.calls) /\ Len(tcpq) < 4
        /\ \E i \in {MyId + 1, MyId + 2}, st \in F.foreignSt :
             LET c == IF dev = "gripper" THEN 1 ELSE 5 IN
             Put([cmd |-> c, id |-> i, st |-> st, ver |-> 0, wall |-> 0, lib |-> 0],
                 [a |-> "resp", cmd |-> c, id |-> i, st |-> st], 0)
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \/ /\ "close" \in F.extra /\ conn /\ out = <<>> /\ cl.nextId > 0
        /\ EClose /\ Rec([a |-> "close"]) /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \/ /\ "reset" \in F.extra /\ conn /\ out = <<>> /\ cl.nextId > 0
        /\ EClose /\ Rec([a |-> "reset"]) /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \* the connection breaks before all of the reply is through
     \/ /\ "cutoff" \in F.extra /\ conn /\ out # <<>> /\ out[1].left < MsgLen(out[1].m, 0)
        /\ EClose /\ (\E a \in {"close", "reset"} : Rec([a |-> a])) /\ out' = <<>>
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \/ /\ "nosend" \in F.extra /\ ~g.nosend /\ (pc = "incb" \/ (pc = "recv" /\ cl.rk \in {"run", "fin"}))
        /\ Rec([a |-> "nosend"]) /\ UNCHANGED vars /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1, !.nosend = TRUE]
     \* the socket accepts only a part of the next request
     \/ /\ "shortw" \in F.extra /\ pc \in {"idle", "recv"} /\ cl.up
        /\ \E n \in {1, 4, 11, 12, 13, 20} : Rec([a |-> "shortw", n |-> n])
        /\ UNCHANGED vars /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \* a signal interrupts the system call the client waits in
     \/ /\ "intr" \in F.extra /\ pc \in {"wait", "errwait", "finwait", "recv", "first"}
        /\ Rec([a |-> "intr"]) /\ UNCHANGED vars /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \* the states pause for less than the timeout
     \/ /\ "pause" \in F.extra /\ pc \in {"recv", "first"} /\ udpq = <<>> /\ ~g.quiet
        /\ \E n \in {1, 500, 990} : Rec([a |-> "pause", ms |-> n])
        /\ UNCHANGED vars /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1, !.quiet = TRUE]
     \* the reply takes its time (a command may last minutes)
     \/ /\ "late" \in F.extra /\ pc \in {"wait", "errwait", "finwait"} /\ ~g.quiet
        /\ \E n \in {3, 900, 1500, 61000, 125000} : Rec([a |-> "late", ms |-> n])
        /\ UNCHANGED vars /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1, !.quiet = TRUE]
     \* the disk fills up (or nothing can be created), or there is room again
     \/ /\ "disk" \in F.extra /\ pc = "idle" /\ cl.up /\ g.calls < Len(F.calls)
        /\ IF Get(rtenv, "disk", FALSE) THEN Rec([a |-> "disk"]) ELSE \E n \in {-1, 0, 100} : Rec([a |-> "disk", n |-> n])
        /\ rtenv' = [disk |-> ~Get(rtenv, "disk", FALSE)] @@ rtenv
        /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, udpq, conn, file, out>>
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \* somebody else removes the copy, or puts another one there
     \/ /\ "prep" \in F.extra /\ pc = "idle" /\ cl.up /\ g.calls < Len(F.calls)
        /\ \/ file # 0 /\ file' = 0 /\ Rec([a |-> "prep", file |-> "none"])
           \/ file' = 2 /\ \E x \in {[pad |-> 3, libfile |-> "GOOD"], [pad |-> 500]} : Rec([a |-> "prep"] @@ x)
        /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, udpq, conn, rtenv, out>>
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \* many commands in a row
     \/ /\ "series" \in F.extra /\ g.calls < Len(F.calls)
        /\ \E n \in F.series : Series(n) /\ Rec([a |-> "call", op |-> "warm", n |-> n, args |-> <<>>])
        /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \/ /\ "silence" \in F.extra /\ ESilence /\ Rec([a |-> "silence"]) /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \/ /\ "dead" \in F.extra /\ cl.nextId > 0 /\ ~g.dead
        /\ Rec([a |-> "dead"]) /\ UNCHANGED vars /\ UNCHANGED out
        /\ g' = [g EXCEPT !.ex = @ - 1, !.dead = TRUE]
     \* acceptance and verdict travel together
     \/ /\ "early" \in F.extra /\ F.seg /\ conn /\ pc = "wait" /\ cl.pur = "move" /\ Len(out) = 1 /\ out[1].m.id = MyId /\ MoveAccepted(out[1].m.st)
        /\ \E st \in F.abortSt : RespTo(MyId, 1, st)
        /\ g' = [g EXCEPT !.ex = @ - 1]
     \/ /\ "early" \in F.extra /\ conn /\ pc \in {"recv", "incb"} /\ cl.rk \in {"start", "run0", "run", "fin"}
        /\ ~Coming(cl.moveId) /\ call.op \in MotionOps
        /\ \E st \in (IF cl.rk = "fin" THEN F.finSt ELSE F.abortSt) : RespTo(cl.moveId, 1, st)
        /\ g' = [g EXCEPT !.ex = @ - 1]

(* a dead state stream: every wait for a state times out *)
GDead ==
  /\ g.dead /\ pc \in {"recv", "first"} /\ udpq = <<>>
  /\ ESilence /\ NoG

(* ---- user ------------------------------------------------------------------ *)
GCall ==
  /\ pc = "idle" /\ g.calls < Len(F.calls) /\ (g.calls = 0 \/ cl.up)
  /\ \E c \in F.calls[g.calls + 1] :
       /\ UCall(c)
       /\ Rec([a |-> "call"] @@ c)
  /\ UNCHANGED out
  /\ g' = [g EXCEPT !.calls = @ + 1, !.cb = 0, !.nr = F.nr]

CbVals == IF cl.k = "read" THEN {[a |-> "cbret", k |-> "read"]}
          ELSE IF cl.k = "ctl" THEN {[a |-> "cbret", k |-> "ctl"]}
          ELSE F.cbv
GCbRet ==
  /\ pc = "incb"
  /\ \E fin \in (IF g.cb >= F.cbMax THEN {TRUE} ELSE IF g.cb < F.cbMin THEN {FALSE} ELSE BOOLEAN), b \in CbVals :
       LET v == 100 + 10 * (g.val + 1)
           full == [vi |-> v, ti |-> v + 1000, rot |-> Get(b, "rot", 0), el |-> [i \in DOMAIN Get(b, "el", <<>>) |-> Str(Get(b, "el", <<>>)[i])],
                    bad |-> FALSE, fin |-> fin, k |-> cl.k] IN
       /\ UCbRet(full)
       /\ Rec([a |-> "cbret", v |-> v, t |-> v + 1000, fin |-> fin, rot |-> full.rot] @@ (IF full.el = <<>> THEN <<>> ELSE [el |-> full.el]))
  /\ UNCHANGED out
  /\ g' = [g EXCEPT !.cb = @ + 1, !.val = @ + 1]

(* ---- end ---------------------------------------------------------------------- *)
GEnd ==
  /\ ~g.over /\ ~EagerEnabled /\ out = <<>>
  /\ \/ pc = "idle" /\ (g.calls = Len(F.calls) \/ (g.calls > 0 /\ ~cl.up))
     \/ pc = "end"
  /\ g' = [g EXCEPT !.over = TRUE]
  /\ PrintT("SCRIPT " \o ToJson([dev |-> dev, fam |-> F.name, rt |-> rtenv, steps |-> script]))
  /\ UNCHANGED <<dev, pc, call, res, cl, tcpq, udpq, conn, file, rtenv, script, out>>

GNext == IF EagerEnabled THEN Eager
         ELSE GState \/ GResp \/ GFlush \/ GExtra \/ GDead \/ GCall \/ GCbRet \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
