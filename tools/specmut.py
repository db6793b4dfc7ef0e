#!/usr/bin/env python3
"""Sanity of the model itself: break FrankaClient in ways that break a property and see FrankaMC notice it.
Usage: specmut.py   (not part of the registered checks; a guard against vacuous invariants)"""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [  # scope, property expected in gh.bad (or LIVE), old, new
 ("robotcmd", "C04", "FirstReply(i) == CHOOSE n \\in RepliesTo(i) : \\A m \\in RepliesTo(i) : n <= m", "FirstReply(i) == 1"),
 ("gripper", "C01", "Outcome(dev, m.cmd, m.st) IN", "Outcome(dev, 1, (m.st + 1) % 4) IN"),
 ("motion", "C03", "/\\ pc' = \"wait\" /\\ cl' = [cl EXCEPT !.nextId = @ + 1]", "/\\ pc' = \"wait\" /\\ cl' = [cl EXCEPT !.nextId = IF cl.pur = \"stop\" THEN @ ELSE @ + (IF cl.pur = \"move\" THEN 2 ELSE 1)]"),
 ("robotcmd", "C04", "IF m.st # 0 THEN /\\ res' = [Err(\"incompat\"", "IF m.st > 5 THEN /\\ res' = [Err(\"incompat\""),
 ("robotcmd", "C05", "ELSE IF InMotion THEN Cancel(NetErr)", "ELSE IF InMotion THEN Cancel(NetErr)"),
 ("read", "C06", "udpq[n].mid > cl.last}", "udpq[n].mid >= cl.last}"),
 ("read", "C07", "Freshest == CHOOSE n \\in Newer : \\A m \\in Newer : udpq[m].mid < udpq[n].mid", "Freshest == CHOOSE n \\in Newer : \\A m \\in Newer : udpq[m].mid > udpq[n].mid"),
 ("read", "C07", "op = \"read_once\" THEN pc' = \"drain\"", "op = \"read_once\" THEN pc' = \"recv\""),
 ("motion", "C09", "/\\ IF Running THEN Finish(Err(\"control\", \"multiple\"))", "/\\ IF FALSE THEN Finish(Err(\"control\", \"multiple\"))"),
 ("motion", "C09", "\\/ /\\ ModesReached\n        /\\ pc' = \"recv\" /\\ cl' = [cl EXCEPT !.rk = \"run0\"", "\\/ /\\ TRUE\n        /\\ pc' = \"recv\" /\\ cl' = [cl EXCEPT !.rk = \"run0\""),
 ("motion", "C12", "IF cl.stt.rm # RmMove \\/ ~ModesReached", "IF ~ModesReached"),
 ("motion", "C12", "Cancel(e) == /\\ res' = e /\\ pc' = \"send\" /\\ cl' = [cl EXCEPT !.pur = \"stop\"]", "Cancel(e) == /\\ res' = e /\\ pc' = \"ret\" /\\ UNCHANGED cl"),
 ("motion", "C10", "dt |-> IF cl.first THEN 0 ELSE cl.stt.mid - cl.prev]", "dt |-> IF cl.first THEN 0 ELSE 1]"),
 ("motion", "C10", "CmdObs == [mid |-> cl.stt.mid,", "CmdObs == [mid |-> cl.prev,"),
 ("motion", "C11", "/\\ IF MoveAccepted(m.st) THEN pc' = \"ret\" /\\ res' = Ok(\"ok\")", "/\\ IF TRUE THEN pc' = \"ret\" /\\ res' = Ok(\"ok\")"),
 ("motion", "C11", "pc' = IF Running THEN \"cmd\" ELSE \"finwait\"", "pc' = \"finwait\""),
 ("motion", "C11", "!.rk = IF cl.fin THEN \"fin\" ELSE \"run\"]", "!.rk = \"run\"]"),
 ("log", "C13", "IF Len(l) > cl.logSize THEN SubSeq(l, Len(l) - cl.logSize + 1, Len(l)) ELSE l", "IF Len(l) > cl.logSize THEN SubSeq(l, 1, cl.logSize) ELSE l"),
 ("log", "C13", "!.rk = \"run0\", !.log = <<>>]", "!.rk = \"run0\"]"),
 ("model", "C21", "file' = IF cl.down /\\ ~Get(call, \"persistent\", FALSE) THEN 0 ELSE file", "file' = file"),
 ("model", "C21", "pc' = IF file = 0 THEN \"send\" ELSE \"dlopen\"", "pc' = \"send\""),
 ("rt", "C22", "pc' = IF cl.enforce THEN \"rt\" ELSE \"guard\"", "pc' = \"guard\""),
 ("robotcmd", "LIVE", "/\\ pc = \"wait\" /\\ ~HasReply(MyId) /\\ ~conn", "/\\ pc = \"wait\" /\\ ~HasReply(MyId) /\\ ~conn /\\ cl.pur # \"cmd\""),
]
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for i, (scope, want, old, new) in enumerate(M):
    if old == new: continue
    d = tempfile.mkdtemp(prefix="specmut")
    for f in os.listdir(V + "/spec"):
        if f.endswith((".tla", ".cfg")): shutil.copy(V + "/spec/" + f, d)
    s = open(d + "/FrankaClient.tla").read()
    assert s.count(old) == 1, (scope, old, s.count(old))
    open(d + "/FrankaClient.tla", "w").write(s.replace(old, new))
    cfg = "FrankaLive.cfg" if want == "LIVE" else "FrankaMC.cfg"
    p = subprocess.run(["java", "-Xmx4g", "-Xss32m", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d + "/m", "-workers", "4", "-config", cfg, "FrankaMC.tla"],
                       cwd=d, env=dict(os.environ, SCOPE=scope, DEEP=os.environ.get("DEEP", "0")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    got = set(re.findall(r'bad \|-> \{([^}]*)\}', p.stdout)) - {""}
    live = "Stuttering" in p.stdout or "Back to state" in p.stdout
    ok = live if want == "LIVE" else any(want in g for g in got)
    bad += not ok
    print(i, scope, want, "caught" if ok else "NOT CAUGHT", got, "" if ok else p.stdout[-300:], flush=True)
    shutil.rmtree(d)
sys.exit(1 if bad else 0)
