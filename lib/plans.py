"""Which models and scenario families decide which property."""
import vf


def fam(name, nq, nt, simq=0, simt=0, **kw):
    """family step: replay nq (quick) or nt (thorough) scripts"""
    def step(ctx, binary):
        q = ctx.quick()
        vf.family(ctx, binary, name, nq if q else nt, sim=simq if q else simt, **kw)
    step.label = name
    return step


def model(module, cfgq, cfgt=None, **kw):
    def step(ctx, binary):
        cfg = cfgq if ctx.quick() else (cfgt or cfgq)
        vf.model_check(module, cfg, ctx.stats, "%s_%s" % (ctx.pid, module), **kw)
    step.label = module
    return step


def mc(scope, cfg="FrankaMC.cfg", deep=True):
    """all interleavings of client, network, device and user in one scope of FrankaMC"""
    def step(ctx, binary):
        d = "0" if ctx.quick() or not deep else "1"
        vf.model_check("FrankaMC", cfg, ctx.stats, "%s_mc_%s" % (ctx.pid, scope), env={"SCOPE": scope, "DEEP": d}, timeout=3600)
    step.label = "FrankaMC:" + scope
    return step


def mg(name, nq, nt):
    return fam(name, nq, nt, nq, nt, gen="MgGen", module="MgTrace", depth=10)


def mq(name, nq, nt):
    return fam(name, nq, nt, nq, nt, gen="ModelGen", module="ModelTrace", depth=10)


def mopen(ctx, binary):
    vf.broken_models()
    vf.family(ctx, binary, "mopen", 100, gen="ModelGen", module="ModelTrace")


mopen.label = "mopen"


def num(name, nq, nt):
    """numeric scenarios drawn by NumGen, judged by NumTrace"""
    return fam(name, nq, nt, nq, nt, gen="NumGen", module="NumTrace", depth=120)


def dec(name, nq, nt):
    return fam(name, nq, nt, nq, nt, gen="StateGen", module="StateTrace", depth=10)


ASSUME = ["one client thread; scripted device on loopback; virtual time for timeouts"]
MC = "model_checking"
PLANS = {
    "C01": {"level": MC, "steps": [mc("robotcmd"), mc("gripper"), fam("late", 300, 594), fam("glate", 132, 132), fam("series", 24, 800), fam("gseries", 24, 800), fam("args", 150, 900), fam("segmove", 200, 3000), fam("cmd", 1500, 20000), fam("gcmd", 1000, 20000), fam("soup", 500, 6000, 700, 8000), fam("gsoup", 300, 4000, 400, 5000)]},
    "C02": {"level": MC, "steps": [fam("seg", 800, 4000), fam("segmove", 800, 12000), fam("gseg", 800, 12000), fam("segmodel", 244, 244), fam("segbig", 160, 587), fam("soupseg", 300, 3000, 400, 4000)]},
    "C03": {"level": MC, "steps": [mc("motion"), fam("series", 40, 800), fam("gseries", 24, 800), fam("args", 900, 900), fam("gargs", 150, 150), fam("abort", 300, 4732), fam("shortw", 250, 3000), fam("gshortw", 100, 1500), fam("cmd", 1500, 20000), fam("gcmd", 800, 20000), fam("soup", 800, 6000, 1000, 8000), fam("gsoup", 400, 4000, 500, 5000)]},
    "C04": {"level": MC, "steps": [mc("robotcmd"), fam("connect", 2000, 9736), fam("gconnect", 1600, 1600)]},
    "C05": {"level": MC, "steps": [mc("robotcmd", "FrankaLive.cfg", deep=False), mc("read", "FrankaLive.cfg", deep=False), mc("motion", "FrankaLive.cfg", deep=False), fam("late", 594, 594), fam("faultcmd", 1200, 6727), fam("gfault", 800, 6000), fam("fault", 1200, 4206), fam("fault2", 1000, 5262), fam("again", 500, 6000), fam("cutcmd", 300, 4000), fam("gcut", 150, 1500), fam("intr", 400, 6000), fam("gintr", 100, 1500), fam("reset", 100, 1000), fam("nosend", 300, 4000), fam("pause", 300, 4000), fam("gpause", 120, 353), fam("unreach", 9, 9), fam("connect", 3, 12, set={"nolisten": True}), fam("gconnect", 3, 12, set={"nolisten": True}), fam("soupfault", 500, 5000, 700, 6000)]},
    "C06": {"level": MC, "steps": [mc("read"), fam("longread", 1, 2, 1, 2, depth=20000), fam("flood", 300, 6000, 400, 8000), fam("readmodes", 300, 6000, 400, 8000), fam("read", 1500, 9000), fam("stream", 1500, 20000), fam("streamsim", 600, 6000, 800, 8000)]},
    "C07": {"level": MC, "steps": [mc("read"), fam("read", 1500, 9000), fam("stream", 1500, 20000), fam("streamsim", 600, 6000, 800, 8000), fam("gread", 800, 10000), fam("flood", 300, 6000, 400, 8000), fam("gflood", 300, 5000)]},
    "C08": {"level": MC, "steps": [dec("decode", 1500, 20000), dec("gdecode", 600, 8000)]},
    "C09": {"level": MC, "steps": [mc("motion"), fam("slowstart", 6, 60, 6, 60, depth=20000), fam("start", 1500, 13000), fam("startwait", 1000, 12000), fam("busy", 400, 400), fam("soup", 300, 5000, 400, 6000)]},
    "C10": {"level": MC, "steps": [mc("motion"), fam("longrun", 1, 2, 1, 2, depth=20000), fam("run", 1500, 20000), fam("runcfg", 500, 6000, 600, 8000), fam("runsim", 500, 5000, 600, 6000), fam("abortsim", 300, 3000, 400, 4000)]},
    "C11": {"level": MC, "steps": [mc("motion"), fam("late", 300, 594), fam("slowstop", 8, 80, 8, 80, depth=20000), fam("finish", 1500, 3572), fam("run", 1000, 10000), fam("runsim", 500, 5000, 600, 6000)]},
    "C12": {"level": MC, "steps": [mc("motion"), fam("late", 300, 594), fam("slowrest", 8, 80, 8, 80, depth=20000), fam("abort", 1500, 4732), fam("again", 500, 6000), fam("nosend", 300, 4000), fam("abortsim", 700, 6000, 900, 8000)]},
    "C13": {"level": MC, "steps": [mc("log"), fam("log", 1200, 2640), fam("logsim", 500, 5000, 700, 6000), fam("logcfg", 250, 4000, 300, 5000, set={"full": True}), fam("logbig", 1, 1, 1, 1, depth=20000), fam("logdefault", 40, 300, 60, 400, depth=1500)]},
    "C14": {"level": MC, "steps": [num("bad", 2500, 30000)]},
    "C15": {"level": MC, "steps": [fam("pass", 2500, 4518, set={"full": True}), fam("runsim", 300, 3000, 400, 4000, set={"full": True}), num("exact", 500, 10000)]},
    "C16": {"level": MC, "steps": [num("joint", 900, 12000), num("jointf", 300, 4000), num("closedj", 300, 5000), num("closedjf", 150, 2500)]},
    "C17": {"level": MC, "steps": [num("cart", 900, 12000), num("cartf", 300, 4000), num("closedc", 200, 4000), num("closedcf", 100, 2000)]},
    "C18": {"level": MC, "steps": [num("filter", 1200, 16000), num("refuse", 200, 2000), num("lpf", 60, 1500), num("clpf", 60, 1500)]},
    "C19": {"level": MC, "steps": [mg("mgen", 1200, 20000), mg("jmotion", 80, 1200)]},
    "C20": {"level": MC, "steps": [mq("mq", 250, 5000), mopen]},
    "C21": {"level": MC, "steps": [mc("model"), fam("model", 242, 242), fam("modeldisk", 1200, 3420)]},
    "C23": {"level": MC, "steps": [num("conv", 150, 4000), num("exact", 150, 3000)]},
    "C22": {"level": MC, "steps": [mc("rt"), fam("rt", 624, 624), fam("rtall", 800, 2600)]},
}
NA = {}
