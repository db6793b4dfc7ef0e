"""check.py <property> quick|thorough: decide one property on /repo's working tree."""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from plans import PLANS


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLANS[pid]
    ctx = vf.Ctx(pid, tier, seed)
    try:
        binary = vf.build()
        ctx.note("build", t0)
        for step in plan["steps"]:
            t = time.time()
            step(ctx, binary)
            ctx.note(getattr(step, "label", "step"), t)
            if ctx.violations:  # decided; code that breaks a property can also be slow to explore further
                break
    except vf.ToolError as x:
        print("TOOL ERROR: %s" % x, file=sys.stderr)
        if not ctx.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
    rc = 0
    for v in ctx.violations[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        rc = 1
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": plan["level"],
        "coverage": {
            "states": ctx.stats["states"], "transitions": ctx.stats["transitions"],
            "traces_validated_against_impl": ctx.stats["traces"], "samples": ctx.stats["samples"],
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": plan.get("assumptions", []),
        "violations": len(ctx.violations),
    }
    ev["coverage"]["detail"] = {"models": ctx.stats["models"], "families": ctx.stats["families"], "timing": ctx.timing}
    os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vf.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if rc == 0:
        print("OK property=%s tier=%s traces=%d states=%d %.0fs" % (pid, tier, ctx.stats["traces"], ctx.stats["states"], time.time() - t0))
    return rc


sys.exit(main())
