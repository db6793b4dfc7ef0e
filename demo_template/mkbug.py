"""mkbug.py ID: plant the bug described in /tmp/bugs/ID (edit.json, main.rs) in a scratch copy, confirm it, keep it in seeded/.
edit.json: {"property","needs","what_it_breaks","edits":[[file, old, new],...]}"""
import json, os, shutil, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
REPO = "/repo"
bid = sys.argv[1]
src = "/tmp/bugs/" + bid
m = json.load(open(src + "/edit.json"))
d = "/tmp/mkbug"
shutil.rmtree(d, ignore_errors=True)
subprocess.check_call(["cp", "-a", REPO, d])
for f, old, new in m["edits"]:
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit("%s: pattern occurs %d times in %s" % (bid, s.count(old), f))
    open(p, "w").write(s.replace(old, new))
patch = subprocess.check_output(["git", "-C", d, "diff"], text=True)
out = os.path.join(V, "seeded", bid)
shutil.rmtree(out, ignore_errors=True)
shutil.copytree(os.path.join(T, "demo"), out + "/demo", ignore=shutil.ignore_patterns("target"))
shutil.copy(T + "/demo.sh", out)
shutil.copy(src + "/main.rs", out + "/demo/src/main.rs")
open(out + "/patch.diff", "w").write(patch)
json.dump({k: m[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
def sh(*c, cwd):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
r = sh("cargo", "test", "--offline", "--workspace", "--all-features", "-q", "--", "--test-threads", "1", "--skip", "gripper::tests::", cwd=d)
tests = [l for l in r.stdout.splitlines() if "test result" in l or "FAILED" in l or "error" in l]
g = sh("bash", out + "/demo.sh", cwd=REPO)
b = sh("bash", out + "/demo.sh", cwd=d)
print(bid, "| tests:", r.returncode, tests[:3], "| demo clean:", g.returncode, g.stdout.strip()[-300:], "| demo bug:", b.returncode, b.stdout.strip()[-300:])
shutil.rmtree(d)
if r.returncode or g.returncode or not b.returncode:
    shutil.rmtree(out)
    sys.exit("NOT KEPT")
