import sys, os, subprocess, shutil, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from concurrent.futures import ThreadPoolExecutor
for m in sys.argv[1].split(","): importlib.import_module(m)
ids = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] != "all" else list(lib.R)
test = "test" in sys.argv
props = [a for a in sys.argv[3:] if a.startswith("C")]
def sh(c, t=900): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
import json
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(id):
    w = "/tmp/refw/" + id; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/refw", exist_ok=True)
    sh("cp -a /repo " + w); lib.apply(id, w)
    out = []
    if test:
        sh(f"unshare -Urm bash -c 'mount --bind {w} /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/refw/{id}.json'")
        try: miss = base - set(json.load(open(f"/tmp/refw/{id}.json"))["passed"])
        except Exception as e: miss = {repr(e)}
        if miss: out.append("TESTS FAIL %d %s" % (len(miss), sorted(miss)[:3]))
    for p in props or lib.R[id][1]:
        r = sh(f"cd /verif && CCBLADE_REPO={w} SA_JOBS=2 timeout 880 python3-vt sa/run.py {p} --tier quick > /tmp/refw/{id}-{p}.log 2>&1")
        if r.returncode:
            t = open(f"/tmp/refw/{id}-{p}.log").read().strip().split("\n")
            out.append("%s rc=%d: %s" % (p, r.returncode, " / ".join(x[:260] for x in t[-1:] + [x for x in t if x.startswith("  C")][:2])))
    shutil.rmtree(w, ignore_errors=True)
    return id, out
with ThreadPoolExecutor(4) as ex:
    for id, out in ex.map(one, ids):
        print(id, "OK" if not out else "\n   " + "\n   ".join(out), flush=True)
