#!/usr/bin/env python3
"""How sharp are the monitors? usage: tight.py WORK [P01 ...]   (uses the objects a previous mutate.py left in WORK)
Prints, per monitor that compares numbers, the largest fraction of the tolerance used on the unchanged tree and how
often the tolerance was below 1e-3 and 1e-6 of the compared value."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("LN_REPO", "/tmp/w/repo")
import run as R
from config import PROPS
W = sys.argv[1]; FL = R.FLAVOURS["asan"]
PR = sys.argv[2:] or [p for p in PROPS if not PROPS[p].get("capi")]
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def one(p):
    b = "%s/tight%s" % (W, p)
    r = sh([FL["cxx"]] + R.BASE + FL["flags"] + ["-DTIGHT", "-I" + HERE + "/harness", "%s/harness/%s.cpp" % (HERE, p), "-o", b] + FL["link"] + ["-L" + W + "/base", "-lLN", "-lpthread"])
    if r.returncode: return p, r.stdout[:2000]
    env = dict(os.environ); env.update(R.ENV); env["LD_LIBRARY_PATH"] = W + "/base"
    r = sh([b, "--seed", "1", "--from", "0", "--to", str(PROPS[p]["quick"] // 4), "--stride", "1", "--cpu", "60", "--out", b + ".json"], env=env)
    return p, "\n".join(l[6:] for l in r.stdout.splitlines() if l.startswith("TIGHT"))
with ThreadPoolExecutor(4) as ex:
    for p, t in ex.map(one, PR): print("==", p); print(t, flush=True)
