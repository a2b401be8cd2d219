#!/usr/bin/env python3
"""Mutation campaign: how much of the library's behaviour do the monitors pin down?
usage: mutate.py WORK COV.json N SEED [file-substring [function-regex]]
Random single-site changes are made to scratch copies of library sources, each is run against the (up to MAXP)
properties whose workload reaches the line, most specific first, with a quarter of the quick cases.
Survivors are then run against the repository's tests and printed with their diff; they are either equivalent or a hole."""
import glob, json, os, random, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("LN_REPO", "/tmp/w/repo")
import run as R
from config import PROPS
W, COV, N, SEED = sys.argv[1], json.load(open(sys.argv[2])), int(sys.argv[3]), int(sys.argv[4])
FSUB = sys.argv[5] if len(sys.argv) > 5 else ""
FN = sys.argv[6] if len(sys.argv) > 6 else ""
MAXP = int(os.environ.get("MAXP", "6")); FRAC = int(os.environ.get("FRAC", "4")); JOBS = int(os.environ.get("MJOBS", "8"))
FL = R.FLAVOURS["asan"]
os.makedirs(W, exist_ok=True)
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
srcs = sorted(glob.glob(R.SRC + "/**/*.cpp", recursive=True))
obj = lambda s: W + "/" + os.path.relpath(s, R.SRC).replace("/", "__") + ".o"
def flags(s): return R.BASE + (FL["flags_eigen"] if "Eigen" in open(s, errors="replace").read() else FL["flags"]) + ["-fPIC"]
def comp(a):
    s, o = a
    if os.path.exists(o) and os.path.getmtime(o) > os.path.getmtime(s): return
    r = sh([FL["cxx"]] + flags(s) + ["-I" + HERE + "/harness", "-c", s, "-o", o])
    assert r.returncode == 0, r.stdout[:3000]
PR = [p for p in PROPS if not PROPS[p].get("capi")]
with ThreadPoolExecutor(8) as ex:
    list(ex.map(comp, [(s, obj(s)) for s in srcs] + [("%s/harness/%s.cpp" % (HERE, p), "%s/drv%s.o" % (W, p)) for p in PR]))
def so(objs, out): 
    r = sh([FL["cxx"]] + FL["link"] + ["-shared", "-o", out] + objs)
    assert r.returncode == 0, r.stdout[:2000]
os.makedirs(W + "/base", exist_ok=True)
so([obj(s) for s in srcs], W + "/base/libLN.so")
for p in PR:
    b = W + "/" + p
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(W + "/drv%s.o" % p):
        r = sh([FL["cxx"]] + FL["link"] + [W + "/drv%s.o" % p, "-L" + W + "/base", "-lLN", "-lpthread", "-o", b]); assert r.returncode == 0, r.stdout
size = {p: sum(1 for f in COV.values() for l in f.values() if p in l) for p in PR}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" == ", " != "), (r"IsLessThan\(", "IsLessThanOrEqual("), (r"IsLessThanOrEqual\(", "IsLessThan("),
       (r"IsGreaterThan\(", "IsGreaterThanOrEqual("), (r"IsGreaterThanOrEqual\(", "IsGreaterThan("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"egreeU\b", "egreeV"), (r"egreeV\b", "egreeU"), (r"notVectorU\b", "notVectorV"), (r"notVectorV\b", "notVectorU"), (r"GetU\(\)", "GetV()"), (r"GetV\(\)", "GetU()"),
       (r"GetX\(\)", "GetY()"), (r"GetZ\(\)", "GetY()"), (r"\[i\]\[j\]", "[j][i]"), (r"\[0\]", "[1]"), (r"= 0;", "= 1;"), (r"std::min\(", "std::max("), (r"std::max\(", "std::min("),
       (r"\+\+", "--"), (r" \+= ", " -= "), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bif \((.*)\)\s*$", "if (false && (\\1))"), (r"\bif \((.*)\)\s*$", "if (true || (\\1))"),
       (r"^(\s*)[A-Za-z_][\w\.\[\]]* ?[+\-*/]?= .*;\s*$", "\\1;"), (r"^(\s*)[A-Za-z_][\w:\.]*\(.*\);\s*$", "\\1;"), (r"\b2\.0\b", "1.0"), (r"\b0\.5\b", "0.4"), (r"left", "right"), (r"right", "left"),
       (r"start", "end"), (r"\.front\(\)", ".back()"), (r"\.size\(\)", ".size() - 1"), (r"\.Normalize\(\)", ""), (r"-([a-z])", "\\1"), (r"\bdegree\b", "(degree - 1)"), (r"cos\(", "sin("), (r"1\.0 - ", ""), (r"std::abs", ""), (r"return ((?!.*(true|false|==|Is[A-Z]|&&|<|>|!)).*);", "return 0.999 * (\\1);"), (r"continue;", "break;"), (r"break;", ";")]
rng = random.Random(SEED)
def functions(lines):
    name, res = "?", []
    for l in lines:
        m = re.match(r"^\t?[A-Za-z][^;=]*?([A-Za-z_~]\w*)\s*\([^;]*$", l)
        if m and not re.match(r"^\s*(if|for|while|else|switch|return)\b", l): name = m.group(1)
        res.append(name)
    return res
pool = []
for f, lines in COV.items():
    if not f.endswith(".cpp") or not f.startswith("src/LNLib") or (FSUB and FSUB not in f): continue
    txt = open(os.path.join(os.environ["LN_REPO"], f), newline="").read().split("\n")
    fn = functions(txt)
    for k, ps in lines.items():
        i = int(k) - 1
        if not [p for p in ps if p in PR] or i >= len(txt): continue
        l = txt[i]
        if "VALIDATE" in l or "reserve(" in l or (not FSUB and "Voronoi" in f) or l.strip().startswith(("//", "#", "{", "}")): continue
        if FN and not re.search(FN, fn[i]): continue
        pool.append((f, i, fn[i]))
def mutate(f, i):
    txt = open(os.path.join(os.environ["LN_REPO"], f), newline="").read().split("\n")
    l = txt[i]; cr = l.endswith("\r"); l = l.rstrip("\r")
    cand = []
    for a, b in OPS:
        for m in re.finditer(a, l):
            n = l[:m.start()] + m.expand(b) + l[m.end():]
            if n != l: cand.append(n)
    if not cand: return None
    n = rng.choice(cand)
    txt[i] = n + ("\r" if cr else "")
    return "\n".join(txt), l.strip(), n.strip()
lock = threading.Lock(); stat = dict(killed=0, survived=0, nocompile=0); by = {}
def one(k):
    with lock:
        while True:
            # pick a function uniformly, then a line of it
            fns = {}
            f, i, fn = rng.choice(pool) if rng.random() < 0.5 else rng.choice(byfn[rng.choice(list(byfn))])
            m = mutate(f, i)
            if m: break
    body, old, new = m
    d = W + "/m%d" % k; os.makedirs(d, exist_ok=True)
    try:
        src = os.path.join(os.environ["LN_REPO"], f)
        open(d + "/x.cpp", "w", newline="").write(body)
        r = sh(["timeout", "300", FL["cxx"]] + flags(src) + ["-I" + os.path.dirname(src), "-c", d + "/x.cpp", "-o", d + "/x.o"])
        if r.returncode: stat["nocompile"] += 1; return
        so([d + "/x.o" if s == src else obj(s) for s in srcs], d + "/libLN.so")
        ps = sorted((p for p in COV[f][str(i + 1)] if p in PR), key=lambda p: (p in ("P30", "P31"), size[p]))
        ran = []
        for p in ps[:MAXP]:
            n = max(40, PROPS[p]["quick"] // FRAC)
            env = dict(os.environ); env.update(R.ENV); env["LD_LIBRARY_PATH"] = d
            t = time.time()
            r = sh(["timeout", "600", W + "/" + p, "--seed", "1", "--from", "0", "--to", str(n), "--stride", "1", "--max", "1", "--cpu", "20", "--out", d + "/o.json"], env=env)
            ran.append("%s:%.0fs" % (p, time.time() - t))
            if r.returncode:
                with lock: stat["killed"] += 1; by[p] = by.get(p, 0) + 1
                return
        r = sh([FL["cxx"], "-O0", "-w"] + [x for x in R.BASE if x != "-DLNLIB_STATIC"] + ["-fsyntax-only", d + "/x.cpp", "-I" + os.path.dirname(src)])
        with lock:
            stat["survived"] += 1
            print("SURVIVED %s:%d %s()  ran %s of %d\n   - %s\n   + %s" % (f, i + 1, fn, " ".join(ran), len(ps), old, new), flush=True)
    finally:
        sh(["rm", "-rf", d])
byfn = {}
for x in pool: byfn.setdefault((x[0], x[2]), []).append(x)
print("pool", len(pool), "lines in", len(byfn), "functions", flush=True)
with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, range(N)))
print(stat, by)
