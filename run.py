#!/usr/bin/env python3
"""Build the library from /repo's working tree with sanitizers, run one property's monitored
workload on it and decide.   run.py <ID> [--tier quick|thorough] [--seed N] [--case N] [--cases N]

Exit 0: every monitored observation satisfied the property.  Exit 1: a line
'VIOLATION property=<ID> replay=<path>' names a replay file.  Nothing else is ever returned."""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LN_REPO", "/repo")
SRC = os.path.join(REPO, "src", "LNLib")
BUILD = os.environ.get("LN_BUILD", os.path.join(HERE, "build"))
JOBS = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from config import PROPS

BASE = ["-std=c++17", "-w", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
        "-DLNLIB_STATIC", "-isystem", "/usr/include/eigen3", "-I" + os.path.join(SRC, "include")]
FLAVOURS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer (every report is fatal)
    "asan": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                 flags_eigen=["-O1", "-fsanitize=address"],
                 link=["-fsanitize=address,undefined"]),
    # ThreadSanitizer
    "tsan": dict(cxx="g++", flags=["-O1", "-fsanitize=thread"], flags_eigen=["-O1", "-fsanitize=thread"],
                 link=["-fsanitize=thread"]),
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_key(flav, root=SRC):
    h = hashlib.sha256()
    h.update(json.dumps([FLAVOURS[flav], BASE], sort_keys=True).encode())
    for f in sorted(glob.glob(root + "/**/*", recursive=True)):
        if os.path.isfile(f) and f.endswith((".cpp", ".h", ".hpp", ".inl", ".c")):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def build(pid, flav, log):
    """returns path of the driver binary, or raises BuildError"""
    fl = FLAVOURS[flav]
    key = tree_key(flav)
    libdir = os.path.join(BUILD, "lib-%s-%s" % (flav, key))
    os.makedirs(libdir, exist_ok=True)
    drv_src = os.path.join(HERE, "harness", PROPS[pid].get("driver", pid) + ".cpp")
    h = hashlib.sha256(key.encode())
    capi = os.path.join(REPO, "dotnet", "CAPI") if PROPS[pid].get("capi") else None
    if capi:
        capikey = hashlib.sha256((key + tree_key(flav, capi)).encode()).hexdigest()[:16]
        h.update(capikey.encode())
    for f in [drv_src, os.path.join(HERE, "harness", "common.h"), os.path.join(HERE, "harness", "main.inc")] + sorted(glob.glob(os.path.join(HERE, "harness", "*.hpp"))):
        h.update(open(f, "rb").read())
    binp = os.path.join(BUILD, "drv-%s-%s-%s" % (os.path.basename(drv_src)[:-4], flav, h.hexdigest()[:16]))
    if os.path.exists(binp):
        return binp
    srcs = sorted(f for f in glob.glob(SRC + "/**/*.cpp", recursive=True))
    tasks = []
    objs = []
    for s in srcs:
        rel = os.path.relpath(s, SRC).replace("/", "__")
        o = os.path.join(libdir, rel + ".o")
        objs.append(o)
        if not os.path.exists(o):
            eig = "Eigen" in open(s, errors="replace").read()
            tasks.append((0 if eig else 1, -os.path.getsize(s), s, o, fl["flags_eigen"] if eig else fl["flags"]))
    inc = ["-I" + os.path.join(HERE, "harness")]
    if capi:
        # the C wrapper is not part of the library: same flags, its own objects
        inc.append("-I" + os.path.join(capi, "include"))
        cdir = os.path.join(BUILD, "capi-%s-%s" % (flav, capikey))
        os.makedirs(cdir, exist_ok=True)
        for s in sorted(glob.glob(capi + "/src/*.cpp")):
            o = os.path.join(cdir, os.path.basename(s) + ".o")
            objs.append(o)
            if not os.path.exists(o):
                tasks.append((1, -os.path.getsize(s), s, o, fl["flags"]))
    dobj = binp + ".o"
    tasks.append((0, 0, drv_src, dobj, fl["flags"]))
    tasks.sort()
    errs = []

    def comp(t):
        _, _, s, o, flags = t
        tmp = o + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = sh([fl["cxx"]] + BASE + flags + inc + ["-c", s, "-o", tmp])
        if r.returncode:
            errs.append(s + "\n" + r.stdout[:6000])
        else:
            os.replace(tmp, o)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(comp, tasks))
    if errs:
        raise RuntimeError("build failed:\n" + "\n".join(errs))
    tmp = binp + ".%d.tmp" % os.getpid()
    r = sh([fl["cxx"]] + fl["link"] + [dobj] + objs + ["-lpthread", "-o", tmp])
    if r.returncode:
        raise RuntimeError("link failed:\n" + r.stdout[:6000])
    os.replace(tmp, binp)
    try:
        os.remove(dobj)
    except OSError:
        pass
    return binp


class Run:
    def __init__(self, pid, binp, seed, cases, cpu, maxf, workdir):
        self.pid, self.bin, self.seed, self.cases, self.cpu, self.maxf, self.work = pid, binp, seed, cases, cpu, maxf, workdir
        self.lock = threading.Lock()
        self.findings = []
        self.agg = dict(ran=0, nontrivial=0, classes=set(), samples=[], observations={}, scenarios={}, buckets={})
        self.inconclusive = []
        self.restarts = 0

    def exec(self, args, tag, timeout):
        out = os.path.join(self.work, tag + ".json")
        prog = os.path.join(self.work, tag + ".prog")
        for f in (out, prog):
            if os.path.exists(f):
                os.remove(f)
        env = dict(os.environ)
        env.update(ENV)
        cmd = [self.bin, "--seed", str(self.seed), "--cpu", str(self.cpu), "--max", str(self.maxf), "--out", out, "--progress", prog] + args
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=timeout)
            rc, txt = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, txt = 78, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        last = -1
        try:
            with open(prog, "rb") as fp:
                last = int.from_bytes(fp.read(8), "little", signed=True)
        except OSError:
            pass
        js = None
        if os.path.exists(out):
            try:
                js = json.load(open(out))
            except ValueError:
                js = None
        return rc, txt, last, js

    def merge(self, js):
        with self.lock:
            a = self.agg
            a["ran"] += js["ran"]
            a["nontrivial"] += js["nontrivial"]
            a["classes"].update(js["classes"])
            if len(a["samples"]) < 12:
                a["samples"] += js["samples"][:3]
            for k in ("observations", "scenarios"):
                for n, v in js[k].items():
                    a[k][n] = a[k].get(n, 0) + v
            for d, m in js["buckets"].items():
                t = a["buckets"].setdefault(d, {})
                for n, v in m.items():
                    t[n] = t.get(n, 0) + v
            for f in js["findings"]:
                self.findings.append(f)

    def worker(self, w, nw):
        start = w
        guard = 0
        while start < self.cases and guard < 6:
            with self.lock:
                if len(self.findings) >= 4:
                    return
            rc, txt, last, js = self.exec(["--from", str(start), "--to", str(self.cases), "--stride", str(nw)], "w%d" % w, 700 if self.cases < 10**9 else None)
            if rc in (0, 3) and js is not None:
                self.merge(js)
                return
            # abnormal end: the case in 'last' took the process down
            guard += 1
            self.restarts += 1
            if last < start:
                with self.lock:
                    self.inconclusive.append("worker %d ended with rc %s before its first case: %s" % (w, rc, txt[-400:]))
                return
            m = re.search(r"WARNING: ThreadSanitizer: [^\n]*", txt)
            if m:
                # a reported race is a race whether or not the next run shows it again
                with self.lock:
                    self.findings.append(dict(case=last, scenario="", monitor="race", message=m.group(0), dump=txt[-8000:]))
                start = last + nw
                continue
            # everything before 'last' ran without incident: account for it by replaying the counters
            rc2, txt2, _, js2 = self.exec(["--case", str(last)], "w%dr" % w, 300)
            if rc2 == 3 and js2 is not None:
                self.merge(js2)
            elif rc2 in (77, 78):
                if rc in (77, 78):
                    with self.lock:
                        self.findings.append(dict(case=last, scenario=self.scen(txt2), monitor="termination", message="the call did not return within its CPU budget (%d s, twice)" % self.cpu, dump=txt2[-6000:]))
                else:
                    with self.lock:
                        self.inconclusive.append("case %d: rc %s then %s" % (last, rc, rc2))
            elif rc2 not in (0, 3):
                m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|Assertion [^\n]*failed[^\n]*|terminate called[^\n]*)", txt2)
                with self.lock:
                    self.findings.append(dict(case=last, scenario="", monitor="sanitizer", message="process ended abnormally (rc %s): %s" % (rc2, m.group(1) if m else txt2[-300:]), dump=txt2[-8000:]))
            else:
                with self.lock:
                    self.inconclusive.append("case %d: rc %s, not reproduced" % (last, rc))
            # account for the part before the crash
            if last - nw >= start:
                rc3, _, _, js3 = self.exec(["--from", str(start), "--to", str(last), "--stride", str(nw)], "w%d" % w, 700)
                if rc3 in (0, 3) and js3 is not None:
                    self.merge(js3)
            start = last + nw

    def scen(self, txt):
        m = re.search(r"scenario (\S+)", txt)
        return m.group(1) if m else ""

    def go(self):
        nw = JOBS
        ts = [threading.Thread(target=self.worker, args=(w, nw)) for w in range(nw)]
        [t.start() for t in ts]
        [t.join() for t in ts]


def known_findings(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    if sys.argv[1:] == ["--setup"]:
        # nothing to prepare: every check builds the library and its driver from /repo itself
        os.makedirs(BUILD, exist_ok=True)
        print("ok")
        return
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--scenario", default="")
    ap.add_argument("--max", type=int, default=2)
    ap.add_argument("--explore", action="store_true", help="report all findings, per scenario and monitor")
    a = ap.parse_args()
    pid = a.pid
    cfg = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    flav = cfg.get("flavour", "asan")
    try:
        binp = build(pid, flav, None)
    except RuntimeError as e:
        rp = replay(pid, dict(case=-1, scenario="build", monitor="build", message="the tree or the driver does not build", dump=str(e)), a, flav)
        print(str(e)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    tb = time.time() - t0
    work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    cases = a.cases or cfg["quick" if a.tier == "quick" else "thorough"]
    run = Run(pid, binp, a.seed, cases, cfg.get("cpu", 40), 100000 if a.explore else a.max, work)
    if a.case >= 0:
        rc, txt, _, js = run.exec(["--case", str(a.case)], "c", 600)
        print(txt)
        print("rc", rc)
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(1 if rc else 0)
    run.go()
    known = []
    for probe, text in known_findings(pid):
        rc, txt, _, js = run.exec(["--probe", probe], "probe-" + probe, 300)
        if rc != 0:
            known.append((probe, text))
    shutil.rmtree(work, ignore_errors=True)
    ag = run.agg
    findings = sorted(run.findings, key=lambda f: f["case"])
    wall = time.time() - t0
    if a.explore:
        tab = {}
        for f in findings:
            tab.setdefault((f["scenario"], f["monitor"]), []).append(f)
        for k, v in sorted(tab.items()):
            print("%6d/%d  %s / %s   e.g. case %d: %s" % (len(v), ag["scenarios"].get(k[0], 0), k[0], k[1], v[0]["case"], v[0]["message"][:300]))
        print("ran", ag["ran"], "nontrivial", ag["nontrivial"], "classes", len(ag["classes"]), "build %.1fs total %.1fs" % (tb, wall), run.inconclusive[:5])
        print(json.dumps(ag["observations"]))
        sys.exit(0)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=ag["ran"], distinct_nontrivial=len(ag["classes"]),
                            rule="an evaluation is one generated case executed on the instrumented library; it is non-trivial when at least one monitor made an observation in it, and two cases are distinct when they differ in scenario or in the structural signature of the input (degrees, knot multiplicities, weight and point style, parameter position class, operation arguments class)",
                            samples=ag["samples"][:12], nontrivial_cases=ag["nontrivial"],
                            monitor_observations=ag["observations"], scenarios=ag["scenarios"], input_distribution=ag["buckets"],
                            sanitizer=" ".join(FLAVOURS[flav]["flags"]), build_s=round(tb, 1), inconclusive=run.inconclusive[:10]),
              assumptions=cfg.get("assumptions", []) + ["reference oracles are evaluated in 80-bit long double by the recursive definitions and compared within the tolerances stated in DESIGN.md",
                           "only executions that were actually generated are judged"],
              wall_s=round(wall, 1), violations=len(findings))
    ev["known_findings"] = [k[1] for k in known]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for p, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s: %d cases, %d non-trivial, %d distinct classes, %d observations by %d monitors, build %.1f s, total %.1f s" % (
        pid, ag["ran"], ag["nontrivial"], len(ag["classes"]), sum(ag["observations"].values()), len(ag["observations"]), tb, wall))
    for m in run.inconclusive[:5]:
        print("note: inconclusive:", m[:500])
    if findings:
        for f in findings[:5]:
            print("  case %d [%s] %s: %s" % (f["case"], f["scenario"], f["monitor"], f["message"][:600]))
        rp = replay(pid, findings[0], a, flav)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    sys.exit(0)


def replay(pid, f, a, flav):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-seed%d-case%s.txt" % (pid, a.tier, a.seed, f["case"]))
    with open(p, "w") as fp:
        fp.write("property %s\nreplay: python3 %s/run.py %s --seed %d --case %s\nscenario: %s\nmonitor: %s\nmessage: %s\nsanitizer flavour: %s\n\ninput:\n%s\n" % (
            pid, HERE, pid, a.seed, f["case"], f["scenario"], f["monitor"], f["message"], flav, f["dump"]))
    return p


if __name__ == "__main__":
    main()
