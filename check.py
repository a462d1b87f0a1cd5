#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's working tree together with the property's explorer (mc/*.cpp), lets
8 worker processes enumerate every execution of the property's spaces, and reports.
exit 0: the property held on every execution explored; exit 1: VIOLATION line printed."""
import concurrent.futures as cf, glob, json, mmap, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LPAGGREG_REPO", "/repo")
SRC, INC = REPO + "/src/lpaggreg/sources", REPO + "/src/lpaggreg/headers"
WORKERS = 8
HANG = float(os.environ.get("MC_HANG", "25"))     # seconds without progress before a case is run alone
HANG_ALONE = 60.0                                 # and then before it counts as not terminating
sys.path.insert(0, os.path.join(HERE, "tools"))

V = lambda name, src, lib="", har="", env=None, mem=4, **k: dict(name=name, src=src, lib=lib, har=har, env=env or {}, mem=mem, **k)
SAN = "-g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR"
SANENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_context_size=8", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}
CHECKS = {
    "C01": [V("main", "c01.cpp", har="-DKIND='O'")],
    "C02": [V("main", "c01.cpp", har="-DKIND='H'")],
    "C03": [V("main", "c01.cpp", har="-DKIND='D'")],
}

def load_checks():
    p = os.path.join(HERE, "tools", "variants.py")
    if os.path.exists(p):
        g = dict(os=os, HERE=HERE, INC=INC, V=V, SAN=SAN, SANENV=SANENV, CHECKS=CHECKS)
        exec(compile(open(p).read(), p, "exec"), g)

class BuildError(Exception):
    def __init__(self, what, out): super().__init__(what); self.out = out

def sh(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout

def build(var, work):
    """returns the path of the worker binary"""
    d = os.path.join(work, var["name"]); os.makedirs(d)
    cxx = var.get("cxx", "g++")
    jobs = []
    libflags = ["-std=gnu++11", "-O2", "-w", "-ftrivial-auto-var-init=pattern"] + var["lib"].split()
    harflags = ["-std=gnu++17", "-O2", "-w", "-ftrivial-auto-var-init=pattern"] + var["har"].split()
    objs = []
    for s in sorted(glob.glob(SRC + "/*.cpp")):
        o = os.path.join(d, os.path.basename(s)[:-4] + ".o"); objs.append(o)
        jobs.append(("library", [cxx] + libflags + ["-I" + INC, "-c", s, "-o", o]))
    srcs = [os.path.join(HERE, "mc", x) for x in ([var["src"]] if isinstance(var["src"], str) else var["src"])]
    if var.get("gen"): srcs += var["gen"](d, REPO)
    hobjs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, "harness%d.o" % i); hobjs.append(o)
        jobs.insert(0, ("harness", [cxx] + harflags + ["-I" + INC, "-I" + os.path.join(HERE, "mc"), "-I" + d, "-c", s, "-o", o]))
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for (kind, cmd), (rc, out) in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
            if rc: raise BuildError(kind, out)
    exe = os.path.join(d, "mc")
    rc, out = sh([cxx] + var.get("ldflags", var["har"]).split() + hobjs + objs + ["-o", exe] + var.get("libs", "").split())
    if rc: raise BuildError("link", out)
    return exe

def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(8 + 8 + 4 + 4 + (4 << 16))
    except OSError: return 0, 0, 0, []
    if len(b) < 24: return 0, 0, 0, []
    ticks, ex, sp, n = struct.unpack_from("<QQii", b, 0)
    n = max(0, min(n, 1 << 16))
    return ticks, ex, sp, list(struct.unpack_from("<%di" % n, b, 24))

def spawn(exe, args, var, errf):
    env = dict(os.environ); env["MALLOC_PERTURB_"] = "85"       # uninitialised heap reads the same in every run
    env.update(var["env"]); env["MC_VAR"] = var["name"]
    def limit():
        if var["mem"]: resource.setrlimit(resource.RLIMIT_AS, (var["mem"] << 30, var["mem"] << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return subprocess.Popen([exe] + args, stdout=errf, stderr=errf, env=env, preexec_fn=limit, start_new_session=True, cwd=os.path.dirname(exe))

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()

def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f: s = f.read()
        return s[:n]
    except OSError: return ""

def run_one(exe, var, work, tier, space, choices):
    """replays one case; returns (violated, message)"""
    tag = "%s/replay-%d" % (work, time.time_ns())
    with open(tag + ".err", "w") as errf:
        p = spawn(exe, ["--replay", space, choices, "--tier", tier, "--out", tag + ".json", "--progress", tag + ".prog"], var, errf)
        t, last = time.time(), -1
        while p.poll() is None:
            time.sleep(0.02)
            k = read_progress(tag + ".prog")[0]
            if k != last: last, t = k, time.time()
            elif time.time() - t > HANG_ALONE:
                kill(p); return True, "does not terminate (no progress for %d s)" % HANG_ALONE
    if p.returncode == 0: return False, ""
    if p.returncode == 1 and os.path.exists(tag + ".json"):
        return True, json.load(open(tag + ".json"))["violation"]["message"]
    if p.returncode == 3: return None, tail(tag + ".err")
    return True, "the program died (%s)\n%s" % (("signal %d" % -p.returncode) if p.returncode < 0 else "exit %d" % p.returncode, tail(tag + ".err"))

def rerun_worker(exe, var, work, args, whole=False):
    """a violation that its case alone does not show depends on what ran before it: the same worker, from the start, must show it again"""
    b = "%s/again-%d" % (work, time.time_ns())
    result = lambda msg, out=None: (msg, out) if whole else msg
    args = list(args)
    for o, x in (("--progress", ".prog"), ("--out", ".json")): args[args.index(o) + 1] = b + x
    with open(b + ".err", "w") as errf:
        p = spawn(exe, args, var, errf)
        t, last = time.time(), -1
        while p.poll() is None:
            time.sleep(0.05)
            k = read_progress(b + ".prog")[0]
            if k != last: last, t = k, time.time()
            elif time.time() - t > HANG_ALONE: kill(p); return result("does not terminate after the executions before it")
    if p.returncode == 1 and os.path.exists(b + ".json"): return result(json.load(open(b + ".json"))["violation"]["message"])
    if p.returncode < 0 and p.returncode != -signal.SIGKILL: return result("the program died after the executions before it (signal %d)\n%s" % (-p.returncode, tail(b + ".err")))
    return result(None, b + ".json" if p.returncode == 0 else None)

def run_variant(var, work, tier, res):
    """explores one variant; returns violation dict or None"""
    exe = build(var, work)
    nw = var.get("workers", WORKERS)
    deadline = var.get("deadline", {}).get(tier, 420 if tier == "quick" else 6 * 3600)
    if tier == "quick": deadline = min(deadline, max(60, 600 - (time.time() - T0)))
    deadline = float(os.environ.get("MC_DEADLINE", deadline))       # for development only
    names = spaces_of(exe, var)
    ws = []
    for i in range(nw):
        b = os.path.join(work, "%s-w%d" % (var["name"], i))
        args = ["--tier", tier, "--worker", str(i), "--workers", str(nw), "--progress", b + ".prog", "--out", b + ".json", "--deadline", str(deadline)]
        f = open(b + ".err", "w")
        ws.append(dict(args=args, p=spawn(exe, args, var, f), b=b, ticks=-1, t=time.time(), f=f))
    viol, live = None, list(ws)
    errors, again, killed = [], [], []
    while live and not viol:
        time.sleep(0.1)
        for w in list(live):
            rc = w["p"].poll()
            if rc is None:
                k, ex, sp, ch = read_progress(w["b"] + ".prog")
                if k != w["ticks"]: w["ticks"], w["t"] = k, time.time()
                elif time.time() - w["t"] > HANG:
                    kill(w["p"]); live.remove(w)
                    space, c = names[sp], ",".join(map(str, ch))
                    bad, msg = run_one(exe, var, work, tier, space, c)
                    if bad: viol = dict(space=space, choices=c, message=msg)
                    else: errors.append("worker %s stopped responding in %s [%s], but the case ends when run alone" % (w["b"], space, c))
                continue
            live.remove(w)
            if rc == 0: continue
            if rc == 1 and os.path.exists(w["b"] + ".json"):
                v = json.load(open(w["b"] + ".json"))["violation"]; space, c = v["space"], v["choices"]
            else:
                k, ex, sp, ch = read_progress(w["b"] + ".prog")
                space, c = names[sp], ",".join(map(str, ch)); v = dict(message="exit %s\n%s" % (rc, tail(w["b"] + ".err")))
            bad, msg = run_one(exe, var, work, tier, space, c)
            if bad: viol = dict(space=space, choices=c, message=msg)
            elif var.get("accumulates"): viol = dict(space=space, choices=c, message=v["message"])
            elif rc == -signal.SIGKILL: killed.append((w, space, c))    # memory ran out: alone, it has more
            else: again.append((w, space, c, v["message"]))
            if viol: break
    for w in ws:
        if w["p"].poll() is None: kill(w["p"])
        w["f"].close()
        if os.path.exists(w["b"] + ".json"): merge(res, json.load(open(w["b"] + ".json")), var, nw)
    for w, space, c, m in again[:2]:
        if viol: break
        msg = rerun_worker(exe, var, work, w["args"])
        if msg: viol = dict(space=space, choices=c, message=msg + "\n(only after the executions before it in the same process)", worker=w["args"])
        else: errors.append("not reproduced: %s [%s]: %s" % (space, c, m))
    for w, space, c in killed:
        if viol: break
        print("note: a worker was killed in %s, repeating its share" % space)
        msg, out = rerun_worker(exe, var, work, w["args"], True)
        if msg: viol = dict(space=space, choices=c, message=msg, worker=w["args"])
        elif out: merge(res, json.load(open(out)), var, nw)
        else: errors.append("worker killed in %s [%s]" % (space, c))
    if errors and not viol:
        for e in errors: print("ERROR:", e[:2000])
        raise SystemExit(2)
    if viol: viol["variant"] = var["name"]
    return viol

def spaces_of(exe, var):
    r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **var["env"]))
    return r.stdout.split("\n")

def merge(res, j, var, nw):
    for k in ("executions", "transitions", "traces", "states"): res[k] = res.get(k, 0) + j[k]
    res["outcomes_max"] = max(res.get("outcomes_max", 0), j["outcomes"])
    res["capped"] = res.get("capped", False) or j["capped"]
    res["states_full"] = res.get("states_full", False) or j["states_full"]
    if len(res.setdefault("samples", [])) < 6: res["samples"] += [s for s in j["samples"] if s not in res["samples"]][:2]
    for s in j["spaces"]:
        k = (var["name"] + "/" if var["name"] != "main" else "") + s["name"]
        t = res.setdefault("spaces", {}).setdefault(k, dict(bound=s["bound"], executions=0, complete=True, workers=0, wall_s=0))
        t["executions"] += s["executions"]; t["complete"] = t["complete"] and s["complete"]; t["workers"] += 1; t["wall_s"] = round(max(t["wall_s"], s["wall_s"]), 2)
        t["expected_workers"] = nw

def known(pid):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid): r.append(l[len("known: property=%s " % pid):])
    return r

def report(pid, tier, viol, res, t0):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sp = res.get("spaces", {})
    exhaustive = (not viol) and not res.get("capped") and all(s["complete"] and s["workers"] == s.get("expected_workers", 8) for s in sp.values()) and bool(sp)
    for s in sp.values(): s.pop("workers", None); s.pop("expected_workers", None)
    cov = dict(states=res.get("states", 0), transitions=res.get("transitions", 0), traces_validated_against_impl=res.get("traces", 0),
               executions=res.get("executions", 0), samples=res.get("samples", []) or ["(no execution)"], exhaustive=exhaustive, spaces=sp,
               distinct_outcomes_per_worker=res.get("outcomes_max", 0),
               note="states: distinct (input, observed abstraction) pairs; transitions: calls to the real library; traces: complete histories whose every observation was compared with the reference model; "
                    "outcomes: distinct observable results seen by the worker that saw most" + ("; state table saturated, states is a lower bound" if res.get("states_full") else ""))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["single-machine long double (x87) arithmetic as compiled by the installed gcc/clang", "the reference model of mc/ref.h"],
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d traces, %d spaces, exhaustive=%s, %.1f s" % (pid, tier, cov["executions"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(sp), exhaustive, time.time() - t0))
    for k in known(pid): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viol:
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".json")
        with open(path, "w") as f: json.dump(dict(property=pid, tier=tier, **viol), f, indent=1)
        print("space %s, decisions %s\n%s" % (viol.get("space"), viol.get("choices", "")[:2000], viol["message"][:4000]))
        print("VIOLATION property=%s replay=%s" % (pid, path)); sys.stdout.flush()
        return 1
    return 0

T0 = time.time()
def main():
    load_checks()
    a = sys.argv[1:]
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick") or "quick"; replay = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--replay" in a: replay = a[a.index("--replay") + 1]
    base = os.path.join(HERE, "build"); os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
    try:
        if replay:
            r = json.load(open(replay)); var = [v for v in CHECKS[pid] if v["name"] == r["variant"]][0]
            try: exe = build(var, work)
            except BuildError as e: print(e, e.out[:3000]); return 1
            if r.get("worker"): msg = rerun_worker(exe, var, work, r["worker"]); bad = bool(msg)
            else: bad, msg = run_one(exe, var, work, r["tier"], r["space"], r["choices"])
            print("reproduced: " + msg if bad else "held"); return 1 if bad else 0
        res, viol = {}, None
        for var in CHECKS[pid]:
            if var.get("thorough_only") and tier != "thorough": continue
            try: viol = run_variant(var, work, tier, res)
            except BuildError as e:
                h = var.get("on_build_error")
                msg = h(str(e), e.out) if h else None
                if msg: viol = dict(space="build", choices="", message=msg, variant=var["name"])
                else:
                    print("ERROR: %s does not build\n%s" % (e, e.out[:4000])); return 2
            if viol: break
        return report(pid, tier, viol, res, T0)
    finally:
        if not os.environ.get("MC_KEEP"): shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
