#!/usr/bin/env python3
"""Decide one property: run.py <ID> [--tier quick|thorough] [--only FUNC] [-v]
Compiles /repo's current sources to LLVM IR, links them with harness/<ID>.c, explores every path
symbolically (engine/), and replays any counterexample natively before reporting it."""
import sys, os, re, json, subprocess, hashlib, time, fcntl, glob, shutil, resource, threading, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", V + "/build")
NCPU = int(os.environ.get("VP_CPUS", os.cpu_count() or 4))
DEFS = "-D_GNU_SOURCE -D_POSIX_C_SOURCE=199309L -D_XOPEN_SOURCE=600 -DNDEBUG".split()
def incs(): return [x for d in [V+"/conf", REPO+"/include"] + [REPO+"/"+m for m in ("base","thread","io","text","formats","tls","net","log","sql")] + [REPO, REPO+"/formats/xml"] for x in ("-I", d)]
SKIP = re.compile(r'(_win|win32|w32|/win|/test/|android|apple|_mac[._]|_ios|kqueue|_jni|nslog|legacy_|_w32|coop|m_thread_win|solaris|_bsd|odbc|oracle|mysql|postgres|sqlite|_ble|bluetooth|_hid_|_cygwin|backtrace)')
def sources(mods):
    out = []
    for m in mods:
        p = os.path.join(REPO, m)
        if m.endswith(".c"): out.append(p); continue
        for r, ds, fs in sorted(os.walk(p)):
            for f in sorted(fs):
                q = os.path.join(r, f)
                if f.endswith(".c") and not SKIP.search(q[len(REPO):]): out.append(q)
    return out
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fhash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]
class Lock:
    def __init__(s, n): os.makedirs(BUILD, exist_ok=True); s.f = open(BUILD + "/" + n + ".lock", "w")
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN)
def engine():
    h = fhash(glob.glob(V + "/engine/*")); st = BUILD + "/symx.key"; exe = BUILD + "/symx"
    with Lock("engine"):
        if not (os.path.exists(exe) and os.path.exists(st) and open(st).read() == h):
            r = sh(["bash", V + "/engine/build.sh", BUILD])
            if r.returncode or not os.path.exists(exe): die("engine build failed:\n" + r.stdout[-2000:])
            open(st, "w").write(h)
    return exe
def die(m): print("ERROR: " + m); sys.exit(2)
CL = ["clang", "-c", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w", "-fsanitize=address", "-fno-sanitize-address-use-after-scope"]
TSAN = ["-fno-sanitize=all", "-fsanitize=thread", "-DVP_TSAN=2"]
def compile_bc(srcs, tag, tsan=()):
    """compile sources to bitcode; returns list of .bc (cached by content of the whole include closure)"""
    hdrs = []
    for r, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in (".git", "_build", "test", "doc")]
        hdrs += [os.path.join(r, f) for f in fs if f.endswith((".h", ".inc"))]
    hk = fhash(hdrs + glob.glob(V + "/conf/*.h") + glob.glob(V + "/lib/*"))
    d = BUILD + "/bc"; os.makedirs(d, exist_ok=True)
    outs, todo = [], []
    incl = re.compile(rb'^\s*#\s*include\s+"([^"]+\.c)"', re.M)
    for s in srcs:
        data = open(s, "rb").read()
        for m in incl.findall(data):
            q = os.path.join(os.path.dirname(s), m.decode())
            if os.path.exists(q): data += open(q, "rb").read()
        x = TSAN if os.path.relpath(s, REPO) in tsan else []
        k = hashlib.sha256(s.encode() + data + hk.encode() + " ".join(CL + DEFS + x).encode()).hexdigest()[:24]
        o = d + "/" + k + ".bc"; outs.append(o)
        if not os.path.exists(o): todo.append((s, o, x))
    def one(so):
        s, o, x = so; t = o + ".%d.tmp" % os.getpid()
        r = sh(CL + x + DEFS + incs() + ["-I", os.path.dirname(s), "-I", V + "/lib", s, "-o", t])
        if not r.returncode and x: r = sh(["opt-18", "-tsan-instrument-func-entry-exit=0", "-passes=function(mem2reg),tsan-module,function(tsan)", t, "-o", t])
        if r.returncode: return s + ":\n" + r.stdout[-1500:]
        os.rename(t, o)
    with ThreadPoolExecutor(NCPU) as ex:
        bad = [x for x in ex.map(one, todo) if x]
    if bad: die("cannot compile " + bad[0])
    return outs
def link(bcs, tag):
    k = hashlib.sha256(" ".join(bcs).encode()).hexdigest()[:24]; o = BUILD + "/bc/L" + k + ".bc"
    if not os.path.exists(o):
        t = o + ".%d.tmp" % os.getpid()
        r = sh(["llvm-link-18"] + bcs + ["-o", t])
        if r.returncode: die("link: " + r.stdout[-1500:])
        os.rename(t, o)
    return o
def parse(pid, tier):
    """directives:  //@mods base,formats   //@bounds text   //@outside text   //@stubs text
                    //@H func [q:A=1,B=2] [t:A=3] [jobs=4] [time=60] [reach=a,b]   (several per function allowed)"""
    f = V + "/harness/" + pid + ".c"; meta = dict(mods=["base"], env=[], tsan=[], bounds=[], outside=[], stubs=[], H=[], file=f)
    for l in open(f):
        m = re.match(r'\s*//@(\w+)\s+(.*)', l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == "mods": meta["mods"] = re.split(r"[, ]+", v)
        elif k == "env": meta["env"] += v.split(",")
        elif k == "tsan": meta["tsan"] += re.split(r"[, ]+", v)   # every shared access in these files becomes a call (lib/env_tsan.c): a preemption point
        elif k in ("bounds", "outside", "stubs"): meta[k].append(v)
        elif k == "H":
            w = v.split(); h = dict(fn=w[0], jobs=1, time=None, reach=None, must=[], defs={}, skip=False, steps=None, qt=None, noreplay=False)
            q = t = None
            for x in w[1:]:
                if x.startswith("q:"): q = x[2:]
                elif x.startswith("t:"): t = x[2:]
                elif x.startswith("jobs="): h["jobs"] = int(x[5:])
                elif x.startswith("time="): h["time"] = int(x[5:])
                elif x.startswith("steps="): h["steps"] = int(x[6:])
                elif x.startswith("qt="): h["qt"] = int(x[3:])
                elif x.startswith("reach="): h["reach"] = x[6:].split(",")
                elif x.startswith("must="): h["must"] = x[5:].split(",")
                else: die("bad directive " + x)
            s = q if tier == "quick" else (t if t is not None else q)
            if s == "-": continue
            if s: h["defs"] = dict(p.split("=") if "=" in p else (p, "1") for p in s.split(",") if p)
            meta["H"].append(h)
    return meta
def limits(): resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
def merge(text):
    tot = None
    for line in text.splitlines():
        line = line.strip()
        if not line.startswith("{"): continue
        j = json.loads(line)
        if "fatal" in j:
            if tot is None: tot = {}
            tot.setdefault("fatals", []).append(j["fatal"]); continue
        if tot is None or "paths" not in tot: j["fatals"] = (tot or {}).get("fatals", []); tot = j; continue
        for k, v in j.items():
            if k in ("wall",): tot[k] = max(tot[k], v)
            elif isinstance(v, (int, float)): tot[k] += v
            elif isinstance(v, dict):
                for a, b in v.items(): tot[k][a] = tot[k].get(a, 0) + b
            elif k == "functions": tot[k] = sorted(set(tot[k]) | set(v))
            elif isinstance(v, list): tot[k] += v
    return tot
def main():
    av = sys.argv[1:]; pid = av[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; verbose = "-v" in av; errs = "1"
    if "--tier" in av: tier = av[av.index("--tier") + 1]
    if "--only" in av: only = av[av.index("--only") + 1].split(",")
    if "--errors" in av: errs = av[av.index("--errors") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    for d in glob.glob(V + "/build/out/%s-*" % pid): shutil.rmtree(d, ignore_errors=True)
    symx = engine(); meta = parse(pid, tier)
    if only: meta["H"] = [h for h in meta["H"] if h["fn"] in only]
    os.makedirs(BUILD, exist_ok=True); W = BUILD + "/out/%s-%d" % (pid, os.getpid()); os.makedirs(W, exist_ok=True)
    with Lock("bc"):
        repo_bc = link(compile_bc(sources(meta["mods"]), "repo", meta["tsan"]), "repo")
        env_bc = compile_bc([V + "/lib/%s.c" % e for e in meta["env"]], "env")
        libc_bc = compile_bc([V + "/lib/libc.c"], "libc"); nat_bc = compile_bc([V + "/lib/vp_native.c"], "nat")
    for i, h in enumerate(meta["H"]):
        h["id"] = h["fn"] + ("[" + ",".join("%s=%s" % kv for kv in h["defs"].items()) + "]" if h["defs"] else "")
        h["bc"] = W + "/h%d.bc" % i
    def ch(h):
        r = sh(CL + DEFS + incs() + ["-I", V + "/lib", "-I", V + "/harness", "-Wno-everything"] + ["-D%s=%s" % kv for kv in h["defs"].items()] + [meta["file"], "-o", h["bc"]])
        return r.stdout[-3000:] if r.returncode else None
    with ThreadPoolExecutor(NCPU) as ex:
        bad = [x for x in ex.map(ch, meta["H"]) if x]
    if bad: die("harness does not compile: " + bad[0])
    deadline = t0 + (float(os.environ.get("VP_BUDGET", "780" if tier == "quick" else "10800")))
    sem = threading.Semaphore(NCPU); slock = threading.Lock(); stop = threading.Event()
    def runh(h):
        n = min(h["jobs"], NCPU)
        with slock:
            for _ in range(n): sem.acquire()
        try:
            if stop.is_set(): h["r"] = None; return
            tl = h["time"] or (300 if tier == "quick" else 3000)
            if tier != "quick": tl = max(tl, 3000)
            tl = max(5, min(tl, deadline - time.time() - 20))
            cmd = [symx, "--entry", h["fn"], "--time", str(tl), "--max-errors", errs, "--confirm", "2" if tier == "quick" else "30"] + (["--jobs", str(n)] if n > 1 else []) + (["--max-steps", str(h["steps"])] if h["steps"] else []) + (["--query-timeout", str(h["qt"])] if h["qt"] else []) + [h["bc"], repo_bc] + env_bc + libc_bc
            h["cmd"] = cmd
            if os.environ.get("VP_SHOW"): print(" ".join(cmd), flush=True)
            try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tl + 60, preexec_fn=limits); out, e = p.stdout, p.stderr
            except subprocess.TimeoutExpired as x: out, e = '{"fatal":"time limit"}', ""
            h["r"] = merge(out) or {"fatals": ["no output: " + e[-500:]]}
            if verbose: show(h)
        finally:
            for _ in range(n): sem.release()
    def show(h):
        r = h["r"]
        if "paths" not in r: print("  %-50s FATAL %s" % (h["id"], r["fatals"])); return
        print("  %-50s paths %d done %d fd %d z3 %d (%.1fs) insts %d wall %.1fs reach %s%s%s" % (h["id"], r["paths"], r["completed"], r["fd_solved"], r["z3_queries"], r["z3_time"], r["instructions"], r["wall"], r["reached"], " KNOWN %s" % r["known"] if r["known"] else "", " INCOMPLETE %s" % r["incomplete"] if r["incomplete"] else ""), flush=True)
        for e in r["errors"]: print("     ERR %s: %s\n        at %s (%s:%s)\n        %s\n        inputs %s" % (e["kind"], e["msg"], e["func"], e["file"], e["line"], e["stack"], " ".join("%s=%s" % (a, c) for a, b, c in e["inputs"])), flush=True)
    with ThreadPoolExecutor(max(1, len(meta["H"]))) as ex: list(ex.map(runh, meta["H"]))
    # ---------------------------------------------------------------- native replay
    def native(h):
        if "exe" in h: return h["exe"]
        b = W + "/n_" + os.path.basename(h["bc"]); exe = b[:-3]
        r = sh([symx, "--entry", h["fn"], "--emit", b, h["bc"], repo_bc] + env_bc + nat_bc)
        if not os.path.exists(b): h["exe"] = None; h["nerr"] = r.stdout; return None
        c = sh(["clang", "-x", "ir", "-O1", "-fno-inline", "-w", "-fsanitize=address", b, "-o", exe, "-lm", "-lpthread", "-lcrypto", "-lssl"])
        if c.returncode: c = sh(["clang", "-x", "ir", "-O1", "-w", "-fsanitize=address", b, "-o", exe, "-lm", "-lpthread"])
        h["exe"] = exe if c.returncode == 0 else None; h["nerr"] = c.stdout[-800:]
        return h["exe"]
    def replay(h, inputs, name):
        p = W + "/" + name + ".in"
        open(p, "w").write("".join("%s %d %s\n" % (a.replace(" ", "_"), b, c) for a, b, c in inputs))
        exe = native(h)
        if not exe: return "build", "cannot build the native replay: " + str(h.get("nerr")), p
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=9:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1")
        try: r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env, cwd=W); out = r.stdout.decode("latin1"); rc = r.returncode
        except subprocess.TimeoutExpired: return "hang", "no result within 60 s", p
        return rc, out, p
    def merged(key):
        d = {}
        for h in meta["H"]:
            for a, b in ((h["r"] or {}).get(key) or {}).items(): d[a] = d.get(a, 0) + b
        return d
    viol, unrepro, dead = [], [], []
    for h in meta["H"]:
        r = h["r"]
        if r is None: continue
        if "paths" not in r or r["fatals"]: dead.append(h["id"] + ": " + str(r.get("fatals")))
        for e in r.get("errors", []):
            rc, out, p = replay(h, e["inputs"], "cex%d" % (len(viol) + len(unrepro)))
            ok = rc in (10, 12, "hang") or (rc == 9 and "AddressSanitizer" in out) or (isinstance(rc, int) and rc < 0) or (e["kind"] == "abort" and rc not in (0, 7, 8, "build"))
            if e["kind"] == "hang": ok = rc == "hang" or ok
            if e["kind"] == "memory" and not ok and ("NULL" not in e["msg"]) and "overlapping" in e["msg"]: ok = rc == 0
            (viol if ok else unrepro).append((h, e, rc, out, p))
        if r.get("errors"): continue
        want = h["reach"] if h["reach"] is not None else []
        mm = [t for t in h["must"] if t not in r.get("reached", {})] if "paths" in r and not r["fatals"] else []
        if mm and not r["incomplete"] and r["completed"]:
            viol.append((h, dict(kind="unreachable", msg="no input reaches " + ",".join(mm) + " (solver exhausted every path)", func="", file="", line=0, inputs=[], stack=""), 0, "decided over all paths; there is no single counterexample to replay", "")); continue
        want = want + (mm if "paths" in r else [])
        miss = [t for t in want if t not in r.get("reached", {})]
        if "paths" in r and (miss or r["completed"] == 0): dead.append(h["id"] + ": vacuous, never reached " + (",".join(miss) or "the end") + " incomplete=" + str(r["incomplete"]))
    # validate the encoding: replay completed paths natively, they must end cleanly too
    val = bad_val = 0; vsamples = []
    if not viol:
        cand = [h for h in meta["H"] if h["r"] and h["r"].get("wit")]
        if tier == "quick": cand = cand[:1] if len(cand) < 4 else [cand[0], cand[len(cand) // 2]]
        def v1(h):
            res = []
            for k, w in enumerate(h["r"]["wit"][:8]):
                rc, out, p = replay(h, w, "wit_%s_%d" % (os.path.basename(h["bc"])[:-3], k)); res.append((h, w, rc, out))
                if rc == "build": break
            return res
        with ThreadPoolExecutor(NCPU) as ex:
            for res in ex.map(v1, cand):
                for h, w, rc, out in res:
                    if rc == 0: val += 1; vsamples.append("%s: %s" % (h["id"], " ".join("%s=%s" % (a, c) for a, b, c in w)[:160]))
                    else:
                        bad_val += 1; unrepro.append((h, dict(kind="validation", msg="a completed symbolic path ends differently natively (rc %s): %s" % (rc, out[-300:]), func="", file="", line=0, inputs=w, stack=""), rc, out, ""))
    rs = [h["r"] for h in meta["H"] if h["r"] and "paths" in h["r"]]
    S = lambda k: sum(r[k] for r in rs)
    funcs = sorted({f for r in rs for f in r["functions"] if not f.startswith(("h_", "vp_"))})
    inc = merged("incomplete"); kn = merged("known")
    findings = {}
    for l in open(V + "/known-findings.txt"):
        m = re.match(r'open: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == pid: findings[m.group(2)] = dict(what=m.group(3).strip())
    for k in kn:
        if k not in findings: viol.append((meta["H"][0], dict(kind="known", msg="unlisted finding " + k, func="", file="", line=0, inputs=[], stack=""), 0, "", ""))
        else: print("KNOWN-FINDING: property=%s %s" % (pid, findings[k]["what"]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol),
        assumptions=["bounded: " + b for b in meta["bounds"]] + ["outside the claim: " + b for b in meta["outside"]] + ["model/stub: " + b for b in meta["stubs"]] + ["malloc succeeds unless the harness says otherwise; single build configuration (Linux x86-64, conf/config.h); LLVM 18 front end, engine/ and z3 are trusted, counterexamples are replayed natively under ASan"],
        coverage=dict(states=S("completed"), transitions=S("forks"), traces_validated_against_impl=val, samples=(vsamples + ["%s: %s" % (h["id"], s) for h in meta["H"] if h["r"] for s in h["r"].get("samples", [])])[:12],
            explanation="states = symbolic paths completed (each stands for every input satisfying its path condition); transitions = two-way-feasible branch decisions",
            harnesses=[dict(id=h["id"], paths=h["r"]["paths"], completed=h["r"]["completed"], instructions=h["r"]["instructions"], asserts=h["r"]["asserts"], solver_queries=h["r"]["z3_queries"], finite_domain_decisions=h["r"]["domain_decided"] + h["r"]["fd_solved"], solver_s=round(h["r"]["z3_time"], 2), wall_s=round(h["r"]["wall"], 2), reached=h["r"]["reached"], exhausted=not h["r"]["incomplete"]) for h in meta["H"] if h["r"] and "paths" in h["r"]],
            paths=S("paths"), instructions=S("instructions"), assertions_checked=S("asserts"), assertion_queries=S("assert_queries"), z3_queries=S("z3_queries"), z3_sat=S("z3_sat"), z3_unsat=S("z3_unsat"), z3_unknown=S("z3_unknown"), assertion_verdicts_confirmed_by_z3=S("z3_confirmed"), query_cache_hits=S("cache_hits"), finite_domain_decisions=S("domain_decided") + S("fd_solved"), solver_time_s=round(sum(r["z3_time"] for r in rs), 2),
            functions_encoded=funcs, incomplete=inc, known_findings=kn, exhaustive=not inc and not dead, engine_errors=dead) if rs else dict(explanation="no harness produced a result: " + "; ".join(dead)[:500]))
    os.makedirs(V + "/evidence", exist_ok=True)
    if not only: json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %d harness instances, %d paths completed, %d assertions, %d solver queries (%.1f s), %d traces validated natively, %.1f s%s" % (pid, tier, len(rs), S("completed"), S("asserts"), S("z3_queries"), sum(r["z3_time"] for r in rs), val, time.time() - t0, (" INCOMPLETE " + json.dumps(inc)) if inc else ""))
    if viol:
        h, e, rc, out, p = viol[0]; rd = V + "/evidence/replay"; os.makedirs(rd, exist_ok=True); rp = rd + "/%s.txt" % pid
        with open(rp, "w") as f:
            f.write("property %s violated\nharness %s in harness/%s.c\n%s: %s\nat %s (%s:%s)\nstack %s\ninputs:\n%s\nnative replay result: %s\n%s\n" % (pid, h["id"], pid, e["kind"], e["msg"], e["func"], e["file"], e["line"], e["stack"], "\n".join("%s %d %s" % tuple(x) for x in e["inputs"]), rc, out[-4000:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); print("  %s: %s [%s]" % (h["id"], e["msg"], e["kind"]))
    if not verbose: shutil.rmtree(W, ignore_errors=True)
    if viol: sys.exit(1)
    for h, e, rc, out, p in unrepro: print("UNCONFIRMED %s: %s: %s at %s:%s (native: %s) %s" % (h["id"], e["kind"], e["msg"], e["func"], e["line"], rc, out[-300:]))
    for d in dead: print("ENGINE " + d)
    sys.exit(2 if unrepro or dead else 0)
if __name__ == "__main__": main()
