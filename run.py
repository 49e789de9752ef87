#!/usr/bin/env python3
"""Decides one property: compiles the harness and /repo's current sources to LLVM IR, executes the harness
symbolically (engine/symex, SMT solver Z3), replays every counterexample on the real code (native build with
sanitizers) and writes evidence/<id>.json.

  run.py C01 [--tier quick|thorough] [-v]     check a property
  run.py --replay FILE                        rebuild natively and run one recorded counterexample
  run.py --setup                              build the engine only
"""
import sys, os, json, subprocess, hashlib, time, glob, re, shutil, tempfile, fcntl, shlex
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
EVID = os.environ.get("VP_EVID") or os.path.join(HERE, "evidence")
NCPU = os.cpu_count() or 8
T0 = time.time()
VERB = False

def log(*a):
    if VERB: print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)

def digest(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths: h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

# ------------------------------------------------------------------ engine and runtime models (verification side only)
STUBS = ["-isystem", HERE + "/stubs", "-isystem", HERE + "/stubs_native"]
IRFLAGS = ["-std=c++14", "-O1", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-finite-loops", "-fno-delete-null-pointer-checks", "-gline-tables-only", "-emit-llvm"]
FORCE = ["-include", "cstring", "-include", "cstdlib", "-include", "cmath", "-include", "cxxabi.h"]
HFLAGS = ["-fdelayed-template-parsing", "-ftrivial-auto-var-init=pattern", "-fno-caret-diagnostics", "-I" + REPO, "-I" + HERE + "/rt"] + FORCE

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [HERE + "/engine/" + f for f in ("symex.cpp", "expr.cpp", "solver.cpp", "expr.h", "solver.h")]
        d = digest(*src); exe = BUILD + "/symex-" + d
        if not os.path.exists(exe):
            fl = "-std=c++17 -O1 -g0 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fno-rtti".split()
            objs = []
            with ThreadPoolExecutor(3) as ex:
                fs = []
                for f in src[:3]:
                    o = BUILD + "/" + os.path.basename(f) + "." + str(os.getpid()) + ".o"; objs.append(o)
                    fs.append(ex.submit(sh, ["g++"] + fl + ["-c", f, "-o", o]))
                for f in fs:
                    if f.result().returncode: raise SystemExit("engine build failed:\n" + f.result().stdout)
            r = sh(["g++", "-o", exe + ".tmp"] + objs + ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
            if r.returncode: raise SystemExit("engine link failed:\n" + r.stdout)
            for o in objs: os.remove(o)
            os.rename(exe + ".tmp", exe)
        log("engine ready")
        return exe

def build_models():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lockm", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [HERE + "/rt/models.cpp", HERE + "/rt/vp.h"] + sorted(f for f in glob.glob(HERE + "/stubs/**", recursive=True) if os.path.isfile(f))
        out = BUILD + "/models-" + digest(*src) + ".bc"
        if not os.path.exists(out):
            r = sh(["clang++"] + STUBS + IRFLAGS + ["-fno-builtin", "-I" + HERE + "/rt", "-c", HERE + "/rt/models.cpp", "-o", out + ".tmp"])
            if r.returncode: raise SystemExit("models build failed:\n" + r.stdout)
            os.rename(out + ".tmp", out)
        return out

# ------------------------------------------------------------------ the code under check, always from the working tree
def repo_sources():
    r = []
    for d, _, fs in os.walk(REPO + "/flut"):
        for f in sorted(fs):
            if f.endswith(".cpp"): r.append(os.path.join(d, f))
    return sorted(r)

def defs_for(src):
    return ["-Dp=pattern"] if src.endswith("/flut/string_tools.cpp") else []  # as in the reference build

def parse_spec(cid):
    """`//@ entry=NAME quick=P,P;P,P thorough=... real time=S jobs=N inst=N` lines of the harness."""
    path = "%s/harness/%s.cpp" % (HERE, cid); spec = dict(entries=[], path=path, bounds=[], assume=[], flags=[], exclude=[])
    for line in open(path):
        m = re.match(r"//@\s*(.*)", line)
        if not m: continue
        t = m.group(1).strip()
        if t.startswith("bounds:"): spec["bounds"].append(t[7:].strip()); continue
        if t.startswith("assume:"): spec["assume"].append(t[7:].strip()); continue
        if t.startswith("flags:"): spec["flags"] += t[6:].split(); continue
        if t.startswith("exclude:"): spec["exclude"] += t[8:].split(); continue
        e = dict(real=False, time=None, jobs=1, inst=3000000)
        for w in t.split():
            if w == "real": e["real"] = True
            elif "=" in w: k, v = w.split("=", 1); e[k] = v
        spec["entries"].append(e)
    return spec

def params(s): return [[p for p in x.split(",") if p != ""] for x in s.split(";")] if s else [[]]

def compile_ir(cid, spec, tmp, models):
    srcs = [s for s in repo_sources() if os.path.relpath(s, REPO) not in spec["exclude"]]
    jobs = [(spec["path"], spec["flags"], True)] + [(s, defs_for(s) + spec["flags"], False) for s in srcs]
    out, skipped, fatal = [], [], None
    def one(j):
        src, extra, must = j; o = os.path.join(tmp, hashlib.md5(src.encode()).hexdigest()[:10] + ".bc")
        r = sh(["clang++"] + STUBS + IRFLAGS + HFLAGS + extra + ["-c", src, "-o", o]); return src, must, o, r
    with ThreadPoolExecutor(NCPU) as ex:
        for src, must, o, r in ex.map(one, jobs):
            if r.returncode:
                if must: fatal = "harness does not compile against the current tree:\n" + r.stdout
                else: skipped.append(os.path.relpath(src, REPO)); log("skipped", src, r.stdout[:300])
            else: out.append(o)
    if fatal: return None, skipped, fatal
    bc = os.path.join(tmp, cid + ".bc")
    r = sh(["llvm-link-18", "-o", bc, models] + out)
    if r.returncode: return None, skipped, "link failed:\n" + r.stdout
    return bc, skipped, None

def compile_native(cid, spec, tmp):
    """The same harness and the same sources, compiled for the machine with sanitizers and the real C++ library."""
    fl = ["-std=c++14", "-O1", "-w", "-g1", "-DVP_NATIVE", "-D_GLIBCXX_ASSERTIONS", "-isystem", HERE + "/stubs_native",
          "-fsanitize=address,undefined", "-fno-sanitize=vptr,float-cast-overflow,float-divide-by-zero,function,alignment,enum,bool", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + HFLAGS
    jobs = [(HERE + "/rt/native.cpp", [], True), (spec["path"], spec["flags"], True)]
    jobs += [(s, defs_for(s) + spec["flags"], False) for s in repo_sources() if os.path.relpath(s, REPO) not in spec["exclude"]]
    objs = []
    def one(j):
        src, extra, must = j; o = os.path.join(tmp, "n" + hashlib.md5(src.encode()).hexdigest()[:10] + ".o")
        return must, o, sh(["clang++"] + fl + extra + ["-c", src, "-o", o])
    with ThreadPoolExecutor(max(2, NCPU // 2)) as ex:
        for must, o, r in ex.map(one, jobs):
            if r.returncode:
                if must: return None, r.stdout
            else: objs.append(o)
    exe = os.path.join(tmp, "native"); r = sh(["clang++", "-fsanitize=address,undefined", "-o", exe] + objs + ["-lpthread"])
    if r.returncode: r = sh(["clang++", "-fsanitize=address,undefined", "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy", "-o", exe] + objs + ["-lpthread"])
    if r.returncode: return None, r.stdout
    try:
        t = sh([exe, "--selftest", "-"], timeout=60)
        if "VP-SELFTEST" not in t.stdout: return None, "native replay program does not start: " + t.stdout[-800:]
    except subprocess.TimeoutExpired: return None, "native replay program hangs at start"
    return exe, None

def write_values(path, cid, entry, pars, real, syms, note=""):
    with open(path, "w") as f:
        f.write("# property %s, entry %s\n# %s\n# run: python3 %s/run.py --replay %s\nc %s\ne %s\n" % (cid, entry, note.replace("\n", " "), HERE, path, cid, entry))
        if real: f.write("r\n")
        for p in pars: f.write("p %s\n" % p)
        for s in syms: f.write("v %s %s   # %s\n" % (s[1], s[2], s[0]))

def run_native(exe, entry, vfile, limit=20, fill=190):
    """-> (status, text): completed / assert / terminate / crash / timeout / assume / diverged"""
    d = tempfile.mkdtemp(prefix="vpreplay")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:hard_rss_limit_mb=4000:max_malloc_fill_size=1048576:malloc_fill_byte=%d:allocator_may_return_null=0" % fill, UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
    try:
        try: r = sh([exe, entry, vfile], timeout=limit, cwd=d, env=env)
        except subprocess.TimeoutExpired as e: return "timeout", "did not terminate within %d s" % limit
    finally: shutil.rmtree(d, ignore_errors=True)
    c = r.returncode; t = r.stdout[-3000:]
    st = {0: "completed", 42: "assert", 43: "terminate", 77: "assume", 78: "diverged", 2: "error"}.get(c, "crash")
    if c == 0 and "VP-COMPLETED" not in t: st = "crash"
    return st, t

def merge(o):
    d = json.load(open(o))
    if "parts" not in d: return d
    parts = [o + ".partmain"] + [o + ".part%d" % i for i in range(d["parts"])]
    res = None; bad = d["bad"]
    for p in parts:
        try: x = json.load(open(p))
        except Exception: bad += 1; continue
        if res is None: res = x; res["states_left"] = 0; continue
        for k in ("paths", "forks", "asserts", "asserts_symbolic", "insts", "assume_cut", "states_left", "cache_hits", "domain_decided", "model_reuse"): res[k] += x[k]
        for k in ("queries", "sat", "unsat", "unknown", "time"): res["z3"][k] += x["z3"][k]
        res["z3"]["max"] = max(res["z3"]["max"], x["z3"]["max"]); res["max_depth"] = max(res["max_depth"], x["max_depth"]); res["time"] = max(res["time"], x["time"])
        res["timed_out"] = res["timed_out"] or x["timed_out"]
        for k in ("unsupported", "unknown", "reached"):
            for a, b in x[k].items(): res[k][a] = res[k].get(a, 0) + b
        res["functions"] = sorted(set(res["functions"]) | set(x["functions"])); res["errors"] += x["errors"]; res["samples"] = (res["samples"] + x["samples"])[:8]
    if bad: res["unsupported"]["worker process lost"] = bad
    return res

def known_findings(cid):
    r = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == cid: r.append((m.group(2), m.group(3)))
    except FileNotFoundError: pass
    return r

def check(cid, tier, seed):
    spec = parse_spec(cid); tmp = tempfile.mkdtemp(prefix="vp" + cid + "_"); rdir = EVID + "/replay"; os.makedirs(rdir, exist_ok=True)
    for f in glob.glob("%s/%s_*" % (rdir, cid)): os.remove(f)
    ev = dict(property=cid, tier=tier, seed=seed, level="model_checking", coverage={}, wall_s=0, violations=0)
    try:
        with ThreadPoolExecutor(4) as ex:
            fe = ex.submit(build_engine); fm = ex.submit(build_models)
            models = fm.result(); fi = ex.submit(compile_ir, cid, spec, tmp, models)
            exe = fe.result(); bc, skipped, fatal = fi.result()
        if fatal:
            print("ERROR property=%s %s" % (cid, fatal[:4000])); return 2
        log("compiled")
        fn_native = ThreadPoolExecutor(1).submit(compile_native, cid, spec, tmp)
        runs = []
        for e in spec["entries"]:
            ps = e.get(tier) if tier == "thorough" and e.get("thorough") is not None else e.get("quick")
            if ps is None and "quick" not in e and tier == "quick" and "thorough" in e: continue
            for p in params(ps or ""): runs.append((e, p))
        dt = 150 if tier == "quick" else 3000
        def one(i):
            e, p = runs[i]; o = "%s/out%d.json" % (tmp, i); lim = float(e["time"] or dt)
            if tier == "thorough": lim = max(lim * 20, dt)
            cmd = [exe, bc, "--entry", e["entry"], "--out", o, "--time", str(lim), "--inst", str(e["inst"]), "--repo", REPO + "/", "--seed", str(seed), "--qtimeout", "20000" if tier == "quick" else "120000"]
            j = int(e["jobs"]); 
            if j > 1: cmd += ["-j", str(j)]
            if e["real"]: cmd.append("--real")
            for x in p: cmd += ["--param", x]
            t = time.time()
            try: r = sh(cmd, timeout=lim + 120); txt = r.stdout; rc = r.returncode
            except subprocess.TimeoutExpired: txt = "engine did not stop"; rc = -1
            log("%s %s: rc %d, %.1fs %s" % (e["entry"], p, rc, time.time() - t, txt[:500]))
            try: return i, merge(o), txt
            except Exception as ex: return i, None, txt
        results = [None] * len(runs); engine_fail = []
        with ThreadPoolExecutor(NCPU) as ex:
            for i, d, txt in ex.map(one, range(len(runs))):
                results[i] = d
                if d is None: engine_fail.append("%s: %s" % (runs[i][0]["entry"], txt[-300:]))
        native, nerr = fn_native.result(); log("native build", "ok" if native else nerr[:500])
        viol, unconf, known = [], [], known_findings(cid); kseen = {}; validated = 0; divergences = []; k = 0; samples = []; tr = time.time()
        for (e, p), d in zip(runs, results):
            if d is None: continue
            for x in d["errors"]:
                if len(viol) >= 8 or (viol and time.time() - tr > 60) or time.time() - tr > 400: break # enough is confirmed
                k += 1; vf = "%s/%s_%03d.txt" % (rdir, cid, k); note = "%s: %s at %s" % (x["kind"], x["msg"], x["where"])
                write_values(vf, cid, e["entry"], p, e["real"], x["syms"], note)
                if not native: unconf.append(dict(note=note, why="native build failed")); continue
                st, txt = run_native(native, e["entry"], vf)
                if st == "completed" and (x["hidden"] or "uninit" in x["msg"]):
                    for fill in (0, 1, 255):
                        st, txt = run_native(native, e["entry"], vf, fill=fill)
                        if st not in ("completed", "assume", "diverged"): break
                x["native"] = st
                if st in ("assert", "terminate", "crash", "timeout"):
                    m = [kf for kf in known if kf[0] in ("%s|%s" % (e["entry"], x["msg"])).replace(" ", "_")]
                    if m: kseen[m[0]] = kseen.get(m[0], 0) + 1; continue
                    with open(vf, "a") as f: f.write("\n".join("# native: " + l for l in txt.splitlines()[:40]) + "\n")
                    viol.append((vf, note, st))
                else:
                    unconf.append(dict(note=note, native=st, syms=x["syms"][:40])); log("unconfirmed:", note, st, x["syms"][:20], x["stack"][:600])
            # cross-validation: completed symbolic paths must complete natively as well
            for s in d.get("samples", [])[: 6 if tier == "quick" else 20]:
                if not native or len(viol) >= 8 or (viol and time.time() - tr > 60) or time.time() - tr > 500: break
                vf = "%s/s.txt" % tmp; write_values(vf, cid, e["entry"], p, e["real"], [("", a, b) for a, b in s])
                st, txt = run_native(native, e["entry"], vf)
                if st == "completed": validated += 1
                else:
                    divergences.append("%s %s: engine completed, native %s: %s" % (e["entry"], p, st, txt[-200:])); log("divergence", divergences[-1], s)
                    if st in ("assert", "terminate", "crash", "timeout"):
                        k += 1; vf2 = "%s/%s_%03d.txt" % (rdir, cid, k); shutil.copy(vf, vf2); viol.append((vf2, "native run of an explored path fails: " + txt[-200:], st))
                if len(samples) < 12: samples.append(dict(entry=e["entry"], params=p, inputs=[int(b) for a, b in s][:40], outcome=st))
        ok = [(r, d) for r, d in zip(runs, results) if d is not None]
        tot = lambda f: sum(f(d) for _, d in ok)
        reached = {}
        for _, d in ok:
            for a, b in d["reached"].items(): reached[a] = reached.get(a, 0) + b
        unsup, unk = {}, {}
        for _, d in ok:
            for a, b in d["unsupported"].items(): unsup[a] = unsup.get(a, 0) + b
            for a, b in d["unknown"].items(): unk[a] = unk.get(a, 0) + b
        decl = set(y for x in re.findall(r'vp_reach\(([^;]*)\);', open(spec["path"]).read()) for y in re.findall(r'"([^"]+)"', x.split(" : ")[0] + x) )
        vacuous = [x for x in sorted(decl) if x not in reached]
        ev["violations"] = len(viol)
        ev["coverage"] = dict(
            states=tot(lambda d: d["paths"]), transitions=tot(lambda d: d["forks"]), traces_validated_against_impl=validated, samples=samples or [dict(note="no completed path sampled (exact real mode or no path)")],
            exhaustive=bool(ok) and not engine_fail and not unconf and all(not d["timed_out"] and not d["states_left"] and not d["unsupported"] and not d["unknown"] for _, d in ok),
            explanation="states = symbolic paths explored to their end, transitions = symbolic forks; every assertion on every path is decided by Z3 over all values within the bounds",
            bounds=spec["bounds"], functions_encoded=sorted(set(f for _, d in ok for f in d["functions"])), instructions=tot(lambda d: d["insts"]),
            assertions_checked=tot(lambda d: d["asserts"]), assertions_symbolic=tot(lambda d: d["asserts_symbolic"]),
            solver=dict(name="Z3 4.8.12", queries=tot(lambda d: d["z3"]["queries"]), sat=tot(lambda d: d["z3"]["sat"]), unsat=tot(lambda d: d["z3"]["unsat"]), unknown=tot(lambda d: d["z3"]["unknown"]), seconds=round(tot(lambda d: d["z3"]["time"]), 3), cache_hits=tot(lambda d: d["cache_hits"])),
            entries=[dict(entry=e["entry"], params=p, real_arithmetic=e["real"], paths=d["paths"], forks=d["forks"], queries=d["z3"]["queries"], solver_s=round(d["z3"]["time"], 3), wall_s=round(d["time"], 2), complete=not d["timed_out"] and not d["states_left"] and not d["unsupported"] and not d["unknown"], states_left=d["states_left"]) for (e, p), d in ok],
            reach_witnesses=reached, unreached_witnesses=vacuous, unsupported=unsup, solver_unknown=unk, engine_failures=engine_fail, unconfirmed_counterexamples=unconf[:20], skipped_sources=skipped)
        ev["assumptions"] = spec["assume"] + ["bounds as listed; behaviour outside them is not explored", "LLVM IR of clang -O1 represents the source; C/C++ runtime modelled in rt/models.cpp and stubs/", "counterexamples count only when they reproduce natively on the real code"]
        ev["wall_s"] = round(time.time() - T0, 2)
        for kf, n in kseen.items(): print("KNOWN-FINDING: property=%s %s" % (cid, kf[1]))
        json.dump(ev, open("%s/%s.json" % (EVID, cid), "w"), indent=1)
        c = ev["coverage"]
        print("%s %s: %d paths, %d assertions (%d symbolic), %d solver queries (%.1f s), %d native replays, complete=%s, %.1f s" % (cid, tier, c["states"], c["assertions_checked"], c["assertions_symbolic"], c["solver"]["queries"], c["solver"]["seconds"], validated, c["exhaustive"], ev["wall_s"]))
        for x, y in list(unsup.items())[:5]: print("  unsupported: %s (%d)" % (x, y))
        for x, y in list(unk.items())[:5]: print("  solver unknown: %s (%d)" % (x, y))
        for x in unconf[:5]: print("  unconfirmed counterexample: %s native=%s" % (x["note"], x.get("native", x.get("why"))))
        for x in engine_fail[:5]: print("  engine failure: %s" % x)
        if viol:
            for vf, note, st in viol[:10]: print("VIOLATION property=%s replay=%s   (%s; native: %s)" % (cid, vf, note, st))
            return 1
        if vacuous: print("  never reached: %s" % ", ".join(vacuous))
        if not ok or c["assertions_checked"] == 0 or ( decl and len(vacuous) == len(decl) ) or not native:
            print("ERROR property=%s nothing was decided%s" % (cid, "" if native else " (native build failed: %s)" % nerr[:1500])); return 2
        return 0
    finally:
        if os.environ.get("VP_KEEP"): print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

def replay(f):
    t = open(f).read(); cid = re.search(r"^c (\S+)", t, re.M).group(1); entry = re.search(r"^e (\S+)", t, re.M).group(1)
    tmp = tempfile.mkdtemp(prefix="vpr_")
    try:
        exe, err = compile_native(cid, parse_spec(cid), tmp)
        if not exe: print(err); return 2
        st, txt = run_native(exe, entry, os.path.abspath(f)); print(txt); print("outcome:", st); return 0 if st == "completed" else 1
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if "-v" in a: VERB = True; a.remove("-v")
    if a and a[0] == "--setup":
        build_engine(); build_models(); print("engine built"); sys.exit(0)
    if a and a[0] == "--replay": sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    sys.exit(check(a[0], tier, int(os.environ.get("VERIF_SEED", "1"))))
