#!/usr/bin/env python3
"""Driver of one property's check: builds the engine and the property's harnesses from
/repo's current tree, runs every case symbolically, replays every solver model against
the real code, validates path witnesses, writes evidence/<id>.json.
usage: run.py <PROPERTY> [--case GLOB] [--keep]"""
import sys, os, re, json, glob, time, hashlib, subprocess, signal, fnmatch, threading, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
NCPU = os.cpu_count() or 8
CLANG = "clang++"
BASEFL = ["-std=c++17", "-O1", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_ASSERTIONS", "-w",
          f"-I{REPO}/mml", f"-I{REPO}", f"-I{V}/engine", f"-I{V}/harness"]

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def must(cmd, **k):
    r = sh(cmd, **k)
    if r.returncode != 0:
        print("BUILD FAILED:", cmd[0], cmd[-3]); print("\n".join([l[:220] for l in r.stdout.splitlines() if "error" in l][:6]) or r.stdout[:800]); sys.exit(2)

def engine():
    src = [f"{V}/engine/{f}" for f in ("SymPass.cpp", "rt.cpp", "cas.h", "native.cpp")]
    h = hashlib.sha256(b"v3" + b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    d = f"{V}/build/engine-{h}"
    if os.path.exists(d + "/ok"): return d
    t = tempfile.mkdtemp(prefix="eng", dir=mk(f"{V}/build"))
    cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).replace("-fno-exceptions", "").split()
    cxx = [c for c in cxx if not c.startswith("-std")]
    jobs = [[CLANG, "-shared", "-fPIC", "-O1", "-std=c++17", *cxx, "-fno-rtti", src[0], "-o", t + "/SymPass.so"],
            ["g++", "-O2", "-w", "-std=c++17", "-D_GLIBCXX_ASSERTIONS", "-c", f"-I{Z3}/include", src[1], "-o", t + "/rt.o"],
            [CLANG, "-O1", "-w", "-std=c++17", "-c", src[3], "-o", t + "/native.o"]]
    with ThreadPoolExecutor(3) as ex: list(ex.map(must, jobs))
    # keep the runtime's own instantiations of std templates apart from the instrumented ones of the harness
    must(["ld", "-r", "--force-group-allocation", t + "/rt.o", "-o", t + "/rt1.o"])
    keep = [l.split()[-1] for l in subprocess.check_output(["nm", "--defined-only", "-g", t + "/rt1.o"], text=True).splitlines() if re.match(r"_?_?sym", l.split()[-1])]
    open(t + "/keep", "w").write("\n".join(keep)); must(["objcopy", "--keep-global-symbols=" + t + "/keep", t + "/rt1.o", t + "/rt.o"])
    open(t + "/ok", "w").close()
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    return d

def mk(d): os.makedirs(d, exist_ok=True); return d

def meta(path):
    m = {"BOUNDS": [], "STUBS": [], "FLAGS": [], "OUTSIDE": []}
    for l in open(path):
        g = re.match(r"//\s*(BOUNDS|STUBS|FLAGS|OUTSIDE):\s*(.*)", l)
        if g: m[g.group(1)].append(g.group(2).strip())
    return m

class Harness:
    def __init__(s, path, eng, work):
        s.path = path; s.name = os.path.basename(path)[:-4]; s.meta = meta(path); s.fl = " ".join(s.meta["FLAGS"]).split()
        s.sym = f"{work}/{s.name}.sym"; s.nat = f"{work}/{s.name}.nat"; s.fnl = f"{work}/{s.name}.fns"; s.dep = f"{work}/{s.name}.d"; s.eng = eng
    def build_sym(s):
        env = dict(os.environ, SYM_FNLIST=s.fnl)
        must([CLANG, *BASEFL, *s.fl, f"-fpass-plugin={s.eng}/SymPass.so", "-MMD", "-MF", s.dep, "-c", s.path, "-o", s.sym + ".o"], env=env)
        must(["g++", s.sym + ".o", f"{s.eng}/rt.o", "-o", s.sym, "-pthread", "-lstdc++", f"-L{Z3}/lib", "-lz3", f"-Wl,-rpath,{Z3}/lib", "-lgmpxx", "-lgmp"])
    def build_nat(s):
        must([CLANG, *BASEFL, "-DSYM_NATIVE", *s.fl, "-c", s.path, "-o", s.nat + ".o"])
        must([CLANG, s.nat + ".o", f"{s.eng}/native.o", "-o", s.nat, "-pthread"])

def run_native(h, case, rep, search=None, tmo=10):
    env = dict(os.environ, REPLAY=rep)
    if search is not None: env["REPLAY_SEARCH"] = str(search)
    try:
        r = subprocess.run([h.nat, case], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=tmo, errors="replace", cwd=os.path.dirname(h.nat))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""

def write_model(path, h, case, label, m):
    with open(path, "w") as f:
        f.write(f"# harness {h.name}.cpp case {case} violated: {label}\n# replay: REPLAY={path} <native build of the harness> {case}\n")
        for n, v, k, w in m["inputs"]: f.write(f"i {n} {v}\n")
        for n, a, v in m["fns"]: f.write(f"f {n} {len(a)} {' '.join(a)} {v}\n")

def failed(rc, outp, label):
    fails = [l[5:] for l in outp.splitlines() if l.startswith("FAIL ")]
    if rc == "timeout": return "no termination" if label.startswith("no termination") else None
    if isinstance(rc, int) and rc < 0: return f"crash: signal {-rc}"
    if label in fails: return label
    return fails[0] if fails else None

class Check:
    def __init__(s, pid, tier, caseglob):
        s.pid = pid; s.tier = tier; s.t0 = time.time(); s.seed = int(os.environ.get("VERIF_SEED", "1"))
        s.work = tempfile.mkdtemp(prefix=f"w-{pid}-", dir=mk(f"{V}/build")); s.rep = mk(f"{V}/evidence/replays")
        for f in glob.glob(f"{s.rep}/{pid}-*"): os.unlink(f)
        s.caseglob = caseglob; s.lock = threading.Lock(); s.viol = []; s.known = []; s.results = []; s.procs = set(); s.stop = False; s.unconf = []
        s.samples = []; s.validated = 0; s.mismatch = []; s.kf = []
        for l in open(f"{V}/known_findings.txt") if os.path.exists(f"{V}/known_findings.txt") else []:
            g = re.match(r"open: property=(\S+) case=(\S+) label=\"([^\"]*)\" (.*)", l)
            if g and g.group(1) == pid: s.kf.append((g.group(2), g.group(3), g.group(4).strip()))
    def run_case(s, h, case, jobs, budget):
        if s.stop: return None
        out = f"{s.work}/{h.name}-{case}.json"
        env = dict(os.environ, SYM_OUT=out, SYM_JOBS=str(jobs), SYM_DEADLINE=str(budget), SYM_SAMPLES="3" if s.tier == "quick" else "8")
        t = time.time()
        p = subprocess.Popen([h.sym, case], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, start_new_session=True, cwd=s.work)
        with s.lock: s.procs.add(p)
        hung = False
        try: p.wait(budget + 25)
        except subprocess.TimeoutExpired:
            hung = True
            try: os.killpg(p.pid, signal.SIGTERM)
            except OSError: pass
            try: p.wait(15)
            except subprocess.TimeoutExpired: pass
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
        with s.lock: s.procs.discard(p)
        R = {"case": f"{h.name}:{case}", "wall_s": round(time.time() - t, 2), "summary": None, "undecided": [], "unsupported": [], "aborts": 0, "hung": hung}
        viol, samples = [], []
        for l in open(out, errors="replace") if os.path.exists(out) else []:
            try: j = json.loads(l)
            except ValueError: continue
            k = j.get("t")
            if k == "violation": viol.append(j)
            elif k == "reduced": R["undecided"].append({"label": j["label"], "pinned_unsat": j["pinned_unsat"], "tried": j["tried"]})
            elif k == "unsupported": R["unsupported"].append(j["what"])
            elif k == "abort": R["aborts"] += 1
            elif k == "sample": samples.append(j)
            elif k == "z3error": R["unsupported"].append("z3: " + j["msg"])
            elif k == "summary": R["summary"] = j
        # replay solver models on the real code
        per = {}
        for v in viol:
            if not v["models"]: R["undecided"].append({"label": v["label"], "note": "no model"}); continue
            per.setdefault(v["label"], []).append(v)
        for label, vs in per.items():
            conf = False
            kn = [k for k in s.kf if fnmatch.fnmatch(case, k[0]) and k[1] == label]
            n = 0
            for v in vs[:12]:
                for m in v["models"]:
                    n += 1; rp = f"{s.rep}/{s.pid}-{case}-{re.sub('[^A-Za-z0-9]+', '_', label)[:40]}-{n}.txt"
                    write_model(rp, h, case, label, m)
                    rc, o = run_native(h, case, rp); f = failed(rc, o, label)
                    if f: conf = True; s.report(h, case, label, rp, f, kn); break
                    os.unlink(rp)
                if conf: break
            if not conf:
                # the model involves terms the encoding leaves open (e.g. sin/cos values): concretise around it
                fp_case = any(i[2] == 2 for v in vs for m in v["models"] for i in m["inputs"])
                for att in range(0 if fp_case else 240):
                    v = vs[att % len(vs)]; m = v["models"][att % len(v["models"])]
                    rp = f"{s.rep}/{s.pid}-{case}-{re.sub('[^A-Za-z0-9]+', '_', label)[:40]}-s.txt"
                    write_model(rp, h, case, label, m)
                    rc, o = run_native(h, case, rp, search=att + 1, tmo=5)
                    fails = [l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
                    if rc == 1 and label in fails:
                        used = [l.split()[1:] for l in o.splitlines() if l.startswith("USED ")]
                        m2 = {"inputs": [(u[0], u[1] if len(u) > 1 else "0", 0, 0) for u in used], "fns": m["fns"]}
                        write_model(rp, h, case, label, m2); rc, o = run_native(h, case, rp)
                        f = failed(rc, o, label)
                        if f: conf = True; s.report(h, case, label, rp, f, kn); break
                    if s.stop: break
                else:
                    pass
                if not conf:
                    if os.path.exists(rp): os.unlink(rp)
                    R["undecided"].append({"label": label, "note": f"solver model did not reproduce on the real code ({len(vs)} paths)"})
        # translator validation on path witnesses
        for n, j in enumerate(samples):
            if not j["obs"]: continue
            rp = f"{s.work}/{h.name}-{case}-sample{n}.txt"; write_model(rp, h, case, "-", j)
            rc, o = run_native(h, case, rp)
            got = {}
            for l in o.splitlines():
                if l.startswith("OBS "): a, b = l[4:].split("\t"); got.setdefault(a, []).append(float(b))
            ok = True; bad = None; cnt = 0; seen = {}
            for lab, val in j["obs"]:
                i = seen.get(lab, 0); seen[lab] = i + 1; x = float(val)
                # symbolic and concrete observations are emitted in separate groups: match by value
                c = got.get(lab, [])
                if not any((g == x) or (g != g and x != x) or abs(g - x) <= 1e-6 * (1 + abs(x)) for g in c): ok = False; bad = (lab, val, c[:4])
                cnt += 1
            with s.lock:
                if ok and cnt: s.validated += 1
                elif cnt: s.mismatch.append({"case": case, "obs": bad, "inputs": [(i[0], i[1]) for i in j["inputs"]][:12]})
                if len(s.samples) < 6: s.samples.append({"case": f"{h.name}:{case}", "inputs": {i[0] + ("" if True else ""): i[1] for i in j["inputs"][:16]}, "callbacks": j["fns"][:6], "observed": j["obs"][:6], "native_agrees": ok})
        if not os.environ.get("KEEP"):
            try: os.unlink(out)
            except OSError: pass
        return R
    def report(s, h, case, label, rp, f, kn):
        with s.lock:
            if kn: s.known.append(f"KNOWN-FINDING: property={s.pid} {kn[0][2]} [{case}: {label}]"); return
            s.viol.append((label, rp, f"{h.name}:{case}: {label} ({f})")); s.stop = True
            for p in s.procs:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
    def main(s):
        eng = engine()
        hs = [Harness(p, eng, s.work) for p in sorted(glob.glob(f"{V}/harness/{s.pid}*.cpp"))]
        if not hs: print("no harness"); return 2
        quick = s.tier == "quick"
        total = float(os.environ.get("VERIF_BUDGET", 75 if quick else 700)); per = float(os.environ.get("VERIF_CASE", 35 if quick else 300))
        pool = ThreadPoolExecutor(NCPU); natf = {h: None for h in hs}
        syms = {pool.submit(h.build_sym): h for h in hs}; natf = {h: pool.submit(h.build_nat) for h in hs}
        tasks = []
        for f in list(syms):
            try: f.result()
            except SystemExit: os._exit(2)
        for h in hs:
            r = sh([h.sym]); 
            for l in r.stdout.split("\n"):
                if not l.strip(): continue
                c, t = l.split()
                if int(t) > (0 if quick else 1): continue
                if s.caseglob and not fnmatch.fnmatch(c, s.caseglob): continue
                tasks.append((h, c))
        for f in natf.values():
            try: f.result()
            except SystemExit: os._exit(2)
        s.build_s = time.time() - s.t0
        jobs = max(1, min(8, (NCPU * 3 // 2) // max(1, len(tasks)) + 1))
        t1 = time.time(); pool2 = ThreadPoolExecutor(min(NCPU, len(tasks) or 1)); fs = []
        def go(h, c):
            rem = total - (time.time() - t1)
            return s.run_case(h, c, jobs, max(6.0, min(per, rem)))
        fs = [pool2.submit(go, h, c) for h, c in tasks]
        for f in as_completed(fs):
            try: r = f.result()
            except Exception as e: r = {"case": "?", "summary": None, "undecided": [], "unsupported": [repr(e)], "aborts": 0, "hung": False, "wall_s": 0}
            if r: s.results.append(r)
        return s.finish(hs, len(tasks))
    def finish(s, hs, ntasks):
        tot = {}
        keys = ["paths", "pathsEnded", "decisions", "queries", "unknown", "checks", "chkSolver", "chkNorm", "violations", "truncated", "unsupported", "infeasible", "reduced", "aborted", "crashes", "ivDecided", "solver_us"]
        for r in s.results:
            for k in keys: tot[k] = tot.get(k, 0) + ((r["summary"] or {}).get(k, 0))
        fns, files = set(), set()
        for h in hs:
            if os.path.exists(h.fnl): fns.update(x.strip() for x in open(h.fnl))
            if os.path.exists(h.dep): files.update(x for x in open(h.dep).read().replace("\\\n", " ").split() if x.startswith(REPO + "/mml"))
        dem = subprocess.run(["c++filt"], input="\n".join(sorted(fns)), text=True, stdout=subprocess.PIPE).stdout.split("\n")
        mmlf = sorted({re.sub(r"\[abi:\w+\]", "", d) for d in dem if "MML::" in d and not d.startswith("std::") and not d.startswith("void std::") and "symcase" not in d})
        cases = []
        vac = 0
        for r in sorted(s.results, key=lambda r: r["case"]):
            m = r["summary"] or {}
            c = {"case": r["case"], "wall_s": r["wall_s"], **{k: m.get(k, 0) for k in ("pathsEnded", "decisions", "checks", "chkNorm", "chkSolver", "queries")}, "solver_s": round(m.get("solver_us", 0) / 1e6, 2), "reach": m.get("reach", {})}
            st = "complete"
            if not m or m.get("truncated") or r["aborts"] or r["unsupported"] or r["hung"]: st = "partial"; c["truncated_paths"] = m.get("truncated", 0)
            if r["unsupported"]: c["not_encoded"] = sorted(set(r["unsupported"]))[:5]
            if r["undecided"]: c["undecided"] = r["undecided"][:6]; c["undecided_count"] = len(r["undecided"])
            if not m.get("checks"): st = "vacuous"; vac += 1
            c["status"] = st; cases.append(c)
        und = sum(len(r["undecided"]) for r in s.results)
        bounds = [b for h in hs for b in h.meta["BOUNDS"]]; stubs = [b for h in hs for b in h.meta["STUBS"]]; outside = [b for h in hs for b in h.meta["OUTSIDE"]]
        cov = {"states": tot.get("pathsEnded", 0), "transitions": tot.get("decisions", 0), "traces_validated_against_impl": s.validated, "samples": s.samples or [{"cases": [c["case"] for c in cases]}],
               "rule": "states = feasible symbolic paths run to their end; transitions = symbolic branch conditions put to the solver; each sample is a path witness replayed on the native build",
               "obligations": tot.get("checks", 0), "discharged": tot.get("chkNorm", 0) + tot.get("chkSolver", 0),
               "discharged_by_solver_query": tot.get("chkSolver", 0), "discharged_by_algebraic_normal_form": tot.get("chkNorm", 0), "undecided": und,
               "solver_queries": tot.get("queries", 0), "solver_unknown": tot.get("unknown", 0), "branches_decided_by_interval_enclosure": tot.get("ivDecided", 0), "solver_s": round(tot.get("solver_us", 0) / 1e6, 2),
               "truncated_paths": tot.get("truncated", 0), "witness_mismatches": s.mismatch[:5], "witness_mismatch_count": len(s.mismatch), "functions_encoded_count": len(mmlf), "functions_encoded": [f[:160] for f in mmlf[:150]],
               "source_files_encoded": sorted(f[len(REPO) + 1:] for f in files), "bounds": bounds, "outside_the_claim": outside, "build_s": round(s.build_s, 1), "cases": cases}
        ev = {"property": s.pid, "tier": s.tier, "seed": s.seed, "level": "model_checking", "coverage": cov, "assumptions": stubs + ["Real mode: floating-point arithmetic is interpreted over the exact reals (rounding is outside the claim); violations are reported only when they reproduce in IEEE double arithmetic on the real code", "engine: LLVM pass, runtime and Z3 are trusted; path witnesses are replayed natively as a cross-check"],
              "wall_s": round(time.time() - s.t0, 2), "violations": len(s.viol)}
        mk(f"{V}/evidence"); json.dump(ev, open(f"{V}/evidence/{s.pid}.json", "w"), indent=1)
        if not os.environ.get("KEEP"): shutil.rmtree(s.work, ignore_errors=True)
        for k in sorted(set(s.known)): print(k)
        part = [c["case"] for c in cases if c["status"] != "complete"]
        print(f"{s.pid} {s.tier}: {len(cases)}/{ntasks} cases, {tot.get('pathsEnded',0)} paths, {tot.get('checks',0)} obligations ({tot.get('chkNorm',0)} normal form, {tot.get('chkSolver',0)} solver), undecided {und}, truncated {tot.get('truncated',0)}, {tot.get('queries',0)} queries {cov['solver_s']}s solver, validated {s.validated}/{s.validated+len(s.mismatch)} witnesses, {ev['wall_s']}s")
        if part: print("  partial:", " ".join(part[:20]))
        if os.environ.get("VERBOSE"):
            for c in cases:
                if os.environ["VERBOSE"] == "2" or c["status"] != "complete" or c.get("undecided") or c["wall_s"] > 15: print("   ", json.dumps(c))
            for m in s.mismatch[:8]: print("    MISMATCH", json.dumps(m))
        if s.viol:
            for l, rp, d in s.viol[:3]:
                print("  " + d); print(f"VIOLATION property={s.pid} replay={rp}")
            return 1
        if vac and vac == len(cases): print("vacuous"); return 2
        return 0

if __name__ == "__main__":
    a = sys.argv[1:]; cg = None
    if "--case" in a: i = a.index("--case"); cg = a[i + 1]; del a[i:i + 2]
    if a[0] == "setup": print(engine()); sys.exit(0)
    sys.stdout.reconfigure(line_buffering=True)
    rc = Check(a[0], os.environ.get("VERIF_TIER", "quick"), cg).main()
    sys.stdout.flush(); os._exit(rc)
