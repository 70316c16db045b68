#!/usr/bin/env python3
"""check.py ID [scenario ...]    decide property ID on /repo's current tree
   check.py --replay FILE        re-run a stored counterexample against the real code
   check.py --setup              build the engine and every object the checks use
Tier from VERIF_TIER (quick | thorough)."""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, BUILD, NCPU

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "0")) or (620 if TIER == "quick" else 6 * 3600)      # whole check
SCN_SECS = float(os.environ.get("VERIF_SCN", "0")) or (260 if TIER == "quick" else 3600)           # one scenario

def left(): return BUDGET - (time.time() - T0)

def options(pid):
    """// OPTIONS: words   and  // BOUNDS: text   lines of the harness."""
    opt, bounds = {}, []
    for l in open(f"{VERIF}/harness/{pid}.cpp"):
        m = re.match(r"//\s*OPTIONS:\s*(.*)", l)
        if m:
            for w in m.group(1).split():
                k, _, v = w.partition("="); opt[k] = v or "1"
        m = re.match(r"//\s*BOUNDS:\s*(.*)", l)
        if m: bounds.append(m.group(1).strip())
    return opt, bounds

def scenarios(binary):
    out = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True).stdout
    r = []
    for l in out.splitlines():
        n, _, f = l.partition("\t")
        if "thorough" in f and TIER != "thorough": continue
        r.append(n)
    return r

def explore(binary, scn, out, par):
    os.makedirs(out, exist_ok=True)
    secs = max(10, min(SCN_SECS, left() - 60))
    t = time.time()
    p = subprocess.Popen([binary, scn, out, str(int(secs)), str(par)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, cwd=out)
    try:
        o, _ = p.communicate(timeout=secs + 60)
    except subprocess.TimeoutExpired:
        o = ""
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    if p.poll() is None: p.wait()
    st = None
    for l in (o or "").splitlines():
        if l.startswith("{"):
            try: st = json.loads(l)
            except ValueError: pass
    r = {"scenario": scn, "stats": st, "fns": set(), "viol": [], "inconc": [], "wit": [], "notes": [], "wall": time.time() - t}
    try: log = open(f"{out}/{scn}.log", errors="replace").read().splitlines()
    except OSError: log = []
    for l in log:
        f = l.split("\t")
        if f[0] == "FN": r["fns"].add(f[1])
        elif f[0] == "VIOL" and len(f) >= 4: r["viol"].append((f[1], f[2], f[3].strip()))
        elif f[0] == "INCONC": r["inconc"].append(f[1])
        elif f[0] == "WITNESS": r["wit"].append((f[1].strip(), f[2] if len(f) > 2 else ""))
        elif f[0] == "NOTE": r["notes"].append(f[1])
    if st is None: r["inconc"].append("exploration did not finish: " + (o or "")[-200:].strip())
    return r

def native_run(binary, scn, inputs, d, tag, tmo=60):
    f = f"{d}/{tag}.in"
    open(f, "w").write(inputs + "\n")
    env = dict(os.environ); env["OPENBLAS_NUM_THREADS"] = "1"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77"; env["UBSAN_OPTIONS"] = "print_stacktrace=0"
    try:
        p = subprocess.run([binary, scn, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tmo, cwd=d, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def judge(kind, msg, rc, out):
    """did the native run show the violation?"""
    vs = [l[len("REPLAY-VIOLATION "):].strip() for l in out.splitlines() if l.startswith("REPLAY-VIOLATION ")]
    if "REPLAY-UNSUPPORTED" in out: return None
    if rc == "timeout": return ("timeout", "the real code does not return")  if kind == "hang" else None
    if isinstance(rc, int) and (rc < 0 or rc in (77, 134, 139)):
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*|terminate called[^\n]*)", out)
        return ("crash", f"the process dies ({rc}): " + (m.group(1) if m else out[-150:].strip()))
    if msg in vs: return ("assert", msg)
    if kind in ("exception", "crash") and vs: return ("assert", vs[0])
    for v in vs:      # another assertion of the same scenario fails on this input
        return ("assert", v)
    return None

def main(pid, only):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    opt, bounds = options(pid)
    asan = "asan" in opt; mem = "race" in opt
    known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"] if k["property"] == pid and k["status"] == "known"]
    e = vlib.engine()
    sym = vlib.build_harness(e, pid, "sym", mem=mem)
    natbox = {}
    def nat():
        try: natbox["bin"] = vlib.build_harness(e, pid, "nat", mem=mem, asan=asan)
        except Exception as x: natbox["err"] = str(x)
    tn = threading.Thread(target=nat); tn.start()
    names = [s for s in scenarios(sym) if not only or s in only]
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    res = []
    try:
        jobs = int(opt.get("jobs", "5")); par = int(opt.get("par", "3"))
        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda s: explore(sym, s, f"{scratch}/{s}", par), names))
        tn.join()
        if "err" in natbox: raise vlib.BuildError(natbox["err"])
        nb = natbox["bin"]
        # --- counterexamples: replay on the real code
        violations, knownhits, spurious = [], {}, []
        rdir = f"{VERIF}/replays/{pid}"
        seen = {}
        for r in res:
            groups = {}
            for kind, msg, inp in r["viol"]: groups.setdefault((kind, msg), []).append(inp)
            for (kind, msg), inps in groups.items():
                hit = None
                inps = sorted(set(inps), key=lambda s: (len(s), s))[:12]
                for i, inp in enumerate(inps):
                    rc, out = native_run(nb, r["scenario"], inp, scratch, f"v{i}")
                    j = judge(kind, msg, rc, out)
                    if j: hit = (inp, rc, out, j); break
                if not hit: spurious.append((r["scenario"], kind, msg, len(inps))); continue
                inp, rc, out, j = hit
                text = j[1]
                k = next((k for k in known if k["scenario"] == r["scenario"] and re.search(k["match"], text)), None)
                if k: knownhits[k["id"]] = k; continue
                if (r["scenario"], text) in seen: continue
                seen[(r["scenario"], text)] = 1
                os.makedirs(rdir, exist_ok=True)
                f = f"{rdir}/{r['scenario']}.{len(violations)}.json"
                json.dump({"property": pid, "scenario": r["scenario"], "kind": j[0], "what": text, "solver_assertion": msg, "inputs": inp, "native_exit": rc, "native_output": out[-4000:], "rerun": f"python3 {VERIF}/check.py --replay {f}"}, open(f, "w"), indent=1)
                violations.append((f, r["scenario"], text, inp))
        # --- witnesses: the symbolic semantics against the native build
        validated, mism = 0, []
        for r in res:
            for i, (inp, obs) in enumerate(r["wit"]):
                rc, out = native_run(nb, r["scenario"], inp, scratch, "w", 60)
                if "REPLAY-DROPPED" in out or "REPLAY-UNSUPPORTED" in out: continue
                if rc not in (0, 1): 
                    if not r["viol"]: mism.append((r["scenario"], "native run: exit %s %s" % (rc, out[-200:])))
                    continue
                got = dict(l[4:].split("=", 1) for l in out.splitlines() if l.startswith("OBS ") and "=" in l)
                exp = dict(t.split("=", 1) for t in obs.split() if "=" in t)
                bad = []
                for k, v in exp.items():
                    try: a, b = float(got.get(k, "nan")), float(v)
                    except ValueError: continue
                    if a != a and b != b: continue
                    if not abs(a - b) <= 1e-5 * max(1.0, abs(b)): bad.append(f"{k}: native {a} symbolic {b}")
                if bad and not r["viol"]: mism.append((r["scenario"], inp + " :: " + "; ".join(bad[:3])))
                elif not bad: validated += 1
        S = lambda k: sum((r["stats"] or {}).get(k, 0) for r in res)
        inconc = {r["scenario"]: sorted(set(r["inconc"]))[:6] for r in res if r["inconc"]}
        fns = set().union(*[r["fns"] for r in res]) if res else set()
        mainfns = sorted(f for f in fns if "std::" not in f.split("(")[0] and "::~" not in f)
        ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
              "coverage": {"states": S("paths"), "transitions": S("branches") + S("forks"), "traces_validated_against_impl": validated,
                           "samples": [{"scenario": r["scenario"], "path_model": r["wit"][0][0][:600], "observed": r["wit"][0][1][:400]} for r in res if r["wit"]][:6] or [{"scenario": n} for n in names[:3]],
                           "exhaustive": not inconc, "explored": "every feasible path of each scenario's code was executed symbolically; states = complete symbolic paths, transitions = branch decisions and case splits",
                           "functions_encoded": mainfns, "functions_encoded_count": len(mainfns), "bounds": bounds,
                           "queries": S("queries"), "queries_unsat": S("unsat"), "queries_sat": S("sat"), "queries_unknown": S("unknown"), "solver_seconds": round(S("solver_s"), 2),
                           "assertions": S("asserts"), "assertion_queries": S("assert_queries"), "assertions_by_normal_form": S("normal_form"), "regularity_assumptions": S("assumed"),
                           "scenarios": [{"name": r["scenario"], **{k: (r["stats"] or {}).get(k) for k in ("paths", "queries", "asserts", "solver_s", "inconclusive", "timeouts", "unsupported")}, "wall_s": round(r["wall"], 2)} for r in res],
                           "inconclusive": inconc, "candidates_not_reproduced": [list(map(str, s)) for s in spurious], "witness_mismatches": [list(m) for m in mism][:10],
                           "known_findings": sorted(knownhits)},
              "assumptions": ["real arithmetic: doubles are encoded as exact reals, violations smaller than 1e-6 are not reported (rounding is outside the bound)",
                              "regularity assumptions: in the regression harnesses a divisor is taken as nonzero and the argument of a root or logarithm as positive when a model of the path agrees (counted in regularity_assumptions); elsewhere both sides are explored",
                              "transcendental functions are uninterpreted with their sign, monotonicity and range axioms",
                              "LAPACK/BLAS entry points are replaced by exact algebraic models; the counterexample replay uses the real OpenBLAS"],
              "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
        json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
        print(f"{pid}: {len(names)} scenarios, {S('paths')} paths, {S('queries')} queries ({S('unsat')} unsat, {S('sat')} sat, {S('unknown')} unknown), {S('asserts')} assertions, solver {S('solver_s'):.1f}s, wall {time.time()-T0:.1f}s, {validated} witnesses validated")
        for s, l in inconc.items(): print(f"INCONCLUSIVE {s}: " + "; ".join(x[:160] for x in l))
        for s in spurious: print("NOT-REPRODUCED", *[str(x)[:200] for x in s])
        for m in mism[:10]: print("WITNESS-MISMATCH", m[0], m[1][:600])
        if "-v" in sys.argv:
            for r in sorted(res, key=lambda r: -r["wall"]): print("  ", r["scenario"], f"{r['wall']:.1f}s", {k: v for k, v in (r["stats"] or {}).items() if k in ("paths", "killed", "queries", "unknown", "asserts", "normal_form", "assumed", "assert_queries", "solver_s", "inconclusive", "timeouts", "unsupported")}, r["notes"][:3])
        for k in knownhits.values(): print(f"KNOWN-FINDING: property={pid} {k['what']}")
        for f, s, t, inp in violations:
            print(f"  {s}: {t}\n    inputs: {inp[:500]}")
            print(f"VIOLATION property={pid} replay={f}")
        return 1 if violations else 0
    finally:
        tn.join()
        if "-k" in sys.argv: print("scratch", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)

def replay(f):
    r = json.load(open(f)); pid = r["property"]; opt, _ = options(pid)
    e = vlib.engine(); nb = vlib.build_harness(e, pid, "nat", mem="race" in opt, asan="asan" in opt)
    d = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        rc, out = native_run(nb, r["scenario"], r["inputs"], d, "r")
        print(out)
        j = judge(r["kind"], r["what"], rc, out)
        print("reproduced: " + str(j[1]) if j else "not reproduced"); return 1 if j else 0
    finally: shutil.rmtree(d, ignore_errors=True)

def setup():
    e = vlib.engine(); s = vlib.repo_sources(); hs = sorted(f[:-4] for f in os.listdir(VERIF + "/harness") if re.match(r"[A-Z]\d+\.cpp$", f))
    want = {("sym", False, False), ("nat", False, False)}
    for h in hs:
        o, _ = options(h); want |= {("sym", "race" in o, False), ("nat", "race" in o, "asan" in o)}
    for m, mem, asan in sorted(want): vlib.compile_set(e, m, s, mem, asan)
    print("engine, instrumented and native objects built for", len(s), "sources;", len(hs), "harnesses")
    return 0

if __name__ == "__main__":
    try:
        a = [x for x in sys.argv[1:] if not (x.startswith("-") and not x.startswith("--"))]
        if a[0] == "--replay": sys.exit(replay(a[1]))
        if a[0] == "--setup": sys.exit(setup())
        sys.exit(main(a[0], a[1:]))
    except vlib.BuildError as x:
        print("BUILD-ERROR", x); sys.exit(2)
