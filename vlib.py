"""Build, run, replay and report: shared by all checks (see check.py)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = VERIF + "/engine"
BUILD = VERIF + "/build"
NCPU = os.cpu_count() or 4
CLANG = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"
DEFS = ["-DENABLE_MPI", "-DENABLE_OPENMP", "-DM_PI=3.14159265358979323846", "-DM_PI_2=1.57079632679489661923", "-DDOUBLE_EPS=1e-8", "-DDBL_MAX=__DBL_MAX__"]
INC = ["-I" + ENG, "-I" + ENG + "/include", "-I" + VERIF + "/harness", f"-I{REPO}/include", f"-I{REPO}/include/gwmodelpp", f"-I{REPO}/include/gwmodelpp/utils"]
ARMA_SYM = ["-DARMA_USE_LAPACK", "-DARMA_DONT_USE_BLAS", "-DARMA_DONT_USE_WRAPPER", "-DARMA_DONT_USE_OPENMP", "-DARMA_DONT_OPTIMISE_INVEXPR", "-DARMA_DONT_USE_ARPACK", "-DARMA_DONT_USE_SUPERLU"]
ARMA_NAT = ["-DARMA_USE_LAPACK", "-DARMA_USE_BLAS", "-DARMA_DONT_USE_WRAPPER", "-DARMA_DONT_USE_OPENMP", "-DARMA_DONT_USE_ARPACK", "-DARMA_DONT_USE_SUPERLU"]
BASE = ["-std=c++17", "-fopenmp", "-ffp-contract=off", "-w", "-D_GLIBCXX_ASSERTIONS"]

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def tree(d, pats):
    out = []
    for pat in pats: out += glob.glob(d + "/**/" + pat, recursive=True)
    return sorted(p for p in out if os.path.isfile(p))

def cached(key, suffix, make):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    dst = f"{BUILD}/obj/{key}{suffix}"
    if not os.path.exists(dst):
        tmp = f"{dst}.tmp{os.getpid()}{suffix}"
        make(tmp); os.replace(tmp, dst)
    return dst

def run_cc(cmd, env=None):
    rc, o = sh(cmd, env=env)
    if rc: raise BuildError(" ".join(cmd[:3]) + " ... failed:\n" + o[-3000:])

def engine():
    """SymPass.so, the runtimes and the Armadillo overlay."""
    e = {}
    src = tree(ENG, ["*.cpp", "*.h", "*.py"])
    k = digest(src, CLANG)
    def plugin(t):
        cfg = shutil.which("llvm-config-18") or "/usr/lib/llvm-18/bin/llvm-config"
        rc, fl = sh([cfg, "--cxxflags"]); run_cc([CLANG, "-O1", "-fPIC", "-shared", *fl.split(), ENG + "/SymPass.cpp", "-o", t])
    e["plugin"] = cached(digest([ENG + "/SymPass.cpp"]), ".so", plugin)
    ov = f"{BUILD}/overlay.{digest([ENG + '/mkoverlay.py'])}"
    if not os.path.exists(ov):
        rc, o = sh(["python3", ENG + "/mkoverlay.py", ov + f".tmp{os.getpid()}"])
        if rc: raise BuildError(o)
        try: os.rename(ov + f".tmp{os.getpid()}", ov)
        except OSError: pass
    e["overlay"] = ov
    jobs = {"rt": ("rt.cpp", ["g++", "-O2"]), "linalg": ("linalg.cpp", ["g++", "-O2"]), "par": ("par.cpp", [CLANG, "-O1"]), "parw": ("par.cpp", [CLANG, "-O1", "-DPAR_WRAP"]), "native": ("rt_native.cpp", [CLANG, "-O1"])}
    def one(n):
        f, cc = jobs[n]
        return n, cached(k + "-" + n, ".o", lambda t: run_cc([*cc, "-std=c++17", "-w", "-c", ENG + "/" + f, "-o", t]))
    with cf.ThreadPoolExecutor(5) as ex:
        for n, p in ex.map(one, jobs): e[n] = p
    e["key"] = k
    return e

def repo_sources():
    s = [p for p in tree(REPO + "/src/gwmodelpp", ["*.cpp"]) if "/cuda/" not in p and os.path.basename(p) not in ("CudaUtils.cpp", "cumat.cpp")]
    return s

def compile_set(e, mode, srcs, mem=False, asan=False, tag=""):
    """Compile srcs (repo and harness files); mode: sym or nat."""
    hdrs = tree(REPO + "/include", ["*.h", "*.hpp", "*"]) + [ENG + "/symla.h"] + tree(ENG + "/include", ["*.h"])
    hk = digest(set(hdrs)); hh = digest(set(tree(VERIF + "/harness", ["*.h"]) + [ENG + "/sym.h", ENG + "/par.h"]))
    fl = list(BASE)
    env = dict(os.environ); env.pop("SYM_MEM", None)
    if mode == "sym":
        fl += ["-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-fpass-plugin=" + e["plugin"], "-I" + e["overlay"], *ARMA_SYM]
        if mem: env["SYM_MEM"] = "1"
    else:
        fl += ["-O1", "-g1", *ARMA_NAT]
        if mem: fl += ["-fpass-plugin=" + e["plugin"], "-fno-vectorize", "-fno-slp-vectorize"]; env["SYM_MEM"] = "2"
        if asan: fl += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
    fl += DEFS + INC
    ek = mode + str(mem) + str(asan) + " ".join(fl) + hk + (e["overlay"] + e["plugin"] if mode == "sym" else e["plugin"] if mem else "")
    def one(s):
        return cached(digest([s], ek + (hh if s.startswith(VERIF) else "")), ".o", lambda t: run_cc([CLANG, *fl, "-c", s, "-o", t], env=env))
    with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, srcs))

def closure(objs, roots):
    """Objects reachable from roots by undefined symbols (keeps links and stubs small)."""
    defs, und = {}, {}
    for o in objs + roots:
        rc, t = sh(["nm", o]); d, u = set(), set()
        for l in t.splitlines():
            p = l.split()
            if len(p) >= 2 and p[-2] == "U": u.add(p[-1])
            elif len(p) >= 3 and p[-2] in "TDBRVWS": d.add(p[-1])
        und[o] = u
        for s in d: defs.setdefault(s, o) if o in objs else None
    need, todo = list(roots), list(roots)
    while todo:
        o = todo.pop()
        for s in und[o]:
            p = defs.get(s)
            if p and p not in need: need.append(p); todo.append(p)
    return need

GSL_LIBS = ["-lgsl", "-lgslcblas"]

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc"))]

def link(e, mode, objs, out, asan=False, mem=False):
    par = e["parw"] if mem else e["par"]; wrap = WRAP if mem else []
    if mode == "sym":
        libs = [e["rt"], e["linalg"], par]
        tail = [*wrap, "-lgmpxx", "-lgmp", *GSL_LIBS, "-lpthread"]
        # stub every symbol that stays undefined (LAPACK entry points outside the model)
        rc, o = sh([CLANG, *objs, *libs, *tail, "-o", out])
        if rc:
            miss = sorted(set(re.findall(r"undefined reference to [`']([A-Za-z0-9_]+)'", o)))
            bad = [l for l in o.splitlines() if "undefined reference" in l and re.search(r"`[^']*[:(]", l)]
            if not miss or bad: raise BuildError("link failed:\n" + o[-3000:])
            c = out + ".stubs.cpp"
            with open(c, "w") as f:
                f.write('#include "rt_api.h"\n')
                for m in miss: f.write(f'extern "C" void {m}() {{ rt_unsupported("{m}"); }}\n')
            run_cc([CLANG, "-w", "-I" + ENG, *objs, c, *libs, *tail, "-o", out])
    else:
        a = ["-fsanitize=address,undefined"] if asan else []
        run_cc([CLANG, *a, *objs, e["native"], par, *wrap, "-lopenblas", *GSL_LIBS, "-lpthread", "-lm", "-o", out])

def build_harness(e, name, mode, mem=False, asan=False):
    srcs = repo_sources(); h = f"{VERIF}/harness/{name}.cpp"
    objs = compile_set(e, mode, srcs + [h], mem, asan)
    need = closure(objs[:-1], [objs[-1]])
    d = f"{BUILD}/bin"; os.makedirs(d, exist_ok=True)
    out = f"{d}/{name}.{mode}{'.mem' if mem else ''}{'.asan' if asan else ''}.{digest(need, e['key'])[:12]}"
    if not os.path.exists(out):
        link(e, mode, need, out + f".tmp{os.getpid()}", asan, mem); os.replace(out + f".tmp{os.getpid()}", out)
    return out
