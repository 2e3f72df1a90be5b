#!/usr/bin/env python3
"""Driver: builds the engine and the bitcode of /repo's current tree, runs the
symbolic jobs of one property, replays counterexamples natively, writes evidence.

  run.py setup
  run.py check ID [--tier quick|thorough]
  run.py replay FILE
"""
import sys, os, json, subprocess, hashlib, time, shutil, tempfile, re, glob, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = shutil.which("clang-18") or shutil.which("clang")
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, V)
MAINS = ["main", "mainaudit", "maindiff", "audit-json", "cheader", "csource", "cmanpage", "javascript", "json", "nodejs", "rust", "sql", "sqldiff", "xliff"]
SKIP = {"test.c", "tests.c", "jsmn.c"}
UB = "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,vla-bound -fsanitize-trap=all".split()
CF = ("-O1 -g -fno-pic -fno-pie -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -U_FORTIFY_SOURCE "
      "-D__NO_CTYPE -fno-stack-protector -w -emit-llvm -c").split()
NF = "-O1 -g -w -fno-builtin -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D__NO_CTYPE -D_FORTIFY_SOURCE=0 -c".split()
HW = "-Wno-everything -Werror=incompatible-pointer-types -Werror=int-conversion -Werror=implicit-function-declaration".split()
WRAP = "malloc calloc realloc reallocarray strdup strndup asprintf vasprintf fprintf vfprintf printf puts putchar fputs fputc fwrite exit free".split()

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **k)

class Fail(Exception):
    pass

def hash_files(fs, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def engine():
    src = glob.glob(V + "/engine/*")
    d = f"{B}/engine-{hash_files(src)}"
    if not os.path.exists(d + "/vse"):
        os.makedirs(d, exist_ok=True)
        r = sh(["make", "-s", "-j8", "-C", V + "/engine", "B=" + d, d + "/vse"])
        if r.returncode:
            raise Fail("engine build failed:\n" + r.stderr[-3000:])
    return d + "/vse"

def repo_sources():
    cs = sorted(glob.glob(REPO + "/*.c"))
    return [c for c in cs if os.path.basename(c) not in SKIP], sorted(glob.glob(REPO + "/*.h"))

def defname(c):
    b = os.path.basename(c)[:-2]
    return ["-Dmain=main_" + b.replace("-", "_")] if b in MAINS else []

def run_all(cmds):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda c: (c, sh(c)), cmds))
    for c, r in rs:
        if r.returncode:
            raise Fail("compile failed: " + " ".join(c) + "\n" + r.stderr[-3000:])

_stage = None
def stage():
    """Copy the sources of the tree under test to a private directory, with the committed config.h."""
    global _stage
    if _stage is None:
        _stage = stage_()
    return _stage

def stage_():
    cs, hs = repo_sources()
    key = hash_files(cs + hs + [V + "/libc/config.h"])
    d = f"{B}/src-{key}"
    if not os.path.exists(d + "/.ok"):
        t = tempfile.mkdtemp(dir=B)
        for f in cs + hs:
            shutil.copy(f, t)
        shutil.copy(V + "/libc/config.h", t + "/config.h")
        open(t + "/.ok", "w").close()
        os.chmod(t, 0o755)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d, key

class locked:
    """One build at a time, also across processes."""
    def __enter__(self):
        import fcntl
        os.makedirs(B, exist_ok=True)
        self.f = open(B + "/.lock", "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def bitcode():
    with locked():
        return bitcode_()

def bitcode_():
    d, key = stage()
    o = f"{B}/bc-{hash_files([V + '/libc/vplibc.c', V + '/libc/vpexpat.c', V + '/harness/vp.h'], key + repr(CF) + repr(UB))}"
    if not os.path.exists(o + "/all.bc"):
        os.makedirs(o, exist_ok=True)
        cmds, outs = [], []
        for c in sorted(glob.glob(d + "/*.c")):
            bc = f"{o}/{os.path.basename(c)[:-2]}.bc"
            cmds.append([CLANG] + CF + ["-w"] + UB + defname(c) + ["-I" + d, c, "-o", bc]); outs.append(bc)
        cmds.append([CLANG] + CF + ["-w", "-I" + V + "/harness", V + "/libc/vplibc.c", "-o", o + "/vplibc.bc"]); outs.append(o + "/vplibc.bc")
        cmds.append([CLANG] + CF + ["-w", V + "/libc/vpexpat.c", "-o", o + "/vpexpat.bc"]); outs.append(o + "/vpexpat.bc")
        run_all(cmds)
        r = sh([LLVM + "llvm-link", "-o", o + "/all.tmp"] + outs)
        if r.returncode:
            raise Fail("link failed: " + r.stderr[-3000:])
        os.rename(o + "/all.tmp", o + "/all.bc")
    return o + "/all.bc", d

# ---- generated C ----
class GenFail(Exception):
    pass

GENCF = "-Dexit=gc_exit -Dabort=gc_abort -Dmalloc=gc_malloc -Dcalloc=gc_calloc -Dstrndup=gc_strndup -Dstrdup=gc_strdup".split()
def gen_files():
    return glob.glob(V + "/gen/*") + [V + "/gencc.py", V + "/gents.py"]

def oj_dir():
    """ort-json.ts of the tree under test, checked and translated to C."""
    src = REPO + "/ort-json.ts"
    if not os.path.exists(src):
        raise Fail("there is no ort-json.ts")
    o = f"{B}/oj-{hash_files([src, V + '/gen/ts2c.js', V + '/gen/jsrt.h', V + '/gen/tsstubs.d.ts'], '')}"
    if not os.path.exists(o + "/.ok"):
        os.makedirs(o, exist_ok=True)
        r = sh(["node", V + "/gen/ts2c.js", src, V + "/gen/tsstubs.d.ts", "ortJsonConfigFormat.toString", "lib.dom.d.ts"], timeout=120)
        if r.returncode == 4:
            raise GenFail("ort-json.ts does not compile: " + r.stderr[:3000])
        if r.returncode:
            raise Fail("ort-json.ts not translated: " + r.stderr[-3000:])
        open(o + "/oj.c", "w").write(r.stdout)
        open(o + "/.ok", "w").close()
    return o

def harness_inc(name):
    return ["-I" + oj_dir(), "-I" + V + "/gen"] if name == "ojson" else []

def gen_drv():
    d, key = stage()
    drv = f"{B}/drv-{hash_files([V + '/gen/drv.c'], key)}"
    if not os.path.exists(drv + "/drv"):
        os.makedirs(drv, exist_ok=True)
        skip = set(MAINS) - {"csource", "cheader", "nodejs"}
        cs = [c for c in sorted(glob.glob(d + "/*.c")) if os.path.basename(c)[:-2] not in skip]
        run_all([["gcc", "-O1", "-g", "-w", "-c"] + defname(c) + ["-I" + d, c, "-o", f"{drv}/{os.path.basename(c)[:-2]}.o"] for c in cs + [V + "/gen/drv.c"]])
        r = sh(["gcc", "-o", drv + "/drv.tmp"] + glob.glob(drv + "/*.o") + ["-lm"] + (["-lexpat"] if expat_ok() else []))
        if r.returncode:
            raise Fail("generator does not link: " + r.stderr[-3000:])
        os.rename(drv + "/drv.tmp", drv + "/drv")
    return drv + "/drv"

def ts_dir(name):
    """name is ts:SPEC: generate TypeScript with the tool of the tree under test, check its types, translate it to C, with the harness for it from the specification."""
    spec = f"{V}/corpus/gen/{name.split(':')[1]}.ort"; key = stage()[1]
    o = f"{B}/ts-{hash_files(gen_files() + [spec, V + '/harness/vp.h'], key + name)}"
    if os.path.exists(o + "/.ok"):
        return o
    os.makedirs(o, exist_ok=True)
    r = sh([gen_drv(), "nodejs", "-v", spec], timeout=60)
    if r.returncode:
        raise GenFail(f"ort-nodejs fails on {spec}: exit {r.returncode}: {r.stderr[-2000:]}")
    open(o + "/g.ts", "w").write(r.stdout)
    r = sh(["node", V + "/gen/ts2c.js", o + "/g.ts", V + "/gen/tsstubs.d.ts"], timeout=120)
    if r.returncode == 4:
        raise GenFail(f"TypeScript generated from {spec} does not compile: " + r.stderr[:3000])
    if r.returncode:
        raise Fail("TypeScript not translated: " + r.stderr[-3000:])
    open(o + "/ts.c", "w").write(r.stdout)
    r = sh([sys.executable, V + "/gents.py", spec])
    if r.returncode:
        raise Fail("harness generator failed: " + r.stderr[-3000:])
    open(o + "/h.c", "w").write(r.stdout)
    r = sh(["gcc", "-fsyntax-only", "-w", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-I" + o, "-I" + V + "/gen", "-I" + V + "/harness", o + "/h.c"])
    if r.returncode:
        raise Fail("TypeScript uses what is not modelled: " + r.stderr[:3000])
    open(o + "/.ok", "w").close()
    return o

def gen_dir(name):
    """name is gen:SPEC[:FLAGS]: generate C with the tools of the tree under test, and the harness for it from the specification."""
    sp = name.split(":"); spec = f"{V}/corpus/gen/{sp[1]}.ort"; flags = sp[2:]
    key = stage()[1]
    o = f"{B}/gen-{hash_files(gen_files() + [spec, V + '/harness/vp.h'], key + name)}"
    if os.path.exists(o + "/.ok"):
        return o
    os.makedirs(o, exist_ok=True)
    drv = gen_drv()
    share = o + "/share"; os.makedirs(share, exist_ok=True)
    for f in ("jsmn.c", "b64_ntop.c"):
        if os.path.exists(REPO + "/" + f):
            shutil.copy(REPO + "/" + f, share)
    for tool, args, out in (("cheader", ["-vjJ"] + flags, "g.h"), ("csource", ["-S", share, "-vjJ", "-h", "g.h"], "g.c")):
        r = sh([drv, tool] + args + [spec], timeout=60)
        if r.returncode:
            raise GenFail(f"ort-c-{tool[1:]} fails on {spec}: exit {r.returncode}: {r.stderr[-2000:]}")
        open(f"{o}/{out}", "w").write(r.stdout)
    r = sh([sys.executable, V + "/gencc.py", spec])
    if r.returncode:
        raise Fail("harness generator failed: " + r.stderr[-3000:])
    open(o + "/h.c", "w").write(r.stdout)
    r = sh(["gcc", "-fsyntax-only", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-I" + o, "-I" + V + "/gen", "-I" + V + "/harness"] + GENCF + [o + "/g.c"])
    if r.returncode:
        errs = re.findall(r"error: (.*)", r.stderr)
        if errs and all(re.search(r"implicit declaration of function|undeclared \(first use", e) and re.search("sqlbox_|kjson_|kvalid_|khttp|KCGI|SQLBOX", e) for e in errs):
            raise Fail("generated C uses parts of sqlbox or kcgi which are not modelled: " + errs[0])
        raise GenFail(f"C generated from {spec} does not compile: " + r.stderr[:3000])
    open(o + "/.ok", "w").close()
    return o

def gen_bc_(name):
    ts = name.startswith("ts:"); o = (ts_dir if ts else gen_dir)(name)
    if not os.path.exists(o + "/all.bc"):
        I = ["-I" + o, "-I" + V + "/gen", "-I" + V + "/harness"]
        run_all(([] if ts else [[CLANG] + CF + UB + I + GENCF + [o + "/g.c", "-o", o + "/g.bc"]]) + [[CLANG] + CF + HW + I + [o + "/h.c", "-o", o + "/h.bc"], [CLANG] + CF + ["-I" + V + "/harness", V + "/libc/vplibc.c", "-o", o + "/vplibc.bc"]])
        r = sh([LLVM + "llvm-link", "-o", o + "/all.l"] + ([] if ts else [o + "/g.bc"]) + [o + "/h.bc", o + "/vplibc.bc"])
        if r.returncode:
            raise Fail("link failed: " + r.stderr[-3000:])
        r = sh([LLVM + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=harness,vp_on_exit", o + "/all.l", "-o", o + "/all.tmp"])
        if r.returncode:
            raise Fail("opt failed: " + r.stderr[-3000:])
        os.rename(o + "/all.tmp", o + "/all.bc")
    return o + "/all.bc"

def gen_native_(name, flavour):
    ts = name.startswith("ts:"); o = (ts_dir if ts else gen_dir)(name); exe = f"{o}/native-{flavour}"
    if not os.path.exists(exe):
        I = ["-I" + o, "-I" + V + "/gen", "-I" + V + "/harness"]; cc = SAN[flavour]
        run_all(([] if ts else [cc + NF + I + GENCF + [o + "/g.c", "-o", f"{o}/g-{flavour}.o"]]) + [cc + NF + I + [o + "/h.c", "-o", f"{o}/h-{flavour}.o"], cc + NF + I + [V + "/libc/vpnative.c", "-o", f"{o}/v-{flavour}.o"]])
        r = sh(cc + ["-o", exe + ".tmp"] + [f"{o}/{x}-{flavour}.o" for x in ("hv" if ts else "ghv")] + ["-Wl,--wrap=" + w for w in WRAP] + ["-lm", "-lresolv"])
        if r.returncode:
            raise Fail("native link failed: " + r.stderr[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe

def harness_bc(name, defs=()):
    with locked():
        return harness_bc_(name, defs)

def harness_bc_(name, defs):
    if name.startswith(("gen:", "ts:")):
        return gen_bc_(name)
    allbc, d = bitcode_()
    hs = glob.glob(V + "/harness/*.h") + [f"{V}/harness/{name}.c"]
    inc = harness_inc(name)
    o = f"{B}/h-{name}-{hash_files(hs, allbc + repr(defs) + repr(inc))}.bc"
    if not os.path.exists(o):
        t = o[:-3]
        r = sh([CLANG] + CF + HW + list(defs) + inc + ["-I" + d, "-I" + V + "/harness", f"{V}/harness/{name}.c", "-o", t + ".h"])
        if r.returncode:
            raise Fail("harness does not compile: " + r.stderr[-3000:])
        r = sh([LLVM + "llvm-link", "-o", t + ".l", t + ".h", allbc])
        if r.returncode:
            raise Fail("link failed: " + r.stderr[-3000:])
        r = sh([LLVM + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=harness,vp_on_exit", t + ".l", "-o", t + ".o"])
        if r.returncode:
            raise Fail("opt failed: " + r.stderr[-3000:])
        os.rename(t + ".o", o)
        os.unlink(t + ".h"); os.unlink(t + ".l")
    return o

SAN = {"asan": ["gcc", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute"], "msan": [CLANG, "-fsanitize=memory"], "plain": ["gcc"]}
def native(name, flavour="asan", defs=()):
    with locked():
        return native_(name, flavour, defs)

def native_(name, flavour, defs):
    if name.startswith(("gen:", "ts:")):
        return gen_native_(name, flavour)
    d, key = stage()
    lib = f"{B}/n-{flavour}-{hash_files([V + '/libc/vpnative.c', V + '/harness/vp.h'], key + repr(NF))}"
    cc = SAN[flavour]
    if not os.path.exists(lib + "/.ok"):
        os.makedirs(lib, exist_ok=True)
        cmds = [cc + NF + defname(c) + ["-I" + d, c, "-o", f"{lib}/{os.path.basename(c)[:-2]}.o"] for c in sorted(glob.glob(d + "/*.c"))]
        cmds.append(cc + NF + ["-I" + V + "/harness", V + "/libc/vpnative.c", "-o", lib + "/vpnative.o"])
        run_all(cmds)
        open(lib + "/.ok", "w").close()
    hs = glob.glob(V + "/harness/*.h") + [f"{V}/harness/{name}.c"]
    inc = harness_inc(name)
    exe = f"{lib}/{name}-{hash_files(hs, repr(defs) + repr(inc))}"
    if not os.path.exists(exe):
        r = sh(cc + NF + list(defs) + inc + ["-I" + d, "-I" + V + "/harness", f"{V}/harness/{name}.c", "-o", exe + ".o"])
        if r.returncode:
            raise Fail("harness does not compile natively: " + r.stderr[-3000:])
        objs = [f for f in glob.glob(lib + "/*.o") if not re.search(r"-[0-9a-f]{16}\.o$", f)]
        r = sh(cc + ["-o", exe + ".tmp", exe + ".o"] + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-lm", "-lexpat"] if False else
               cc + ["-o", exe + ".tmp", exe + ".o"] + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-lm"] + (["-lexpat"] if expat_ok() else []))
        if r.returncode:
            raise Fail("native link failed: " + r.stderr[-3000:])
        os.rename(exe + ".tmp", exe)
    return exe

_ex = None
def expat_ok():
    global _ex
    if _ex is None:
        _ex = bool(glob.glob("/usr/lib/*/libexpat.so") + glob.glob("/usr/lib/*/libexpat.a"))
    return _ex

def run_native(exe, vals, params, timeout=90):
    d = tempfile.mkdtemp(prefix="vp-run-")
    try:
        with open(d + "/values", "w") as f:
            for n, h in vals:
                f.write(f"{n} {h}\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", MSAN_OPTIONS="exit_code=98", TZ="UTC")
        try:
            return sh([exe, d + "/values"] + [f"{k}={v}" for k, v in params.items()], cwd=d, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            class R: returncode = 142; stdout = ""; stderr = "timeout"
            return R()
    finally:
        shutil.rmtree(d, ignore_errors=True)

def job_params(job):
    return {k: (v.replace("@V", V).replace("@REPO", REPO) if isinstance(v, str) else v) for k, v in job.get("params", {}).items()}

def run_job(vse, job):
    bc = harness_bc(job["h"], tuple(job.get("defs", ())))
    out = tempfile.mktemp(prefix="vp-job-", dir=B)
    cmd = [vse, bc, "-o", out, "-t", str(job.get("t", 60)), "-v", "40", "-q", str(job.get("q", 10000)), "--samples", str(job.get("samples", 2)), "--seed", str(SEED),
           "--dom-audit", str(job.get("dom_audit", 60)), "--path-audit", str(job.get("path_audit", 40)), "-i", str(job.get("maxinstr", 400000000))]
    if job.get("nodomain"):
        cmd.append("--nodomain")
    for k, v in job_params(job).items():
        cmd += ["-p", f"{k}={v}"]
    try:
        r = sh(cmd, timeout=job.get("t", 60) + 120)
    except subprocess.TimeoutExpired:
        return {"error": "engine did not stop", "job": job}
    try:
        res = json.load(open(out))
    except Exception:
        return {"error": f"engine exit {r.returncode}: {r.stderr[-1500:]}", "job": job}
    finally:
        if os.path.exists(out):
            os.unlink(out)
    res["job"] = job
    res["stderr"] = r.stderr[-2000:]
    return res

def confirm(job, v):
    """Replay a counterexample against the real code with the real C library."""
    if v["kind"] == "generation":
        try:
            with locked():
                gen_dir(job["h"])
            return False, "generated and compiled"
        except GenFail as e:
            return True, str(e)
    params = job_params(job)
    defs = tuple(job.get("defs", ()))
    order = ["asan", "msan"] if v["kind"] == "uninit" else ["asan"]
    if v["kind"] == "uninit":
        order = ["msan", "asan"]
    last = ""
    for fl in order:
        exe = native(job["h"], fl, defs)
        r = run_native(exe, v["vals"], params)
        last = f"[{fl}] exit {r.returncode}: " + r.stderr[-1500:]
        if r.returncode == 41:
            return True, last
        if r.returncode in (98, 99) or r.returncode < 0 or r.returncode in (134, 136, 139, 142):
            return True, last
    return False, last

def known():
    p = V + "/known_findings.jsonl"
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def match_known(kf, pid, job, v):
    for k in kf:
        if k["status"] != "known" or k["property"] != pid:
            continue
        m = k["match"]
        if "job" in m and not re.search(m["job"], job["name"]):
            continue
        if "kind" in m and m["kind"] != v["kind"]:
            continue
        if "msg" in m and not re.fullmatch(m["msg"], v["msg"]):
            continue
        if "stack" in m and not re.search(m["stack"], v["stack"]):
            continue
        if "log" in m and not re.search(m["log"], "\n".join(v["log"]), re.S):
            continue
        if "vals" in m and not all(re.fullmatch(x, dict(v["vals"]).get(n, "")) for n, x in m["vals"].items()):
            continue
        return k
    return None

def check(pid, tier):
    import checks
    t0 = time.time()
    spec = checks.CHECKS[pid]
    os.makedirs(B, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    vse = engine()
    jobs = spec["jobs"](tier)
    bitcode()
    bad = {}
    for h in sorted({(j["h"], tuple(j.get("defs", ()))) for j in jobs}):
        try:
            harness_bc(*h)
        except GenFail as e:
            bad[h[0]] = str(e)
    jobs = [j for j in jobs if j["h"] not in bad]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(lambda j: run_job(vse, j), jobs))
    errs = [r for r in results if "error" in r]
    if errs:
        raise Fail("job failed: " + errs[0]["job"]["name"] + ": " + errs[0]["error"])
    kf = known()
    viol, unconf, seen_known = [], [], {}
    for r in results:
        for v in r["violations"]:
            k = match_known(kf, pid, r["job"], v)
            if k:
                seen_known.setdefault(k["id"], (k, r["job"], v)); continue
            viol.append((r["job"], v))
    confirmed = []
    for n, text in bad.items():
        confirmed.append(({"name": n, "h": n, "params": {}}, {"kind": "generation", "msg": "C is generated and compiles", "loc": "", "stack": "", "log": [text[:600]], "vals": []}, text))
    checked = {}
    for job, v in viol:
        sig = (job["h"], v["msg"], v["loc"])
        if checked.get(sig, 0) >= 3 and any(c[0]["h"] == job["h"] and c[1]["msg"] == v["msg"] for c in confirmed):
            continue
        checked[sig] = checked.get(sig, 0) + 1
        if sum(checked.values()) > 25:
            break
        ok, text = confirm(job, v)
        (confirmed if ok else unconf).append((job, v, text))
    # a sample of passing paths is run against the real code too
    validated = mism = 0; mismatch_notes = []
    smp = []
    for r in results:
        for s in r["samples"]:
            smp.append((r["job"], s))
    limit = spec.get("replays", 24 if tier == "quick" else 200)
    import random
    random.Random(SEED).shuffle(smp)
    smp = smp[:limit]
    if smp and not confirmed:
        def one(js):
            job, s = js
            exe = native(job["h"], "asan", tuple(job.get("defs", ())))
            return job, s, run_native(exe, s["vals"], job_params(job))
        native(smp[0][0]["h"], "asan", tuple(smp[0][0].get("defs", ())))
        for h in sorted({(j["h"], tuple(j.get("defs", ()))) for j, _ in smp}):
            native(h[0], "asan", h[1])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for job, s, r in ex.map(one, smp):
                tr = [l[6:] for l in r.stderr.splitlines() if l.startswith("REACH ")]
                if r.returncode == 0 and tr == s["trace"]:
                    validated += 1
                elif r.returncode in (41, 98, 99, 134, 136, 139, 142) or r.returncode < 0:
                    # the real code misbehaves where the model of it did not: report what the real code does
                    v = {"kind": "replay", "msg": "real code fails on a path the model passes", "loc": "", "stack": "", "log": [], "vals": s["vals"]}
                    if spec.get("native_fail", True) and not match_known(kf, pid, job, v):
                        confirmed.append((job, v, f"exit {r.returncode}: " + r.stderr[-1500:]))
                else:
                    mism += 1; mismatch_notes.append(f"{job['name']}: exit {r.returncode}, trace {tr} instead of {s['trace']}: {r.stderr[-300:]}")
    reach = {}
    for r in results:
        for k, n in r["reach"].items():
            reach[k] = reach.get(k, 0) + n
    asserts = {}
    for r in results:
        for k, n in r["asserts"].items():
            asserts[k] = asserts.get(k, 0) + n
    funcs = {}
    for r in results:
        for f, (file, hits, bc, bt) in r["functions"].items():
            if "/src-" not in file and "/gen-" not in file and not os.path.exists(os.path.join(REPO, os.path.basename(file))):
                continue
            o = funcs.get(f, [os.path.basename(file), 0, 0, bt]); o[1] += hits; o[2] = max(o[2], bc); funcs[f] = o
    missing = [x for x in spec.get("reach", []) if not reach.get(x)]
    S = lambda k: sum(r[k] for r in results)
    samples = [{"job": j["name"], "inputs": {n: show(h) for n, h in s["vals"]}, "trace": s["trace"][:12]} for j, s in smp[:5]]
    if not samples:
        samples = [{"job": r["job"]["name"], "paths": r["paths"]} for r in results[:3]]
    cov = {
        "states": S("paths") + S("forks"), "transitions": S("branches") + S("domain_decided"),
        "traces_validated_against_impl": validated, "samples": samples,
        "paths": S("paths"), "paths_completed": S("paths_returned"), "forks": S("forks"), "decisions_solver_or_domain": S("branches"),
        "decisions_by_exact_byte_domain": S("domain_decided"), "shortcut_decisions_cross_checked_by_solver": S("shortcut_audits"), "path_conditions_confirmed_by_solver": S("path_audits"),
        "engine_audit_failures": S("audit_failures"),
        "instructions": S("instructions"), "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
        "solver_s": round(S("solver_s"), 3), "jobs": len(jobs), "jobs_complete": sum(1 for r in results if r["complete"] and not r["incomplete_events"]),
        "incomplete_jobs": [r["job"]["name"] + f" (pending {r['pending']}, events {r['incomplete_events']})" for r in results if not r["complete"] or r["incomplete_events"]][:60],
        "exhaustive": all(r["complete"] and not r["incomplete_events"] for r in results),
        "assertions_evaluated": asserts, "reached": reach, "bounds": spec["bounds"], "outside": spec.get("outside", ""),
        "functions_encoded": {f: f"{v[0]}: {v[2]}/{v[3]} blocks" for f, v in sorted(funcs.items())},
        "unsupported": sorted({u for r in results for u in r["unsupported"]})[:20],
        "replay_mismatches": mismatch_notes[:10],
        "unconfirmed_reports": [{"job": j["name"], "msg": v["msg"], "loc": v["loc"], "native": t[-300:]} for j, v, t in unconf][:10],
    }
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for i, (k, job, v) in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for n in unconf[:5]:
        print(f"note: engine report not reproduced natively, ignored: {n[0]['name']}: {n[1]['kind']} {n[1]['msg']} at {n[1]['loc']}", file=sys.stderr)
    for n in mismatch_notes[:5]:
        print("note: replay mismatch: " + n, file=sys.stderr)
    print(f"{pid} {tier}: {len(jobs)} jobs, {cov['paths']} paths, {cov['queries']} solver queries ({cov['solver_s']} s), {validated} paths replayed natively, exhaustive={cov['exhaustive']}, {ev['wall_s']} s")
    if confirmed:
        os.makedirs(f"{V}/evidence/replay", exist_ok=True)
        for i, (job, v, text) in enumerate(confirmed[:5]):
            p = f"{V}/evidence/replay/{pid}-{i}.json"
            json.dump({"property": pid, "job": job, "violation": v, "native": text}, open(p, "w"), indent=1)
            print(f"  {job['name']}: {v['kind']}: {v['msg']} at {v['loc']} {v['log'][:4]}")
            print("  inputs: " + ", ".join(f"{n}={show(h)}" for n, h in v["vals"][:12]))
            print("  native: " + text.strip().splitlines()[-1][:300] if text.strip() else "")
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if cov["engine_audit_failures"]:
        print("engine self-audit failed", file=sys.stderr); return 2
    if missing:
        print(f"not reached (harness vacuous): {missing}", file=sys.stderr); return 2
    return 0

def show(h):
    b = bytes.fromhex(h)
    if len(b) in (1, 4, 8) and not all(32 <= c < 127 for c in b):
        return str(int.from_bytes(b, "little", signed=len(b) == 8))
    return repr(b)[1:]

def replay(f):
    d = json.load(open(f))
    job = d["job"]; v = d["violation"]
    ok, text = confirm(job, v)
    print(text)
    return 1 if ok else 0

if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            os.makedirs(B, exist_ok=True); engine(); bitcode(); sys.exit(0)
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        sys.exit(check(sys.argv[2], tier))
    except Fail as e:
        print("error: " + str(e), file=sys.stderr)
        sys.exit(2)
