#!/usr/bin/env python3
"""Plant a bug: seed.py ID PROPERTY 'needs' 'what it breaks' FILE OLD NEW [FILE OLD NEW]... with the demo script on stdin.
Works in a scratch copy of /repo under /tmp; keeps it in seeded/ID only if it builds, passes the tests, and the demo tells."""
import sys, os, subprocess, json, shutil, tempfile
ID, prop, needs, breaks, *ed = sys.argv[1:]
demo = sys.stdin.read()
W = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); R = W + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    sh(f"cp -a /repo {R}")
    for i in range(0, len(ed), 3):
        f, o, n = ed[i:i + 3]; s = open(f"{R}/{f}").read()
        if s.count(o) != 1: sys.exit(f"{f}: {s.count(o)} matches of {o!r}")
        open(f"{R}/{f}", "w").write(s.replace(o, n))
    patch = sh(f"git -C {R} diff").stdout
    # only lines of the original repository may change
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    for l in patch.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            files = ed[0::3]
            if not any(l[1:] in sh(f"git -C /repo show {base}:{f}").stdout.split("\n") for f in files): print("WARNING: not an original line:", l)
    p = W + "/p.diff"; open(p, "w").write(patch)
    d = W + "/demo"; os.mkdir(d); open(d + "/demo.sh", "w").write(demo)
    sh("bash /opt/vp/build.sh")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode: sys.exit("demo fails on the unchanged tree: " + r.stdout[-1500:])
    sh(f"git -C /repo apply {p}")
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: sys.exit("does not build: " + b.stdout[-1500:])
        t = sh("sh /tmp/tt.sh").stdout
        if "1231 1231 missing []" not in t: sys.exit("tests fail: " + t[-800:])
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode == 0: sys.exit("demo does not notice: " + r.stdout[-1500:])
        print("demo with bug:", r.returncode, r.stdout[-200:])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
    o = f"/verif/seeded/{ID}"; os.makedirs(o, exist_ok=True)
    shutil.copy(p, o + "/patch.diff"); shutil.copy(d + "/demo.sh", o + "/demo.sh")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    print("kept", ID)
finally:
    shutil.rmtree(W, ignore_errors=True)
