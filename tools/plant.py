#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE  <<< "OLD\n====\nNEW\n====\nneeds\n====\nwhat it breaks"
Creates seeded/ID/patch.diff + meta.json from a textual replacement and
confirms, in a scratch copy, that it builds, passes the stable tests and that
seeded/ID/demo.sh tells the trees apart.  plant.py --verify ID only confirms."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    d = tempfile.mkdtemp(prefix="nbplant"); w = d + "/r"
    run(["cp", "-a", "/repo", w])
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/repo", w).replace("/opt/vp/build.sh", d + "/build.sh")
        open(d + "/" + s, "w").write(t)
    return d, w
def main():
    a = sys.argv[1:]; verify = a[0] == "--verify"
    i = a[1] if verify else a[0]; sd = V + "/seeded/" + i; os.makedirs(sd, exist_ok=True)
    d, w = scratch()
    try:
        if not verify:
            prop, f = a[1], a[2]
            parts = [p.strip("\n") for p in sys.stdin.read().split("\n====\n")]
            *reps, needs, brk = parts
            p = w + "/" + f; s = open(p).read()
            for o, n in zip(reps[::2], reps[1::2]):
                if s.count(o) != 1: print("old text occurs", s.count(o), "times:", o); return 1
                s = s.replace(o, n)
            open(p, "w").write(s)
            open(sd + "/patch.diff", "w").write(run(["git", "-C", w, "diff"]).stdout)
            run(["git", "-C", w, "checkout", "--", "."])
            json.dump({"property": prop, "needs": needs, "what_it_breaks": brk}, open(sd + "/meta.json", "w"), indent=1)
        def demo():
            dd = tempfile.mkdtemp(dir=d)
            for x in os.listdir(sd):
                if not x.endswith((".diff", ".patch")) and x != "meta.json": shutil.copy(sd + "/" + x, dd)
            return run(["timeout", "300", "bash", dd + "/demo.sh"], cwd=w)
        b = run(["bash", d + "/build.sh"])
        if b.returncode: print(b.stdout[-2000:]); return 1
        r = demo()
        if r.returncode: print("demo fails on the clean tree", r.stdout[-2000:]); return 1
        if run(["git", "-C", w, "apply", sd + "/patch.diff"]).returncode: print("does not apply"); return 1
        b = run(["bash", d + "/test.sh", d + "/out.json"])
        res = json.load(open(d + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("passed") or base.get("stable") or base["tests"]
        miss = set(stable) - set(res["passed"])
        if miss: print("tests fail:", sorted(miss)[:5]); return 1
        r = demo()
        if r.returncode == 0: print("demo passes with the change", r.stdout[-1000:]); return 1
        print("ok", i, "| demo:", r.stdout.strip()[-200:]); return 0
    finally: shutil.rmtree(d)
sys.exit(main())
