#!/usr/bin/env python3
"""seed.py ID: make /verif/seeded/ID from meta/seeds/ID.py (edits + demo) and verify it on /repo.
The spec file defines PKG, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO."""
import importlib.util, json, os, subprocess, sys
V = "/verif"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(i):
    spec = importlib.util.spec_from_file_location("s", f"{V}/meta/seeds/{i}.py")
    s = importlib.util.module_from_spec(spec); spec.loader.exec_module(s)
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    custom = getattr(s, "DEMO_SH", None)
    open(f"{d}/demo.sh", "w").write(custom or open(f"{V}/meta/seedlib/demo.sh").read().replace("@PKG@", s.PKG))
    os.chmod(f"{d}/demo.sh", 0o755)
    for n, t in getattr(s, "FILES", {}).items():
        p = f"{d}/{n}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
    if getattr(s, "DEMO", None): open(f"{d}/demo.rs", "w").write(s.DEMO.strip("\n") + "\n")
    json.dump({"property": s.PROPERTY, "needs": s.NEEDS, "what_it_breaks": s.BREAKS}, open(f"{d}/meta.json", "w"), indent=1)
    try:
        for f, a, b in s.EDITS:
            p = f"/repo/{f}"; t = open(p).read()
            assert t.count(a) == 1, (f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        quick = "--demo" in sys.argv
        r = sh(f"cd /repo && bash {d}/demo.sh"); open("/tmp/demo_patched.log", "w").write(r.stdout + r.stderr)
        print("demo patched rc", r.returncode)
        bad = r.returncode
        if "--check" in sys.argv:
            for p in s.PROPERTY.split():
                c = sh(f"cd {V} && bash check.sh {p} quick"); print(p, c.returncode, [l[:200] for l in c.stdout.splitlines() if "VIOLATION" in l or "oracle" in l][:3])
        if not quick:
            b = sh("bash /opt/vp/build.sh"); print("build rc", b.returncode)
            if b.returncode: print(b.stderr[-3000:]); return
            sh("bash /opt/vp/test.sh /tmp/seed.json")
            o = json.load(open("/tmp/seed.json")); print({k: (len(v) if hasattr(v, "__len__") else v) for k, v in o.items()}, o.get("failed") if hasattr(o.get("failed"), "__len__") else "")
            if o.get("failed"): bad = 0
    finally:
        sh("git -C /repo checkout -- .")
    r = sh(f"cd /repo && bash {d}/demo.sh"); open("/tmp/demo_clean.log", "w").write(r.stdout + r.stderr)
    print("demo clean rc", r.returncode)
    print(i, "OK" if r.returncode == 0 and bad else "NOT OK")
main(sys.argv[1])
