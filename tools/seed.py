#!/usr/bin/env python3
"""seed.py <id>: confirm a planted bug (from /tmp/rs's uncommitted diff, or seeded/<id>/patch.diff if
present) in a scratch copy: it builds, passes the stable tests, and its demo tells the trees apart.
seed.py -c <id> [checks…]: run checks against it (scratch mount namespace)."""
import json, os, shutil, subprocess, sys
V = "/verif"; RS = "/tmp/rs"; NS = "/tmp/ns.sh"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def git(a): return sh("git -C %s %s" % (RS, a))
def clean(): git("checkout -- ."); 
def build():
    p = sh(NS + " bash /opt/vp/build.sh")
    if p.returncode and "fingerprints" in p.stdout:
        shutil.rmtree(RS + "/target/debug/incremental")
        p = sh(NS + " bash /opt/vp/build.sh")
    return p
def tests():
    p = sh(NS + " bash /opt/vp/test.sh /tmp/out.json")
    try:
        r = json.load(open("/tmp/out.json"))
    except Exception as e:
        return ["no result"]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    s = r.get("passed") or [k for k, v in r.items() if v in ("passed", "pass", "ok", True)]
    return [t for t in base if t not in s]
def confirm(i):
    d = os.path.join(V, "seeded", i); p = os.path.join(d, "patch.diff")
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        t = git("diff").stdout
        assert t.strip(), "no diff in " + RS
        open(p, "w").write(t)
    clean()
    if not os.path.exists(d + "/demo.sh"):
        shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
    b = build(); assert b.returncode == 0, b.stdout[-2000:]
    x = sh("%s bash %s/demo.sh" % (NS, d)); ok0 = x.returncode
    print("unchanged: demo", ok0, x.stdout[-600:] if ok0 else "")
    a = git("apply " + p); assert a.returncode == 0, a.stdout
    b = build()
    if b.returncode: print("BUILD FAILS", b.stdout[-2500:]); clean(); return 1
    t = tests(); print("tests failing:", t)
    x = sh("%s bash %s/demo.sh" % (NS, d)); print("patched: demo", x.returncode, x.stdout[-300:])
    clean()
    good = ok0 == 0 and x.returncode not in (0, 8, 9) and not t
    print(i, "CONFIRMED" if good else "REJECTED")
    return 0 if good else 1
def check(i, cs):
    d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json"))
    cs = cs or [m["property"]]
    a = git("apply %s/patch.diff" % d); assert a.returncode == 0, a.stdout
    try:
        for c in cs:
            p = sh("%s bash -c 'cd /verif && python3 check.py %s'" % (NS, c))
            print(i, c, "exit", p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION" in p.stdout else "missed")
            print("\n".join(l[:260] for l in p.stdout.splitlines()[1:5]))
    finally:
        clean()
if __name__ == "__main__":
    if sys.argv[1] == "-c": check(sys.argv[2], sys.argv[3:])
    else: sys.exit(confirm(sys.argv[1]))
