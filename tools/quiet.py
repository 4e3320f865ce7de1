#!/usr/bin/env python3
"""quiet.py [-s name] [names…] [--checks C01,…]: behaviour-preserving edits (refactor/*.diff) on which every
check has to stay quiet.  -s saves /tmp/rs's uncommitted diff under that name first."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; RS = "/tmp/rs"; NS = "/tmp/ns.sh"
def sh(cmd): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
a = sys.argv[1:]
cs = None
if "--checks" in a:
    i = a.index("--checks"); cs = a[i + 1].split(","); a = a[:i] + a[i + 2:]
if a[:1] == ["-s"]:
    d = sh("git -C %s diff" % RS).stdout
    assert d.strip(), "no diff"
    open("%s/refactor/%s.diff" % (V, a[1]), "w").write(d)
    a = [a[1]] + a[2:]
sh("git -C %s checkout -- ." % RS)
names = a or sorted(f[:-5] for f in os.listdir(V + "/refactor"))
cs = cs or [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
for n in names:
    p = sh("git -C %s apply %s/refactor/%s.diff" % (RS, V, n)); assert p.returncode == 0, p.stdout
    run = lambda c: (c, sh("%s bash -c 'cd /verif && python3 check.py %s'" % (NS, c)))
    res = [run(cs[0])]
    with ThreadPoolExecutor(7) as ex:
        res += list(ex.map(run, cs[1:]))
    noisy = 0
    for c, p in res:
        if p.returncode:
            noisy += 1
            print(n, c, "exit", p.returncode, "\n", "\n".join(l[:300] for l in p.stdout.splitlines()[-8:]))
    print(n, "quiet" if not noisy else "NOISY %d" % noisy, flush=True)
    sh("git -C %s checkout -- ." % RS)
