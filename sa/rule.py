"""Running one property's static check: obligations, violations, known findings,
evidence."""
import json, os, re, sys, time, traceback
from . import extract, mir
from .interp import Limit, GAVE_UP

# obligations that some path exists: undecided when not all paths were explored
SOME = re.compile(r"(^|:|-)(both|some|has|accepts|floor)\b")

VERIF = extract.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

def known(pid):
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r

class Check:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.P, self.tier = pid, prog, tier
        self.obs = []            # (key, ok, message, where)
        self.samples = []
        self.counts = {}
        self.analysed = set()
        self.notes = []

    # -- obligations
    def ob(self, key, ok, msg="", where=""):
        self.obs.append((key, bool(ok), msg, where))
        return bool(ok)

    def fail(self, key, msg, where=""):
        return self.ob(key, False, msg, where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least):
        """Fail closed: a rule that matched (almost) nothing decided nothing."""
        self.counts[name] = n
        self.ob("floor:" + name, n >= least, "only %d %s found, at least %d expected" % (n, name, least))

    def need(self, d, what=""):
        """A function that the property is about must exist."""
        if d in self.P.items or d in self.P.by_def:
            self.analysed.add(d)
            return True
        self.fail("anchor:" + d, "no such item in the current tree (%s)" % (what or "anchor of the property"))
        return False

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def loc(self, d):
        return "%s (%s)" % (d, self.P.loc(d))

def run(pid, fn, tier, meta):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known_f = known(pid)
    prog, c, crash = None, None, None
    try:
        prog = mir.Program(extract.facts())
        c = Check(pid, prog, tier)
        fn(c)
    except extract.ExtractError as e:
        # The tree does not type-check (or the anchors' crates are gone): nothing
        # can be decided, and nothing may be reported as a violation.
        print("check %s: cannot analyse the tree: %s" % (pid, e), file=sys.stderr)
        return 3
    except Exception as e:
        if not isinstance(e, Limit):
            # our own failure: nothing is decided
            traceback.print_exc()
            return 3
        print("check %s: analysis budget exceeded: %s" % (pid, e), file=sys.stderr)
        if not any(not ok and key not in known_f for key, ok, _, _ in c.obs):
            return 3        # undecided: nothing may be reported
    if GAVE_UP:
        print("check %s: not all paths explored: %s" % (pid, GAVE_UP[0]), file=sys.stderr)
        c.obs = [o for o in c.obs if o[1] or not SOME.search(o[0])]
        c.notes.append("not all paths explored: %s" % GAVE_UP[:2])
        if not any(not o[1] and o[0] not in known_f for o in c.obs):
            return 3            # undecided: nothing may be reported
    bad, kf = {}, {}
    for key, ok, msg, where in c.obs:
        if ok:
            continue
        if key in known_f:
            kf.setdefault(key, (msg, where))
        else:
            bad.setdefault(key, (msg, where))
    n_ok = sum(1 for o in c.obs if o[1])
    trusted = ["rustc nightly front end (type check, MIR construction, symbol names)",
               "/verif/driver (MIR to JSON) and /verif/sa (abstract interpreter, rules)"] + meta.get("trusted", [])
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": meta["level"],
          "coverage": {"obligations": len(c.obs), "discharged": n_ok + len(kf) * 0,
                       "checker_cmd": "python3 check.py %s --tier %s" % (pid, tier),
                       "trusted_base": trusted, "explanation": meta["rule"],
                       "samples": c.samples, "counts": c.counts,
                       "analysed": sorted(c.analysed)[:400], "analysed_functions": len(c.analysed),
                       "known_findings": sorted(kf), "notes": c.notes[:40],
                       "tree": os.path.basename(prog.dir)},
          "assumptions": meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k in sorted(kf):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known_f[k], k))
    rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    if os.path.exists(rp):
        os.remove(rp)
    if not c.obs:
        print("check %s decided nothing" % pid, file=sys.stderr)
        return 3
    print("%s: %d obligations, %d hold, %d violated, %d known; %d functions; %.1fs" %
          (pid, len(c.obs), n_ok, len(bad), len(kf), len(c.analysed), time.time() - t0))
    if bad:
        with open(rp, "w") as f:
            for k in sorted(bad):
                msg, where = bad[k]
                f.write("property %s violated\n  key:   %s\n  what:  %s\n  where: %s\n\n" % (pid, k, msg, where))
        for k in sorted(bad)[:12]:
            print("  %s: %s  @ %s" % (k, bad[k][0][:300], bad[k][1]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
