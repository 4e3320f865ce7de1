"""C07: a realm has two distinct baselines, each reached under its own kind."""
from sa.spec import *
from sa import model
from checks.c08 import ENGINE, sigs, fork_only, baseline_places

META = {
 "level": "proof",
 "rule": "Abstract interpretation of the realm's constructor and accessors: for each baseline kind the shared and the mutable "
         "accessor return one and the same field, different kinds different fields, and the constructor stores in each field "
         "a fresh, empty baseline that reports exactly that kind.  Every store lookup reachable from applying or reversing an "
         "action goes through the fork's field.",
}
REALM = "tp_client::realm::Realm"
KIND = "tp_client::baseline::BaselineKind"

def field_for(c, d, kinds):
    P = c.P
    r = {}
    for k, name in enumerate(kinds):
        m, outs, vs = baseline_places(P, d.rsplit("::", 1)[-1], name)
        for o, v in zip(outs, vs):
            c.count("paths")
            t, okk = v, True
            while t[0] in ('f', 'el'):
                okk = okk and (t[0] == 'f' or t[2][0] == 'i')
                t = t[1]
            okk = okk and t == ('*', P0) and v != t
            c.ob("accessor-returns-field:" + d, okk and not effects(o), "returns %s" % show(o.v), c.loc(d))
            r.setdefault(k, set()).add(v if okk else None)
            c.sample(outline(o))
        c.ob("no-panic:" + d, not m.I.panics, "can panic", c.loc(d))
    return r

def project(t, v):
    """the part of the new realm `v` at a place below *arg0"""
    if t[0] == '*':
        return v
    b = project(t[1], v)
    i = t[3] if t[0] == 'f' else t[2][1]
    l = b[1] if b is not None and b[0] == 'vec' else b[3] if b is not None and b[0] == 'a' else ()
    return l[i] if i < len(l) else None

def check(c):
    P = c.P
    kinds = [v["n"] for v in P.variants(KIND) or []]
    c.ob("anchor:kinds", len(kinds) == 2 and {"Main", "Fork"} == set(kinds), "baseline kinds: %s" % kinds)
    nk = len(kinds)
    acc = {}
    for f in ("baseline", "baseline_mut"):
        d = REALM + "::" + f
        if c.need(d):
            acc[f] = field_for(c, d, kinds)
            c.ob("total:" + f, set(acc[f]) == set(range(nk)) and all(len(x) == 1 for x in acc[f].values()), "%s maps kinds to fields %s" % (f, {kinds[k]: sorted(show(y) if y else "?" for y in x) for k, x in acc[f].items()}), c.loc(d))
    if len(acc) == 2:
        c.ob("accessors-agree", acc["baseline"] == acc["baseline_mut"], "the shared and the mutable accessor lead to different baselines")
    a = acc.get("baseline", {})
    fields = [next(iter(x)) for x in a.values() if len(x) == 1]
    c.ob("distinct", len(set(fields)) == nk, "kinds share a field")
    # construction
    bk = [i for i, f in enumerate(P.adts[BASELINE]["v"][0]["f"]) if P.uty(P.adts[BASELINE]["types"], f["t"]) == KIND]
    c.ob("anchor:kind-field", len(bk) == 1, "Baseline has %d kind fields" % len(bk))
    d = BASELINE + "::kind"
    if c.need(d) and bk:
        for o in summarise(P, d)[1]:
            c.ob("kind-reports-field", same(o.v, ('f', ('*', P0), 0, bk[0])), "Baseline::kind returns %s" % show(o.v), c.loc(d))
    d = BASELINE + "::new"
    if c.need(d) and bk:
        for o in summarise(P, d)[1]:
            okk = is_adt(o.v, BASELINE) and o.v[3][bk[0]] == P0
            c.ob("new-keeps-kind", okk, "Baseline::new(kind) stores %s" % show(o.v)[:120], c.loc(d))
            rest = [x for i, x in enumerate(o.v[3]) if i != bk[0]] if okk else []
            for x in rest:
                c.ob("new-is-empty", empty(x), "a new baseline starts with %s" % show(x)[:120], c.loc(d))
    d = REALM + "::new"
    if c.need(d) and bk:
        m, outs = summarise(P, d)
        for o in outs:
            for k, fs in a.items():
                if len(fs) != 1 or not is_adt(o.v, REALM):
                    c.fail("realm-new", "Realm::new returns %s" % show(o.v)[:100], c.loc(d)); continue
                f = next(iter(fs))
                b = project(f, o.v) if f else None
                if b is None:
                    c.fail("realm-new", "Realm::new returns %s" % show(o.v)[:100], c.loc(d)); continue
                got = b[3][bk[0]] if is_adt(b, BASELINE) else None
                c.ob("realm-new-kind:%s" % kinds[k], got is not None and is_adt(got, KIND) and got[2] == k,
                     "the baseline reached as %s is built as %s" % (kinds[k], show(got) if got else show(b)[:100]), c.loc(d))
                if is_adt(b, BASELINE):
                    for i, x in enumerate(b[3]):
                        if i != bk[0]:
                            c.ob("realm-new-empty", empty(x), "a new realm's %s baseline starts with %s" % (kinds[k], show(x)[:100]), c.loc(d))
            c.sample({"Realm::new": show(o.v)[:400]})
        c.ob("realm-new-no-panic", not m.I.panics, "Realm::new can panic", c.loc(d))
    # the engine works on the fork
    ap, rv = sigs(P)
    c.ob("anchor:action-steps", ap and rv, "no single-action steps found in the engine")
    s = Store(c)
    n = 0
    for d, ai in list(ap.items()) + list(rv.items()):
        c.analysed.add(d)
        it = P.items[d]
        us = [P.uty(it["types"], t) for t in it["ins"]]
        root = [i for i, u in enumerate(us) if i != ai][0]
        m, outs = summarise(P, d)
        for o in outs + [model.Out(p[0], ('i', 0), m.I) for p in m.I.panics]:
            c.count("engine paths")
            before = len(c.obs)
            fork_only(c, P, s, o, ('*', ('p', root)), us[root], d, c.loc(d))
            n += len(c.obs) - before
    c.floor("store lookups by actions", n, 10)

def empty(x):
    if x[0] == 'call':
        return x[1].rsplit("::", 1)[-1] in ("new", "custom", "arena.new", "default") and not x[3] or x[1] == 'arena.new'
    if x[0] == 'a':
        return all(empty(y) for y in x[3])
    return False
