"""C05: removing an object removes everything it owned, and nothing else."""
from sa.spec import *
from sa import model
from checks.remove import D, Remover, id_iters
from checks.c08 import LOSSY

META = {
 "level": "proof",
 "rule": "Abstract interpretation of object removal with everything it calls inlined, any number of states and channels.  A path "
         "that returns an error has no effect and has established that the object or its contract is missing or that the "
         "contract is of another type; every other path has established their presence and the equality of the contract's "
         "identifier, removes the object and its record with its own contract, walks all state ids and all channel ids of "
         "that contract, and for each id frees the entry that the object's own table holds at that id's position (or has found "
         "it already gone); nothing else is changed and no path panics.",
 "trusted": ["generational_arena's contract", "HashSet::remove removes exactly the given element"],
}

def tables(c, P, s):
    """the object's table for each kind, by the accessors that read it"""
    r = {}
    oa = P.adts[OBJECT]
    vi = [i for i, f in enumerate(oa["v"][0]["f"]) if "::Vec<" in P.uty(oa["types"], f["t"])]
    for k, f in (("states", "bind_state"), ("channels", "bind_channel")):
        d = OBJECT + "::" + f
        if c.need(d):
            x = {t[3] for o in summarise(P, d, adt=RESULT)[1] if o.kind == 'Ok' for t in subterms(o.v) if t[:1] == ('f',) and t[1] == ('*', P0) and t[3] in vi}
            c.ob("anchor:table-of-" + k, len(x) == 1, "%s reads tables %s" % (f, x), c.loc(d))
            r[k] = next(iter(x), 97)
    return r

def check(c):
    P = c.P
    s = Store(c)
    if not c.need(D):
        return
    w = c.loc(D)
    its = id_iters(P)
    c.ob("anchor:id-iterators", sorted(its.values()) == ["channels", "states"], "id iterators: %s" % its)
    c.analysed.update(its)
    tab = tables(c, P, s)
    me = ('*', P0)
    oe = s.entry(me, "objects", P1)
    obj = ('f', oe, 1, 0)
    oa = P.adts[OBJECT]
    hi = [i for i, f in enumerate(oa["v"][0]["f"]) if P.uty(oa["types"], f["t"]) == HANDLE_C]
    c.ob("anchor:object-contract", len(hi) == 1, "Object has %d contract handles" % len(hi))
    if not hi or len(tab) != 2:
        return
    def own(k):
        return [('f', x, 0, tab[k]) for x in (('*', obj), ('moved', obj), ('*', ('ref', ('moved', obj))))]
    ch = ('f', ('*', obj), 0, hi[0])
    ce = s.entry(me, "contracts", ch)
    ca = P.adts[CDATA]
    sets = paths(P, CDATA, lambda u: "HashSet<" in u or "BTreeSet<" in u)
    idi = [i for i, f in enumerate(ca["v"][0]["f"]) if P.uty(ca["types"], f["t"]).endswith("::ContractId")]
    c.ob("anchor:contract-fields", len(sets) == 1 and len(idi) == 1, "ContractData: %d sets, %d ids" % (len(sets), len(idi)))
    if len(sets) != 1 or len(idi) != 1:
        return
    cset = ('place', at(('*', ('f', ce, 1, 0)), sets[0]))
    cid = ('f', ('*', ('f', ce, 1, 0)), 0, idi[0])
    m = Remover(P, s, its, {k: own(k) for k in tab})
    outs = [model.Out(a, v, m.I) for a, v in m.run(D)]
    c.count("paths", len(outs))
    good = bad = freed = 0
    om = s.place(me, "objects")
    for o in outs:
        eff = [t for t in effects(o)]
        ev = [t for t in o.trace if t[0] in ('freed', 'freed-other', 'skipped')]
        if o.kind == 'Err':
            bad += 1
            c.ob("refusal-has-no-effect", not eff and not ev, "fails after changing the store: %s" % [show(x)[:120] for x in (eff + ev)[:3]], w)
            why = absent(o, oe) or absent(o, ce) or idfact(P, o, cid) == 0
            c.ob("refusal-has-reason", why, "refuses to remove a live object of the right contract: %s" % sfacts(o)[-3:], w)
            c.sample(outline(o, 4))
            continue
        if o.kind != 'Ok':
            c.fail("result", "returns %s" % show(o.v)[:120], w)
            continue
        good += 1
        c.ob("object-was-live", was(o, oe), "succeeds without having found the object", w)
        c.ob("contract-was-live", was(o, ce), "succeeds without having found the object's contract", w)
        c.ob("type-compared", idfact(P, o, cid) == 1, "removes an object without having compared its contract's identifier with the named type's", w)
        rem = [t for t in eff if t[0] == 'remove']
        c.ob("object-removed", len(rem) == 1 and rem[0][1] == om and same(rem[0][2], s.index(P1)), "removes %s" % [show(t)[:120] for t in rem], w)
        rec = [t for t in eff if str(t[0]).startswith('set.')]
        c.ob("record-removed", len(rec) == 1 and rec[0][0] in ('set.remove', 'set.take') and rec[0][1] == cset and same(rec[0][2], P1), "its record with the contract: %s" % [show(t)[:160] for t in rec], w)
        rest = [t for t in eff if t not in rem and t not in rec]
        c.ob("nothing-else", not rest, "also does %s" % [show(t)[:160] for t in rest], w)
        bad_it = {t[1] for t in o.trace if t[0] == 'iter'} & (LOSSY | {'find', 'position'})
        c.ob("no-id-skipped", not bad_it, "passes ids through %s" % sorted(bad_it), w)
        for k in tab:
            c.ob("all-ids-walked:" + k, o.fact(('ended', k), 1), "succeeds without having walked all %s ids of the contract" % k[:-1], w)
            c.ob("each-freed:" + k, ('skipped', k) not in o.trace and ('pending', k) not in o.facts, "an id is passed over without freeing the object's %s" % k[:-1], w)
            freed += ('freed', k) in o.trace
        c.ob("frees-own-only", not [t for t in ev if t[0] == 'freed-other'], "frees an entry that is not the object's own for the id: %s" % [show(t)[:200] for t in ev if t[0] == 'freed-other'][:1], w)
        c.sample(outline(o, 8))
    c.ob("both", good >= 3 and bad >= 3 and freed >= 2, "%d succeeding, %d refusing, %d freeing paths" % (good, bad, freed), w)
    c.ob("no-panic", not m.I.panics, "can panic: %s" % sorted({p[2] for p in m.I.panics})[:3], w)
    c.notes += sorted(m.assumed)

def leaves(P, types, tid, at=()):
    """field paths down to scalars of a type"""
    t = types[tid]
    if t["k"] == "tuple" and t.get("a"):
        return [x for i, a in enumerate(t["a"]) for x in leaves(P, types, a, at + (i,))]
    if t["k"] == "adt" and t.get("u") in P.adts and P.adts[t["u"]].get("local") and not P.adts[t["u"]]["enum"]:
        a = P.adts[t["u"]]
        return [x for i, f in enumerate(a["v"][0]["f"]) for x in leaves(P, a["types"], f["t"], at + (i,))]
    return [at]

def rel(t, isroot):
    """field path from a root to t, through references"""
    r = []
    while True:
        if isroot(t):
            return tuple(reversed(r))
        if t[0] == 'f':
            r.append(t[3]); t = t[1]
        elif t[0] in ('*', 'ref', 'o'):
            t = t[1]
        elif t[0] == '&' and t[1][0] == 'X':
            t = peel(t)
            if t[0] == '&':
                return None
        else:
            return None

def idfact(P, o, cid):
    """1/0: the path established that the contract's identifier equals / differs from C::ID
    (as a whole, or component by component)"""
    a = P.adts["tp_client::contract::ContractId"]
    need = {x for i, f in enumerate(a["v"][0]["f"]) for x in leaves(P, a["types"], f["t"], (i,))}
    eq = set()
    for f in o.facts:
        if f[0] == 'bin' and f[1] == 'Eq':
            x, y = f[2], f[3]
        elif f[0] == 'call' and str(f[1]).rsplit("::", 1)[-1] in ("eq", "ne") and len(f[3]) == 2:
            x, y = f[3]
        else:
            continue
        v = 1 if o.fact(f, 1) else 0 if o.fact(f, 0) else None
        if v is None:
            continue
        if f[0] == 'call' and str(f[1]).endswith("ne"):
            v = 1 - v
        for p, q in ((x, y), (y, x)):
            rp = rel(p, cid if callable(cid) else lambda t: t == cid)
            rq = rel(q, lambda t: t[0] == 'const' and "Contract::ID" in str(t[1]))
            if rp is not None and rp == rq:
                if v == 0:
                    return 0
                eq |= {n for n in need if n[:len(rp)] == rp}
    return 1 if eq == need else None

def was(o, e):
    return present(o, e) or o.fact(('was', e), 1)
