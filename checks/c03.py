"""C03: object creation is all or nothing."""
from sa.spec import *
from sa import model
from checks.create import D, analyse, strip

META = {
 "level": "proof",
 "rule": "Abstract interpretation of object creation with everything it calls inlined, over any number of properties.  Paths "
         "that return an error have no effect on the store; every other path inserts exactly one object, carrying the "
         "contract's handle, records exactly that object's handle with exactly that contract, returns that handle, and "
         "otherwise only adds entries to the state and channel tables.  No path panics.",
 "trusted": ["generational_arena, HashSet and typemap insertion add exactly one entry"],
}

def check(c):
    P = c.P
    s = Store(c)
    if not c.need(D):
        return
    w = c.loc(D)
    me = ('*', P0)
    m, outs = analyse(c, s)
    c.count("paths", len(outs))
    good = bad = 0
    cm = s.place(me, "contracts")
    om = s.place(me, "objects")
    states, channels = at(me, s.states), at(me, s.channels)
    oa = P.adts[OBJECT]
    hi = [i for i, f in enumerate(oa["v"][0]["f"]) if P.uty(oa["types"], f["t"]) == HANDLE_C]
    c.ob("anchor:object-contract", len(hi) == 1, "Object has %d contract handles" % len(hi))
    sets = paths(P, CDATA, lambda u: "HashSet<" in u or "BTreeSet<" in u)
    c.ob("anchor:contract-set", len(sets) == 1, "ContractData has %d object sets" % len(sets))
    for o in outs:
        eff = effects(o)
        ents = {t for f in o.facts for t in subterms(f) if t[:2] == ('call', 'entry') and t[3][0] == cm}
        own = [e for e in ents if "Contract::handle" in show(e[3][1])]
        if o.kind == 'Err':
            bad += 1
            c.ob("error-has-no-effect", not eff, "fails after changing the store: %s" % [show(x)[:120] for x in eff[:3]], w)
            continue
        if o.kind != 'Ok':
            c.fail("result", "returns %s" % show(o.v)[:120], w)
            continue
        good += 1
        c.ob("contract-is-live", len(own) == 1 and present(o, own[0]), "creates an object although the contract's handle has not been found live", w)
        ins = [t for t in eff if t[0] == 'insert' and t[1] == om]
        if not c.ob("one-object", len(ins) == 1 and is_adt(ins[0][2], OBJECT), "inserts %d objects" % len(ins), w) or not own:
            continue
        h = own[0][3][1]
        obj = ins[0][2]
        oh = obj[3][hi[0]] if hi else ('u',)
        c.ob("object-carries-contract", same(s.index(oh) if oh[0] != 'a' else oh[3][s.ix[0][1]], h) or contains(h, peel(oh)), "the new object carries %s as its contract" % show(oh)[:120], w)
        term = ('call', 'arena.insert', (), (om, obj))
        rec = [t for t in eff if t[0].startswith('set.')]
        okk = len(rec) == 1 and rec[0][0] == 'set.insert' and any(contains(rec[0][1], x) for x in [('f', own[0], 1, 0)]) \
            and rec[0][1] == ('place', at(('*', ('f', own[0], 1, 0)), sets[0])) if sets else False
        c.ob("recorded-with-contract", okk, "recorded as %s" % [show(t)[:160] for t in rec], w)
        rh = rec[0][2] if rec else ('u',)
        for what, x in (("recorded-handle", rh), ("returned-handle", o.payload)):
            raw = x[3][s.ix[0][1]] if is_adt(x, "arena::Index") else x
            c.ob(what, same(strip(raw), strip(term)), "%s is %s, not the new object's" % (what.replace('-', ' '), show(x)[:160]), w)
        for t in eff:
            if t in ins or t in rec:
                continue
            okk = t[0] in ('insert', 'tm.init') and (contains(t[1], states) or contains(t[1], channels))
            c.ob("nothing-else", okk, "also does %s" % show(t)[:200], w)
        c.sample(outline(o, 6))
    c.ob("both", good >= 1 and bad >= 3, "%d succeeding and %d failing paths" % (good, bad), w)
    c.ob("no-panic", not m.I.panics, "can panic: %s" % sorted({p[2] for p in m.I.panics})[:3], w)
    # the object's own constructor keeps what it is given; fresh objects start unwarped is C15's
    for o in summarise(P, OBJECT + "::contract")[1] if c.need(OBJECT + "::contract") else []:
        c.ob("contract-accessor", hi and same(o.v, ('f', ('*', P0), 0, hi[0])), "Object::contract returns %s" % show(o.v)[:100], c.loc(OBJECT + "::contract"))
    d = CDATA + "::objects"
    for o in summarise(P, d)[1] if c.need(d) else []:
        c.ob("objects-accessor", sets and same(o.v, at(('*', P0), sets[0])), "ContractData::objects returns %s" % show(o.v)[:100], c.loc(d))
