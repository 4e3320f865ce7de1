"""C02: binding an id to an object."""
from sa.spec import *
from sa import model

META = {
 "level": "proof",
 "rule": "Abstract interpretation of the four places that turn (object, id) into a handle (Baseline::bind_state/bind_channel, "
         "Object::state/channel) with everything they call inlined.  A handle comes back only on paths that established that "
         "the object exists, that the id's contract handle equals the object's (both halves: slot and generation), and that "
         "the field index is within the object's table for that kind of property; the handle is exactly the table's element "
         "at the id's index; states and channels use different tables, and each kind one and the same table everywhere.  "
         "Every other path is an error (Object::*: a panic), and only for one of those three reasons.",
 "trusted": ["generational_arena's contract", "derived equality of generational_arena::Index compares slot and generation"],
}
SID = "tp_client::contract::properties::states::id::StateId"
CID = "tp_client::contract::properties::channels::ChannelId"

def rule(c, d, obj, idp, adt, s, ents, panics=False, unwrap=lambda v: v):
    P = c.P
    if not c.need(d):
        return None
    w = c.loc(d)
    ci, ii = idfields(c, P, adt)
    a = P.adts[OBJECT]
    oc = [i for i, f in enumerate(a["v"][0]["f"]) if P.uty(a["types"], f["t"]) == HANDLE_C]
    c.ob("anchor:object-contract", len(oc) == 1, "Object has %d contract handles" % len(oc))
    if len(oc) != 1:
        return None
    idc, idi = s.index(('f', idp, 0, ci)), ('f', idp, 0, ii)
    objc = s.index(('f', obj, 0, oc[0]))
    m, outs = summarise(P, d, adt=None if panics else RESULT)
    tables = set()
    good = bad = 0
    def ctr(o):
        v = eqfact(o, idc, objc)
        if v is None:
            v = eqfact(o, ('f', idp, 0, ci), ('f', obj, 0, oc[0]))
        return v
    for o in outs:
        c.count("paths")
        c.ob("pure:" + d, not effects(o), "binding modifies the store", w)
        if panics or o.kind == 'Ok':
            good += 1
            v = unwrap(o.v if panics else o.payload)
            v = v[3][s.ix[0][1]] if is_adt(v, "arena::Index") else v
            v = peel(v)
            ok = v[0] == 'el' and len(v) == 3 and peel(v[2]) == idi
            c.ob("bound-element:" + d, ok, "the handle is %s, not the object's table at the id's index" % show(v)[:200], w)
            if ok:
                tb = v[1]
                tb = tb if tb[0] == 'place' else ('place', tb)
                tables.add(tb[1])
                c.ob("bounds:" + d, ltfact(o, idi, tb) == 1, "hands out an element without a bounds check: %s" % sfacts(o)[:4], w)
            c.ob("contract-checked:" + d, ctr(o) == 1,
                 "hands out a handle on a path that has not established that id and object share their contract: %s" % sfacts(o)[:4], w)
            c.ob("object-checked:" + d, all(present(o, e) for e in ents), "hands out a handle of an absent object", w)
            c.sample(outline(o, 4))
        else:
            bad += 1
            ok = any(absent(o, e) for e in ents) or ctr(o) == 0 or any(ltfact(o, idi, tb) == 0 for tb in lens(o))
            c.ob("error-has-reason:" + d, ok, "an error although object, contract and index are all right: %s" % sfacts(o)[:4], w)
    if panics:
        bad = len(m.I.panics)
        for st, site, why in m.I.panics:
            o = model.Out(st, ('i', 0), m.I)
            ok = any(absent(o, e) for e in ents) or ctr(o) == 0 or any(ltfact(o, idi, tb) == 0 for tb in lens(o))
            c.ob("panic-has-reason:" + d, ok, "panics although contract and index are all right (%s)" % why, w)
    else:
        c.ob("no-panic:" + d, not m.I.panics, "panics instead of returning an error: %s" % [p[2] for p in m.I.panics[:2]], w)
    c.ob("accepts:" + d, good >= 1, "never binds", w)
    c.ob("rejects:" + d, bad >= 2, "only %d rejecting paths" % bad, w)
    c.ob("one-table:" + d, len(tables) == 1, "hands out elements of %d tables" % len(tables), w)
    return {relative(t, obj) for t in tables}

def relative(t, obj):
    """the table's path within the object"""
    r = []
    while t[0] == 'f' and peel(t) != peel(obj):
        r.append(t[2:])
        t = t[1]
    return tuple(reversed(r))

def lens(o):
    return {t[1] for f in o.facts for t in subterms(f) if len(t) == 2 and t[0] == 'len'}

def check(c):
    s = Store(c)
    me = ('*', P0)
    e = s.entry(me, "objects", P2)
    obj = ('*', ('f', e, 1, 0))
    o1 = ('f', e, 1, 0)
    t = {}
    for kind, adt in (("state", SID), ("channel", CID)):
        t[kind] = [rule(c, "%s::bind_%s" % (BASELINE, kind), obj_form(c, s, e), P1, adt, s, [e]),
                   rule(c, "%s::%s" % (OBJECT, kind), me, P1, adt, s, [], panics=True)]
    flat = {k: set().union(*[x for x in v if x]) if any(v) else set() for k, v in t.items()}
    for k, v in flat.items():
        c.ob("same-table:" + k, len(v) == 1, "%s ids are bound through different tables: %s" % (k, sorted(v)))
    c.ob("tables-differ", not (flat["state"] & flat["channel"]), "state and channel ids are bound through the same table")
    # ids carry what they were made from
    for adt, kind in ((SID, "state"), (CID, "channel")):
        ci, ii = idfields(c, c.P, adt)
        a = adt + "::<T>::"
        d = a + "new"
        if c.need(d):
            b = c.P.items[d]
            us = [c.P.uty(b["types"], x) for x in b["ins"]]
            for o in summarise(c.P, d)[1]:
                ok = is_adt(o.v, adt) and o.v[3][ci] == ('p', us.index(HANDLE_C)) and o.v[3][ii] == ('p', us.index("usize"))
                c.ob("id-new:" + kind, ok, "%s builds %s" % (d, show(o.v)), c.loc(d))
        for f, i in (("contract", ci), ("idx", ii)):
            d = a + f
            if f == "contract" and not c.need(d):
                continue
            if d in c.P.items:
                c.analysed.add(d)
                for o in summarise(c.P, d)[1]:
                    c.ob("id-%s:%s" % (f, kind), same(o.v, ('f', me, 0, i)), "%s returns %s" % (d, show(o.v)), c.loc(d))
    d = OBJECT + "::contract"
    if c.need(d):
        a = c.P.adts[OBJECT]
        oc = [i for i, f in enumerate(a["v"][0]["f"]) if c.P.uty(a["types"], f["t"]) == HANDLE_C]
        for o in summarise(c.P, d)[1]:
            c.ob("object-contract", len(oc) == 1 and same(o.v, ('f', me, 0, oc[0])), "Object::contract returns %s" % show(o.v), c.loc(d))
    c.floor("binding functions", len(c.analysed), 8)

def obj_form(c, s, e):
    """the object behind a present entry, as the interpreter writes it"""
    return ('*', ('f', e, 1, 0))
