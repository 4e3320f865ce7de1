"""C01: a handle only ever yields the entry it was issued for, or an error."""
from sa.spec import *
from sa import model

META = {
 "level": "proof",
 "rule": "Abstract interpretation of the MIR of every lookup by handle (arena wrapper, Baseline accessors, IStateHandle/"
         "IChannelHandle impls, Index impls).  On every path: data is returned only after the table that belongs to the "
         "handle's type has been found to hold the handle's complete (slot, generation) index, and the data is that very "
         "entry; otherwise an error (or, for the Index operators, a panic) results; no lookup changes anything.",
 "trusted": ["generational_arena's contract: get/index/contains/remove(i) consult slot and generation of i",
             "typemap's contract: one value per key type"],
}
A = "arena::Arena::<T>::"
IX = "arena::Index<T>"

def check(c):
    P = c.P
    s = Store(c)
    # --- the arena wrapper: every operation uses the whole index, on its own arena
    me = ('*', P0)
    own = ('place', at(me, s.ga))
    ix = s.index(P1)
    e = entry(own, ix)
    for f in ("get", "get_mut"):
        lookup_rule(c, A + f, [e], opt=True)
    for f in ("<arena::Arena<T> as std::ops::Index<arena::Index<T>>>::index",
              "<arena::Arena<T> as std::ops::IndexMut<arena::Index<T>>>::index_mut"):
        lookup_rule(c, f, [e], panics=True)
    d = A + "contains"
    if c.need(d):
        m, outs = summarise(P, d, adt='bool')
        for o in outs:
            v = o.v[1] if o.v[0] == 'i' else None
            c.ob("contains-exact", (v == 1 and present(o, e)) or (v == 0 and absent(o, e)),
                 "contains() answers %s on a path with %s" % (show(o.v), sfacts(o)), c.loc(d))
            c.ob("pure:" + d, not effects(o), "contains() modifies the arena", c.loc(d))
        c.ob("contains-both", len(outs) >= 2, "contains() does not depend on the index", c.loc(d))
    d = A + "remove"
    if c.need(d):
        m, outs = summarise(P, d)
        for o in outs:
            eff = effects(o)
            if o.kind == 'Some':
                c.ob("remove-own", eff == [('remove', own, ix)] and contains(o.v, ('f', e, 1, 0)),
                     "remove() does %s and returns %s" % ([show(x) for x in eff], show(o.v)), c.loc(d))
            else:
                c.ob("remove-none", o.kind == 'None' and absent(o, e) and not eff, "remove() misses a present entry", c.loc(d))
        c.ob("remove-both", len(outs) == 2, "remove() has %d outcomes" % len(outs), c.loc(d))
    d = A + "insert"
    if c.need(d):
        m, outs = summarise(P, d)
        for o in outs:
            eff = effects(o)
            c.ob("insert-own", eff == [('insert', own, P1)], "insert() does %s" % [show(x) for x in eff], c.loc(d))
            want = ('call', 'arena.insert', (), (own, P1))
            got = [t for t in subterms(o.v) if t == want]
            idxf = o.v[3][s.ix[0][1]] if is_adt(o.v, "arena::Index") else o.v
            c.ob("insert-returns-new-index", same(idxf, want), "insert() returns %s" % show(o.v)[:200], c.loc(d))
    # handle values: construction, conversion, copying and comparing keep the whole index
    d = "arena::Index::<T>::new"
    if c.need(d):
        for o in summarise(P, d)[1]:
            c.ob("index-new", is_adt(o.v, "arena::Index") and o.v[3][s.ix[0][1]] == P0, "Index::new yields %s" % show(o.v), c.loc(d))
    for d in P.items:
        if d.startswith("arena::<impl std::convert::From<arena::Index<T>> for generational_arena::Index>::from"):
            c.analysed.add(d); c.count("index conversions")
            for o in summarise(P, d)[1]:
                c.ob("index-into", same(o.v, s.index(P0)), "conversion to the raw index yields %s" % show(o.v), c.loc(d))
    d = "<%s as std::clone::Clone>::clone" % IX
    if c.need(d):
        for o in summarise(P, d)[1]:
            f = o.v[3][s.ix[0][1]] if is_adt(o.v, "arena::Index") else o.v
            c.ob("index-clone", same(f, s.index(('*', P0))) or same(o.v, ('*', P0)), "clone of a handle yields %s" % show(o.v), c.loc(d))
    d = "<%s as std::cmp::PartialEq>::eq" % IX
    if c.need(d):
        a, b = s.index(('*', P0)), s.index(('*', P1))
        for o in summarise(P, d)[1]:
            ok = o.v[0] == 'bin' and o.v[1] == 'Eq' and {peel(o.v[2]), peel(o.v[3])} == {a, b}
            if not ok and o.v[0] == 'i':
                f = [t for t in o.facts if t[0] == 'bin' and t[1] == 'Eq' and {peel(t[2]), peel(t[3])} == {a, b}]
                ok = len(f) == 1 and o.fact(f[0], o.v[1])
            c.ob("index-eq", ok, "handle equality is %s, not equality of the whole index" % show(o.v), c.loc(d))
    for tr, f in (("cmp::PartialOrd", "partial_cmp"), ("cmp::Ord", "cmp")):
        d = "<%s as std::%s>::%s" % (IX, tr, f)
        if c.need(d):
            for o in summarise(P, d)[1]:
                ar = [peel(x) for x in o.v[3]] if o.v[0] == 'call' else []
                if o.kind == 'Some' and o.payload[0] == 'call':
                    ar = [peel(x) for x in o.payload[3]]
                c.ob("index-order", ar == [s.index(('*', P0)), s.index(('*', P1))], "handle order is %s" % show(o.v), c.loc(d))
    # iterating hands out each entry with its own index
    for it in ("Iter", "IterMut"):
        for tr, f in (("iter::Iterator", "next"), ("iter::DoubleEndedIterator", "next_back")):
            d = "<arena::%s<'a, T> as std::%s>::%s" % (it, tr, f)
            if not c.need(d):
                continue
            for o in summarise(P, d, adt=OPTION)[1]:
                if o.kind != 'Some':
                    continue
                p = o.payload
                ok = p[0] == 'a' and len(p[3]) == 2 and is_adt(p[3][0], "arena::Index")
                if ok:
                    i, v = peel(p[3][0][3][s.ix[0][1]]), peel(p[3][1])
                    ok = i[0] == 'f' and v[0] == 'f' and i[1] == v[1] and (i[3], v[3]) == (0, 1)
                c.ob("iter-pairs", ok, "iteration yields %s" % show(o.v)[:200], c.loc(d))
    # --- Baseline accessors
    B = BASELINE + "::"
    for f, which in (("object", "objects"), ("object_mut", "objects"), ("contract_data", "contracts")):
        lookup_rule(c, B + f, [s.entry(me, which, P1)])
    key = {}
    CH = "tp_client::contract::properties::channels::channel::Channel<T>"
    ST = "tp_client::contract::properties::states::State<T>"
    def typed(d, which, base, h, **kw):
        if not c.need(d):
            return
        ks = {k for k in keys(summarise(P, d)[1])}
        c.ob("one-table:" + d, len(ks) == 1, "looks into %d typed tables: %s" % (len(ks), sorted(ks)), c.loc(d))
        if len(ks) != 1:
            return
        k = ks.pop()
        key.setdefault(which, set()).add(k)
        lookup_rule(c, d, list(s.typed(base, which, k, h)), **kw)
    typed(B + "channel", "channels", me, P1)
    typed(B + "channel_mut", "channels", me, P1)
    SH = "<arena::Index<%s> as tp_client::contract::properties::states::handle::IStateHandle>::" % ST
    CHH = "<arena::Index<%s> as tp_client::contract::properties::channels::handle::IChannelHandle>::" % CH
    for f in ("get", "get_mut"):
        typed(SH + f, "states", ('*', P1), ('*', P0))
        typed(CHH + f, "channels", ('*', P1), ('*', P0))
    for tr, f in (("Index", "index"), ("IndexMut", "index_mut")):
        lookup_rule(c, "<%s as std::ops::%s<arena::Index<%s>>>::%s" % (BASELINE, tr, OBJECT, f), [s.entry(me, "objects", P1)], panics=True)
        typed("<%s as std::ops::%s<arena::Index<%s>>>::%s" % (BASELINE, tr, ST, f), "states", me, P1, panics=True)
        typed("<%s as std::ops::%s<arena::Index<%s>>>::%s" % (BASELINE, tr, CH, f), "channels", me, P1, panics=True)
    for which, ks in key.items():
        c.ob("one-key:" + which, len(ks) == 1, "the %s tables are looked up under %d different keys: %s" % (which, len(ks), sorted(ks)))
    # --- dynamic handles: the same, for the type the handle's variant names
    for kind, tr in (("State", "states::handle::IStateHandle"), ("Channel", "channels::handle::IChannelHandle")):
        which = kind.lower() + "s"
        for f in ("get", "get_mut"):
            ds = [d for d in P.items if d.startswith("<tp_client::") and ("Dyn%sHandle as " % kind) in d and d.endswith(tr + ">::" + f)]
            c.ob("anchor:dyn-%s-%s" % (kind, f), len(ds) == 1, "Dyn%sHandle::%s not found" % (kind, f))
            for d in ds:
                c.analysed.add(d)
                m, outs = summarise(P, d)
                hit = miss = 0
                for o in outs:
                    c.count("paths")
                    c.ob("pure:" + d, not effects(o), "a lookup modifies the store", c.loc(d))
                    ks = keys([o])
                    ents = None
                    vs = [t for t in o.facts if t[0] == 'd' and not contains(t, 'entry') and contains(t, ('*', P0))]
                    if len(ks) == 1:
                        k = next(iter(ks))
                        # the payload of the innermost variant reached is the typed handle
                        es = [t for fct in o.facts for t in subterms(fct) if t[:2] == ('call', 'entry')]
                        hs = {t[3][1] for t in es if t[3][1][0] != 'ty'}
                        tm = entry(s.place(('*', P1), which), ('ty', k))
                        if not hs:
                            ents = [tm]
                        elif len(hs) == 1:
                            h = next(iter(hs))
                            okh = contains(h, ('*', P0)) and h[0] == 'f' and h[2:] == s.ix[-1]
                            c.ob("dyn-own-handle:" + d, okh, "uses the index %s instead of its own handle's" % show(h), c.loc(d))
                            inner = at(('*', ('f', tm, 1, 0)), s.ga)
                            ents = [tm, entry(('place', inner), h)]
                    c.ob("dyn-one-table:" + d, ents is not None, "consults %s" % sorted(ks), c.loc(d))
                    if ents is None:
                        continue
                    if o.kind == 'Ok':
                        hit += 1
                        c.ob("dyn-hit:" + d, len(ents) == 2 and all(present(o, x) for x in ents) and contains(o.v, ('f', ents[-1], 1, 0)),
                             "returns %s" % show(o.v)[:200], c.loc(d))
                        others = [t for t in subterms(o.v) if t[:2] == ('call', 'entry') and t not in ents]
                        c.ob("dyn-hit-only:" + d, not others, "mixes in other entries", c.loc(d))
                        c.sample(outline(o, 3))
                    else:
                        miss += 1
                        c.ob("dyn-miss:" + d, any(absent(o, x) for x in ents), "error although the entry exists", c.loc(d))
                c.ob("dyn-both:" + d, hit >= 2 and miss >= 2, "hits %d, misses %d" % (hit, miss), c.loc(d))
                c.ob("no-panic:" + d, not m.I.panics, "can panic", c.loc(d))
    c.floor("lookup functions", len(c.analysed), 30)
