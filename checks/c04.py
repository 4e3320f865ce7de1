"""C04: an object's fields match its contract's declaration."""
from sa.spec import *
from sa import model
from sa.interp import State
from checks.create import D, analyse, names, TYPE, VAL, src_of, bound, strip, stored
from checks.c08 import LOSSY

META = {
 "level": "proof",
 "rule": "Abstract interpretation of object creation over any number of properties.  A property value is accepted only on paths "
         "on which the variants of the value and of the declared type at its position have been established to name the same "
         "type; a creation succeeds only on paths that have seen both lists end together; every accepted value is inserted "
         "into the table of its own type and its handle appended to the object's table of that kind, none skipped or reordered.",
 "trusted": ["itertools::zip_longest pairs by position and reports surplus elements"],
 "assumptions": ["the 14 primitive types are treated alike (the family folding checks that the arms differ only in the type)"],
}
KIND = {2: "states", 3: "channels"}
ORDER = (LOSSY - {'zip'}) | {'rev', 'next_back', 'rfold', 'pop', 'last'}

def check(c):
    P = c.P
    s = Store(c)
    if not c.need(D):
        return
    w = c.loc(D)
    me = ('*', P0)
    m, outs = analyse(c, s)
    c.count("paths", len(outs))
    oa = P.adts[OBJECT]
    vi = [i for i, f in enumerate(oa["v"][0]["f"]) if P.uty(oa["types"], f["t"]).startswith("std::vec::Vec<") or P.uty(oa["types"], f["t"]).startswith("alloc::vec::Vec<")]
    c.ob("anchor:object-tables", len(vi) == 2, "Object has %d tables" % len(vi))
    # which table is the states' and which the channels': by the accessors
    tab = {}
    for n, f in ((2, "bind_state"), (3, "bind_channel")):
        d = OBJECT + "::" + f
        if not c.need(d):
            continue
        r = set()
        for o in summarise(P, d, adt=RESULT)[1]:
            if o.kind == 'Ok':
                r |= {t[3] for t in subterms(o.v) if t[:1] == ('f',) and t[1] == ('*', P0) and t[3] in vi}
        c.ob("anchor:table-of-" + KIND[n], len(r) == 1, "%s reads tables %s" % (f, r), c.loc(d))
        tab[n] = next(iter(r), None)
    accepted = {2: set(), 3: set()}
    good = 0
    for o in outs:
        it = {t[1] for t in o.trace if t[0] == 'iter'}
        for t in o.trace:
            if t[0] == 'skipped' and o.kind == 'Ok':
                c.fail("none-skipped:" + KIND[t[1]], "creates an object without using one of the %s handed in" % KIND[t[1]], w)
            if t[0] != 'checked':
                continue
            n, x, (vc, tcs) = t[1], t[2], t[3]
            vn = names(P, VAL[n], vc)
            tn = {names(P, TYPE, tc) for tc in tcs}
            okk = len(vn or ()) == 2 and tn == {vn}
            if o.kind == 'Ok':
                c.ob("type-checked:" + KIND[n], okk, "accepts a %s value as type %s" % ('/'.join(vn or ('any',)), [('/'.join(x) if x else 'any') for x in tn] or "unknown"), w)
            accepted[n].add(vn)
        if o.kind != 'Ok':
            continue
        good += 1
        c.ob("order-kept", not (it & ORDER), "properties are passed through %s" % sorted(it & ORDER), w)
        for n in (2, 3):
            c.ob("none-dropped:" + KIND[n], ('pending', n) not in o.facts, "creates an object without using the last of the %s handed in" % KIND[n], w)
            c.ob("same-length:" + KIND[n], length_agrees(o, n, it), "creates an object although the number of %s has not been compared with the declaration" % KIND[n], w)
        ins = [t for t in effects(o) if t[0] == 'insert' and is_adt(t[2], OBJECT)]
        for t in ins:
            for n in (2, 3):
                if tab.get(n) is None:
                    continue
                v = t[2][3][tab[n]]
                els = v[1] if v[0] in ('vec', 'vec*') else None
                if els is None:
                    c.fail("table-content:" + KIND[n], "the object's %s are %s" % (KIND[n], show(v)[:100]), w)
                    continue
                for e in els:
                    c.ob("table-content:" + KIND[n], strip(e) == ('stored', n) or stored(P, s, me, strip(e), n), "the object's %s contain %s" % (KIND[n], show(e)[:200]), w)
                c.ob("all-in-table:" + KIND[n], ('unrecorded', n) not in o.facts and ('unrecorded', n) not in o.trace, "a created entry is not recorded in the object's %s" % KIND[n], w)
        c.sample(outline(o, 8))
    for n in (2, 3):
        c.ob("accepts-both-shapes:" + KIND[n], len({x[0] for x in accepted[n] if x}) == 2, "accepted %s: %s" % (KIND[n], sorted(map(str, accepted[n]))), w)
    c.ob("some-success", good >= 4, "%d succeeding paths" % good, w)
    # the dynamic type reported by values is theirs: C11

def length_agrees(o, n, it):
    def mine(t): return n in src_of(t) or any(x == ('p', n) for x in subterms(t))
    want = "IStates" if n == 2 else "IChannels"
    def decl(t): return any(want in str(x[1]) for x in bound(t))
    # (a) zipped to the longer of the two, no surplus element accepted
    if 'zip_longest' in it and not any(t[0] == 'elem' and t[1] in ('left', 'right') for t in o.trace):
        return True
    # (b) lengths compared
    for f in o.facts:
        if f[0] == 'bin' and f[1] == 'Eq' and o.fact(f, 1):
            if mine(f[2]) and decl(f[3]) or mine(f[3]) and decl(f[2]):
                return 'zip' in it or True
    # (c) both sides pulled by hand and seen to end together
    ends = [f for f in o.facts if f[0] == 'ended']
    a = [f for f in ends if mine(f[1]) and not decl(f[1])]
    b = [f for f in ends if decl(f[1]) and not mine(f[1])]
    return bool(a and b) and all(o.fact(f, 1) for f in a + b)
