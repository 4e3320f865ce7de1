"""Shared by C03 and C04: every path of object creation."""
from sa.spec import *
from sa import model
from sa.interp import State

D = BASELINE + "::object_create"
VALUE = {1: "states", 2: "channels"}

def src_of(t):
    """which of the two value iterators (2: states, 3: channels) a term comes from"""
    return {n for n in (2, 3) if any(x[:1] == ('el',) and x[1] == ('p', n) for x in subterms(t))}

def bound(t):
    """a type list the values are zipped with"""
    return [x for x in subterms(t) if x[:1] == ('call',) and str(x[1]).endswith("enumerate_types")]

def analyse(c, s):
    P = c.P
    me = ('*', P0)
    table = {2: at(me, s.states), 3: at(me, s.channels)}
    # facts about single elements and tables matter while they are in use only
    def keep(t):
        return t[0] in ('pending', 'unrecorded') or not any(x[:1] in (('old',), ('ty',), ('vec',), ('vec*',)) for x in subterms(t))
    m = model.Model(P, keep_fact=keep)
    # that a type has no table yet, until it is given one
    m.I.keep_value = lambda t, f: f == ('=', 0) and t[0] == 'd' and t[1][:2] == ('call', 'entry') and t[1][3][1][0] == 'ty'
    def on_iter(I, st, kind, it):
        st.tag(('iter', kind))
    def over(st, *ns):
        for f in list(st.facts):
            if f[0] not in ('ended', 'pending', 'unrecorded') and any(x[:1] == ('el',) for x in subterms(f)):
                del st.facts[f]
    def on_elem(I, st, kind, src, es):
        if kind == 'end':
            over(st)
            st.facts[('ended', src)] = ('=', 1)
            return
        if kind == 'next':
            st.facts[('ended', src)] = ('=', 0)
        st.tag(('elem', kind))
    def on_item(I, st, src, e):
        # a value is handed out by one of the two sources: it has to be used before the next one
        e = I.argterm(st, e)
        if src[0] not in ('vec', 'vec*') and e[0] == 'el' and e[1] in (('p', 2), ('p', 3)):
            f = ('pending', e[1][1])
            if f in st.facts:
                st.tag(('skipped', e[1][1]))
            st.facts[f] = ('=', 1)
    def on_push(I, st, v, x):
        x = I.argterm(st, x)
        if any(t[:2] == ('call', 'arena.insert') for t in subterms(x)):
            # the handle of a created entry is recorded
            e = peel(strip(x))
            for n in src_of(x):
                st.facts.pop(('unrecorded', n), None)
                if stored(P, s, me, e, n):
                    return ('stored', n)
            return None
        for n in src_of(x):
            st.facts.pop(('pending', n), None)
            st.tag(('checked', n, x, typeagree(P, st, n)))
        return None
    m.I.on_iter, m.I.on_elem, m.I.on_push, m.I.on_item = on_iter, on_elem, on_push, on_item
    m.I.on_done = lambda I, st, it: over(st)
    arena = m.arena
    def insert(I, st, mth, name, targs, args, site):
        r = arena(I, st, mth, name, targs, args, site)
        if mth == 'insert':
            for s2, v in r:
                if v[:2] == ('call', 'arena.insert') and not is_adt(v[3][1], OBJECT):
                    for n in src_of(v):
                        if ('unrecorded', n) in s2.facts:
                            s2.tag(('unrecorded', n))
                        s2.facts[('unrecorded', n)] = ('=', 1)
        return r
    m.arena = insert
    def canon(t):
        """the order of effects does not matter here, nor which iteration they belong to"""
        if t[0] == 'insert' and is_adt(t[2], OBJECT) or str(t[0]).startswith('set.'):
            return t, 2
        if t[0] in ('insert', 'tm.init'):
            for n in table:
                if contains(t[1], table[n]):
                    return ('insert', ('place', table[n]), ('u', 'entry')), 1
        if t[0] == 'checked':
            return strip(t), 1
        return t, 1
    State.canon = canon
    try:
        outs = [model.Out(st, v, m.I) for st, v in m.run(D)]
    finally:
        State.canon = None
    return m, outs

def strip(t):
    """without the bookkeeping of older loop iterations"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'old':
            return strip(t[1])
        return tuple(strip(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(strip(x) for x in t)
    return t

def stored(P, s, me, e, n):
    """arena.insert(<kind's table of the value's type>, the value)"""
    e = peel(e)
    if e[0] == 'a':
        # the typed handle around the raw index
        e = next((x for x in subterms(e) if x[:2] == ('call', 'arena.insert')), e)
    if e[:2] != ('call', 'arena.insert'):
        return False
    place, val = e[3]
    base = at(me, s.states if n == 2 else s.channels)
    if not contains(place, base) or src_of(val) != {n}:
        return False
    if n == 2:
        return is_adt(val, "tp_client::contract::properties::states::State") and val[3][0][0] == 'f' and whole(val[3][0])
    return whole(val)

def whole(t):
    """the value handed in itself: variant payloads of the element only"""
    while t[0] == 'f' and t[3] == 0:
        t = t[1]
    return t[0] == 'el'

DP = "tp_client::contract::properties::dynamic::"
TYPE = DP + "TpPropertyType"
VAL = {2: DP + "property::DynTpProperty", 3: "tp_client::contract::properties::channels::dyn_channel::DynChannel"}

def names(P, adt, ch):
    """variant names along a chain of variant numbers"""
    r = []
    for i in ch:
        a = P.adts.get(adt)
        if not a or i >= len(a["v"]):
            return None
        v = a["v"][i]
        r.append(v["n"])
        adt = P.uty(a["types"], v["f"][0]["t"]) if v["f"] else None
    return tuple(r)

def chain(st, root):
    """variant numbers along the facts about `root`"""
    r = []
    t = root
    while True:
        f = st.facts.get(('d', t))
        if not f or f[0] != '=':
            return r
        r.append(f[1])
        t = ('f', t, f[1], 0)

def typeagree(P, st, n):
    """value's and declared type's variants, as far as the path has fixed them"""
    val = ('el', ('p', n))
    vc = []
    for f in st.facts:
        if f[0] == 'd' and f[1][0] == 'el' and f[1][1] == ('p', n):
            val = f[1]
    vc = chain(st, val)
    tys = {f[1] for f in st.facts if f[0] == 'd' and f[1][0] == '*' and f[1][1][0] == 'el' and bound(f[1])}
    want = "IStates" if n == 2 else "IChannels"
    tys = {t for t in tys if any(want in str(x[1]) for x in bound(t))}
    tc = [chain(st, t) for t in tys]
    return (tuple(vc), tuple(tuple(x) for x in sorted(tc)))
