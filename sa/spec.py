"""Helpers shared by the checks: anchors by type, expected terms, accessor rules."""
import re
from . import model, interp
from .interp import OPTION, RESULT, is_adt, subterms, contains
from .model import entry, summarise
from .show import show, outline, facts as sfacts

BASELINE = "tp_client::baseline::Baseline"
OBJECT = "tp_client::object::Object"
CDATA = "tp_client::contract::ContractData"
P0, P1, P2, P3 = ('p', 0), ('p', 1), ('p', 2), ('p', 3)

def deref(t): return ('*', t)

def paths(P, adt, pred, depth=4, via=None):
    """Field paths (variant, index)… inside `adt` to fields whose type satisfies pred."""
    out = []
    a = P.adts.get(adt)
    if not a or depth == 0 or a["enum"]:
        return out
    for i, f in enumerate(a["v"][0]["f"]):
        ty = a["types"][f["t"]]
        u = P.uty(a["types"], f["t"])
        if pred(u):
            out.append([(0, i)])
        elif ty["k"] == "adt" and P.adts.get(ty["u"], {}).get("local"):
            for p in paths(P, ty["u"], pred, depth - 1):
                out.append([(0, i)] + p)
    return out

def at(base, path):
    for v, i in path:
        base = ('f', base, v, i)
    return base

def ga_path(P):
    """arena::Arena<T> -> the generational arena inside."""
    r = paths(P, "arena::Arena", lambda u: u.startswith("generational_arena::Arena<"))
    return r[0] if len(r) == 1 else None

def idx_path(P):
    r = paths(P, "arena::Index", lambda u: u == "generational_arena::Index")
    return r[0] if len(r) == 1 else None

class Store:
    """Where Baseline keeps its four tables, found by type."""
    def __init__(self, c, need=True):
        P = self.P = c.P
        self.ga, self.ix = ga_path(P), idx_path(P)
        c.ob("anchor:arena", self.ga and self.ix, "arena::Arena / arena::Index do not wrap generational_arena once")
        def one(pred, what):
            r = paths(P, BASELINE, pred)
            c.ob("anchor:" + what, len(r) == 1, "Baseline has %d tables of type %s, expected 1" % (len(r), what), P.loc(BASELINE))
            return r[0] if r else [(0, 99)]
        self.objects = one(lambda u: u == "arena::Arena<%s>" % OBJECT, "Arena<Object>") + self.ga
        self.contracts = one(lambda u: u == "arena::Arena<%s>" % CDATA, "Arena<ContractData>") + self.ga
        tm = lambda u: u.startswith("typemap::TypeMap<")
        def sub(name):
            a = [p for p in paths(P, BASELINE, lambda u: u.endswith("::" + name))]
            inner = [p for p in paths(P, self.find_adt(name), tm)] if self.find_adt(name) else []
            ok = len(a) == 1 and len(inner) == 1
            c.ob("anchor:" + name, ok, "Baseline does not hold exactly one " + name, P.loc(BASELINE))
            return a[0] + inner[0] if ok else [(0, 98)]
        self.states = sub("StateArenaMap")
        self.channels = sub("ChannelArenaMap")

    def find_adt(self, name):
        r = [a for a in self.P.adts if a.endswith("::" + name) and self.P.adts[a].get("local")]
        return r[0] if len(r) == 1 else None

    def place(self, base, which):
        return ('place', at(base, getattr(self, which)))

    def index(self, h):
        """the raw index inside an arena::Index term"""
        return at(h, self.ix)

    def entry(self, base, which, h):
        return entry(self.place(base, which), self.index(h))

    def typed(self, base, which, key, h):
        tm = entry(self.place(base, which), ('ty', key))
        inner = at(('*', ('f', tm, 1, 0)), self.ga)
        return tm, entry(('place', inner), self.index(h))

def keys(term_or_outs):
    r = set()
    for o in term_or_outs:
        for f in list(o.facts) + list(o.trace) + [o.v]:
            for t in subterms(f):
                if len(t) == 2 and t[0] == 'ty':
                    r.add(t[1])
    return r

def present(o, e):
    return o.fact(('d', e), 1)

def absent(o, e):
    return o.fact(('d', e), 0) or o.notfact(('d', e), 1)

def same(a, b):
    """Equality of terms up to reference wrapping."""
    return peel(a) == peel(b)

def peel(t):
    while True:
        if t[0] in ('ref', 'o'):
            t = t[1]
        elif t[0] == '*' and t[1][0] == 'ref':
            t = t[1][1]
        elif t[0] == '&' and t[1][0] == 'X':
            b = t[1][1]
            b = b[1] if b[0] == 'ref' else ('*', b)
            for e in t[2]:
                if e[0] == 'f':
                    b = ('f', b, e[1], e[2])
                else:
                    b = ('el', b) + tuple(e[1:2])
            t = b
        elif t[0] == '*' and t[1][0] == '&':
            t = t[1]
        else:
            return t

def effects(o):
    """Mutations on a path (tags), without bookkeeping ones."""
    return [t for t in o.trace if t[0] in ('write', 'insert', 'remove', 'clear', 'drain', 'retain', 'tm.init', 'tm.insert', 'tm.remove')
            or str(t[0]).startswith('set.')]

def lookup_rule(c, d, ents, panics=False, opt=False, payload=None):
    """`d` returns the entry when it is there, an error when it is not, and touches
    nothing.  ents: list of entries that must all be present (last = the payload)."""
    if not c.need(d):
        return None
    m, outs = summarise(c.P, d, adt=None if panics else (OPTION if opt else RESULT))
    w = c.loc(d)
    e = ents[-1]
    good = bad = 0
    want = payload or ('f', e, 1, 0)
    for o in outs:
        c.count("paths")
        eff = effects(o)
        c.ob("pure:" + d, not eff, "a lookup modifies %s" % [show(x) for x in eff[:2]], w)
        if panics or o.kind in ('Ok', 'Some'):
            good += 1
            v = o.v if panics else o.payload
            c.ob("hit-needs-presence:" + d, all(present(o, x) for x in ents),
                 "returns data on a path that has not established that the handle's entry exists: " + show(o.v)[:200], w)
            c.ob("hit-is-own-entry:" + d, same(v, want),
                 "returns %s instead of %s" % (show(v)[:200], show(want)[:160]), w)
        else:
            bad += 1
            c.ob("miss-only-when-absent:" + d, any(absent(o, x) for x in ents),
                 "reports a missing entry on a path where the entry exists", w)
        c.sample(outline(o, 4))
    c.ob("has-hit:" + d, good >= 1, "no path returns the entry", w)
    if panics:
        for st, site, why in m.I.panics:
            o = model.Out(st, ('i', 0), m.I)
            c.ob("panic-only-when-absent:" + d, any(absent(o, x) for x in ents), "panics on a path where the entry exists (%s)" % why, w)
        c.ob("has-miss:" + d, len(m.I.panics) >= 1, "no path rejects a dead handle", w)
    else:
        c.ob("has-miss:" + d, bad >= 1, "no path rejects a dead handle", w)
        c.ob("no-panic:" + d, not m.I.panics, "panics instead of returning an error: %s" % [p[2] for p in m.I.panics[:2]], w)
    return m, outs

# ---- facts about equality and bounds, however they were written
def eqfact(o, a, b):
    """1: the path established a == b, 0: a != b, None: neither."""
    a, b = peel(a), peel(b)
    for t, f in o.facts.items():
        if t[0] == 'bin' and t[1] in ('Eq', 'Ne') and len(t) == 4 and {peel(t[2]), peel(t[3])} == {a, b}:
            v = 1 if o.fact(t, 1) else 0 if o.fact(t, 0) else None
            if v is None:
                continue
            return v if t[1] == 'Eq' else 1 - v
    return None

def ltfact(o, i, place):
    """1: the path established i < len(place), 0: not, None: neither."""
    i = peel(i)
    for t, f in o.facts.items():
        if t[0] != 'bin' or len(t) != 4:
            continue
        a, b = peel(t[2]), peel(t[3])
        n = ('len', place)
        v = 1 if o.fact(t, 1) else 0 if o.fact(t, 0) else None
        if v is None:
            continue
        if (a, b) == (i, n):
            if t[1] == 'Lt': return v
            if t[1] == 'Ge': return 1 - v
        if (a, b) == (n, i):
            if t[1] == 'Gt': return v
            if t[1] == 'Le': return 1 - v
    return None

HANDLE_C = "arena::Index<%s>" % CDATA

def idfields(c, P, adt):
    """(contract path, index path) of an id type, by field type."""
    a = P.adts.get(adt)
    if not a:
        c.fail("anchor:" + adt, "id type missing")
        return None, None
    fs = [P.uty(a["types"], f["t"]) for f in a["v"][0]["f"]]
    ci = [i for i, u in enumerate(fs) if u == HANDLE_C]
    ii = [i for i, u in enumerate(fs) if u == "usize"]
    c.ob("anchor:fields:" + adt, len(ci) == 1 and len(ii) == 1, "%s has fields %s" % (adt, fs))
    return (ci or [90])[0], (ii or [91])[0]
