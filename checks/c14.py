"""C14: a contract's ids are enumerated in order, each once, with its own type; look-up by position agrees."""
import re
from sa.spec import *
from sa.interp import Limit

META = {
 "level": "proof",
 "rule": "Every iterator over property ids is interpreted with symbolic position, step and declared types: a new one starts at 0 with the "
         "given contract; next yields the id (contract, position, type at position) exactly when position < number of types, and then "
         "stands one further; nth(n), where overridden, yields the id at position+n (computed without overflow) exactly when that is "
         "below the number of types, and then stands one past it, otherwise at the end; the size hint is the number of remaining ids. "
         "A contract's id by position is (its handle, position, type at position) exactly when the position is below the number of "
         "types; its iterators start at 0 with its handle.  Arithmetic is compared as linear expressions under the path's comparisons.",
}
KINDS = {"DynStateId": "IStates", "DynChannelId": "IChannels"}

class Lin:
    """Linear forms over atoms, under the comparisons a path established."""
    def __init__(self, o):
        self.o = o
        self.plain = []         # additions whose operands nothing bounds
    def fact(self, a, b):
        t = ('bin', 'Lt', a, b)
        return 1 if self.o.fact(t, 1) else 0 if self.o.fact(t, 0) else None
    def below(self, t):
        """the path knows that t is below something"""
        return any(f[0] == 'bin' and f[1] == 'Lt' and f[2] == t and self.o.fact(f, 1) for f in self.o.facts)
    def lin(self, t, small=False):
        t = peel(t)
        if t[0] == 'i':
            return {1: t[1]} if t[1] else {}
        if t[0] == 'len' and base(t[1])[0] == 'call' and re.search(r"Index.*::index$", str(base(t[1])[1])):
            x, r = base(t[1])[3]
            if r[0] == 'a' and r[1].endswith("RangeFrom"):
                return add(self.lin(('len', x)), self.lin(r[3][0]), -1)
        if t[0] == 'len':
            return {('len', base(t[1])): 1}
        small = small or self.below(t)
        if t[0] == 'f' and t[2] == 0 and t[1][0] == 'bin':
            t = t[1]
        if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
            a, b = self.lin(t[2], small), self.lin(t[3], small)
            if t[1] == 'Add' and not small and not any(x[0] == 'i' for x in t[2:]):
                self.plain.append(t)
            return add(a, b, 1 if t[1] == 'Add' else -1)
        if t[0] == 'call':
            n = str(t[1]).rsplit("::", 1)[-1]
            if n == 'saturating_add' and small:
                return add(self.lin(t[3][0], True), self.lin(t[3][1], True), 1)
            if n in ('min', 'integer_min'):
                a, b = t[3]
                for x, y in ((a, b), (b, a)):
                    f = self.fact(t, y)
                    if f == 1:
                        return self.lin(x, True)
                    if f == 0:
                        return self.lin(y)
        if t[0] == 'f' and t[2] == 1 and t[1][0] == 'call' and str(t[1][1]).endswith("checked_add"):
            return add(self.lin(t[1][3][0]), self.lin(t[1][3][1]), 1)
        return {t: 1}

def add(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r

def types_term(o, v=()):
    """the declared types the path consulted: the `enumerate_types()` slice"""
    r = set()
    for t in list(o.facts) + [o.v] + list(v):
        for s in subterms(t):
            if len(s) == 4 and s[0] == 'call' and str(s[1]).endswith("::enumerate_types"):
                r.add(s)
    return r

def compared(o, want):
    """1: the path knows want(L) > 0; 0: it knows want(L) <= 0.  want: linear form."""
    L = Lin(o)
    for t in list(o.facts):
        if t[0] == 'bin' and t[1] == 'Lt':
            v = 1 if o.fact(t, 1) else 0 if o.fact(t, 0) else None
            if v is None:
                continue
            x, y = t[2], t[3]
            if x[0] == 'call' and str(x[1]).endswith(("::min", "integer_min")) and y in x[3]:
                # min(a, b) < b  <=>  a < b
                x = x[3][0] if x[3][1] == y else x[3][1]
            d = add(L.lin(y, v == 1), L.lin(x, v == 1), -1)
            if v == 0 and d != want:
                # a saturated sum is not below anything either
                L2 = Lin(o)
                d = add(L2.lin(y, True), L2.lin(x, True), -1)
            if d == want:
                return v
            # a < b  <=>  not (b - a <= 0)
            if add({}, d, -1) == add(want, {1: 1}, -1):
                return 1 - v
        if t[0] == 'bin' and t[1] == 'Eq':
            continue
        if t[0] == 'd' and t[1][0] == 'call' and str(t[1][1]).endswith("checked_add") and o.fact(t, 0):
            return 0
    return None

def names(P, v):
    """variant names along the payload of a dynamic id: [Primitive|Vec, kind]"""
    r = []
    while v[0] == 'a' and v[1][:2] == 'A:' and P.adts.get(v[1][2:], {}).get("enum"):
        r.append(P.adts[v[1][2:]]["v"][v[2]]["n"])
        v = v[3][0] if v[3] else ('i', 0)
    return r, v

def type_names(P, o, el):
    r = []
    adt = next(a for a in P.adts if a.endswith("::TpPropertyType") and P.adts[a].get("local"))
    while True:
        f = o.facts.get(('d', el))
        if not f or f[0] != '=':
            return r
        vs = P.adts[adt]["v"]
        v = next((i for i, x in enumerate(vs) if x["d"] == f[1]), None)
        if v is None:
            return r
        r.append(vs[v]["n"])
        if not vs[v]["f"]:
            return r
        ty = P.adts[adt]["types"][vs[v]["f"][0]["t"]]
        adt = ty.get("u")
        if adt not in P.adts:
            return r
        el = ('f', el, v, 0)

def yields(c, P, o, key, w, idx, contract, ty, fl):
    """Some(id): (contract, idx, types[idx])"""
    nm, v = names(P, o.payload)
    L = Lin(o)
    ci, ii = fl
    if not (v[0] == 'a' and len(v[3]) > max(ci, ii)):
        raise Limit("%s yields %s" % (key, show(o.v)[:120]))
    got = L.lin(v[3][ii])
    c.ob("index:" + key, got == idx, "the id's position is %s" % show(v[3][ii])[:120], w)
    # a sum that the path knows to be below the number of fields does not overflow
    L.plain = [t for t in L.plain if compared(o, add(length(ty, o), Lin(o).lin(t), -1)) != 1]
    c.ob("no-overflow:" + key, not L.plain, "a position is computed as %s without a bound" % [show(x)[:80] for x in L.plain[:1]], w)
    c.ob("contract:" + key, peel(v[3][ci]) == contract, "the id's contract is %s" % show(v[3][ci])[:120], w)
    # the declared type at that position
    els = [s for f in o.facts for s in subterms(f) if len(s) == 3 and s[0] == 'el' and peel_deref(s[1]) == ty]
    els = [e for e in els if Lin(o).lin(e[2]) == idx]
    tn = max((type_names(P, o, e) for e in els), key=len, default=[])
    c.ob("type:" + key, tn == nm and len(nm) == 2, "the id is of kind %s where the declared type at its position is %s" % (nm, tn), w)

def base(t):
    t = peel(t)
    while t[0] in ('*', 'place'):
        t = peel(t[1])
    return t
peel_deref = base

def length(ty, o):
    """len(*types) as it occurs"""
    return {('len', ty): 1}

def pos_after(m, o, pf):
    return m.I.read(o.st, ('X', P0), [('f', 0, pf)])

def check(c):
    P = c.P
    n = 0
    for im in P.impls:
        if not (im.get("trait") or "").endswith("iter::Iterator") and (im.get("trait") or "") != "std::iter::Iterator":
            continue
        st = im["types"][im["self"]]
        if st["k"] != "adt" or not st["u"].startswith("tp_client::") or "c_api" in st["u"]:
            continue
        adt = st["u"]
        a = P.adts.get(adt)
        fs = [P.uty(a["types"], f["t"]) for f in a["v"][0]["f"]] if a else []
        if HANDLE_C not in fs or fs.count("usize") != 1:
            continue
        items = {x["n"]: x["def"] for x in im["items"]}
        n += 1
        cf, pf = fs.index(HANDLE_C), fs.index("usize")
        pos, con = ('f', ('*', P0), 0, pf), ('f', ('*', P0), 0, cf)
        idn = None
        w = c.loc(items["next"])
        # -- next
        run_iter(c, P, items["next"], pos, con, pf, {}, False)
        if "nth" in items:
            run_iter(c, P, items["nth"], pos, con, pf, {P1: 1}, True)
        if "size_hint" in items:
            size_hint(c, P, items["size_hint"], pos)
        extra = set(items) - {"Item", "next", "nth", "size_hint"}
        for x in sorted(extra):
            c.notes.append("%s overrides %s: not decided" % (adt, x))
        mk = adt + "::<S>::new" if (adt + "::<S>::new") in P.items else next((d for d in P.items if re.fullmatch(re.escape(adt) + r"(::)?<.*>::new", d)), None)
        if c.ob("anchor:new:" + adt, mk, "no constructor of %s" % adt):
            m, outs = summarise(P, mk)
            c.analysed.add(mk)
            c.ob("new-one-outcome:" + adt, len(outs) == 1 and not m.I.panics, "%d outcomes" % len(outs), c.loc(mk))
            for o in outs:
                starts(c, P, "new:" + adt, o.v, P0, c.loc(mk))
    c.floor("iterators", n, 2)
    # -- by position, and the contract's own iterators
    for meth, tr, isid in (("state_id", "IStates", 1), ("chan_id", "IChannels", 1), ("state_iter", "IStates", 0), ("chan_iter", "IChannels", 0)):
        d = "tp_client::contract::Contract::" + meth
        if not c.need(d):
            continue
        m, outs = summarise(P, d, adt=OPTION if isid else None)
        w = c.loc(d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
        hs = {t for o in outs for t in subterms(o.v) if len(t) == 4 and t[0] == 'call' and str(t[1]).endswith("Contract::handle")}
        h = next((t for t in hs if peel(t[3][0]) == P0), None)
        some = none = 0
        for o in outs:
            c.count("paths")
            c.ob("pure:" + d, not effects(o), "a look-up modifies its contract", w)
            if not isid:
                starts(c, P, d, o.v, h, w)
                continue
            tys = [t for t in types_term(o) if t[1].endswith("%s::enumerate_types" % tr)]
            if len(tys) != 1:
                c.fail("consults-types:" + d, "a path consults %s" % [show(t) for t in tys], w); continue
            want = add(length(tys[0], o), {P1: 1}, -1)
            known = compared(o, want)
            if o.kind == 'Some':
                some += 1
                c.ob("in-range:" + d, known == 1, "an id is given on a path that has not established that the position is in range", w)
                yields(c, P, o, d, w, {P1: 1}, h, tys[0], fl(c, P, o))
            else:
                none += 1
                c.ob("refused-only-beyond:" + d, known == 0, "no id is given on a path where the position is in range", w)
            c.sample(outline(o, 3))
        if isid:
            c.ob("has-both:" + d, some and none, "%d paths give an id, %d none" % (some, none), w)

def fl(c, P, o):
    nm, v = names(P, o.payload)
    return idfields(c, P, v[1][2:]) if v[0] == 'a' else (0, 1)

def starts(c, P, key, v, h, w):
    if not (v[0] == 'a' and v[1][:2] == 'A:'):
        raise Limit("%s returns %s" % (key, show(v)[:100]))
    a = P.adts[v[1][2:]]
    fs = [P.uty(a["types"], f["t"]) for f in a["v"][0]["f"]]
    ok = HANDLE_C in fs and "usize" in fs and h is not None
    c.ob("starts:" + key, ok and peel(v[3][fs.index(HANDLE_C)]) == h and v[3][fs.index("usize")] == ('i', 0),
         "starts as %s" % show(v)[:120], w)

def overflowed(o):
    return any(t[0] == 'd' and t[1][0] == 'call' and str(t[1][1]).endswith("checked_add") and o.fact(t, 0) for t in o.facts)

def run_iter(c, P, d, pos, con, pf, step, skip):
    m, outs = summarise(P, d, adt=OPTION)
    c.analysed.add(d)
    w = c.loc(d)
    c.ob("no-panic:" + d, not m.I.panics, "may panic: %s" % [x[2] for x in m.I.panics[:1]], w)
    some = none = 0
    for o in outs:
        c.count("paths")
        end = pos_after(m, o, pf)
        tys = types_term(o, [end])
        if not tys and o.kind == 'None' and overflowed(o):
            # a position beyond the representable ones; the iterator must still be brought to its end
            c.fail("stays-at-end:" + d, "stands at %s after the end" % show(end)[:120], w); continue
        if len(tys) != 1:
            c.fail("consults-types:" + d, "a path consults %s" % [show(t) for t in tys], w); continue
        ty = next(iter(tys))
        n = length(ty, o)
        idx = add({pos: 1}, step, 1)
        known = compared(o, add(n, idx, -1))
        c.ob("contract-kept:" + d, not [t for t in o.trace if t[0] == 'write' and contains(t, con)], "an iterator's contract is modified", w)
        L = Lin(o)
        if o.kind == 'Some':
            some += 1
            c.ob("in-range:" + d, known == 1, "an id is given on a path that has not established that its position is in range: %s" % outline(o, 3)["when"], w)
            yields(c, P, o, d, w, idx, con, ty, fl(c, P, o))
            c.ob("advances:" + d, L.lin(end) == add(idx, {1: 1}, 1), "stands at %s after giving an id" % show(end)[:120], w)
        else:
            none += 1
            c.ob("ends-only-beyond:" + d, known == 0, "ends on a path where an id remains: %s" % outline(o, 3)["when"], w)
            e = L.lin(end)
            c.ob("stays-at-end:" + d, e == n or (e == {pos: 1} and compared(o, add(n, {pos: 1}, -1)) == 0),
                 "stands at %s after the end" % show(end)[:120], w)
        c.sample(outline(o, 3))
    c.ob("has-both:" + d, some and none, "%d paths give an id, %d none" % (some, none), w)

def size_hint(c, P, d, pos):
    m, outs = summarise(P, d)
    c.analysed.add(d)
    w = c.loc(d)
    c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
    for o in outs:
        c.count("paths")
        c.ob("pure:" + d, not effects(o), "the size hint modifies the iterator", w)
        tys = types_term(o)
        if len(tys) != 1:
            c.fail("consults-types:" + d, "a path consults %s" % [show(t) for t in tys], w); continue
        want = add(length(next(iter(tys)), o), {pos: 1}, -1)
        v = o.v
        if not (v[0] == 'a' and len(v[3]) == 2):
            raise Limit("%s returns %s" % (d, show(v)[:100]))
        def rem(x):
            x = peel(x)
            if x[0] == 'call' and str(x[1]).endswith("saturating_sub"):
                return add(Lin(o).lin(x[3][0]), Lin(o).lin(x[3][1]), -1)
            return Lin(o).lin(x)
        lo, hi = v[3]
        c.ob("hint-lower:" + d, rem(lo) in (want, {}), "the lower bound is %s" % show(lo)[:120], w)
        if hi[0] == 'a' and hi[2] == 1:
            c.ob("hint-upper:" + d, rem(hi[3][0]) == want, "the upper bound is %s" % show(hi)[:120], w)
