"""C20: arenas, realms, engines, objects and contract records hand back what was put in."""
import re
from sa.spec import *
from sa import model
from sa.interp import OPTION

META = {
 "level": "proof",
 "rule": "Every function of the arena is interpreted on an arbitrary arena and index: inserting puts exactly the given value into the "
         "underlying generational arena and returns that index; lookup, removal and containment use the given index, change nothing else, and "
         "agree with each other; the iterators hand out each item of the underlying iterator of the same direction once, under its own index, "
         "and report its own size; conversions keep all values.  Constructors of realm, engine, object and contract record store each argument "
         "in one field, every accessor pair returns that field, and an engine's sender and receiver are the two ends of one queue of the "
         "requested capacity.",
 "trusted": ["generational_arena and crossbeam-channel do what they document"],
}
A = "arena::Arena::<T>::"
IT = re.compile(r"<generational_arena::(Iter|IterMut|IntoIter|Drain)<.*> as std::iter::(\w+)>::(\w+)$")

class Chan:
    n = 0

def leaf(mm, I, st, callee, name, targs, args, site):
    m = IT.search(name)
    if m:
        t = ('call', 'ga.' + m.group(3), (), (model.placeterm(I, st, args[0]),) + tuple(I.argterm(st, a) for a in args[1:]))
        if m.group(3) in ("next", "next_back", "nth", "nth_back", "last"):
            st.tag(('step', m.group(3)))
        return [(st, t)]
    if re.search(r"generational_arena::Arena<.*FromIterator.*::from_iter$", name):
        return [(st, ('call', 'arena.from_iter', (), (I.argterm(st, args[0]),)))]
    if re.search(r"crossbeam_channel::(channel::)?(bounded|unbounded)$", name):
        Chan.n += 1
        return [(st, ('call', 'chan.' + name.rsplit("::", 1)[-1], (), tuple(I.argterm(st, a) for a in args) + (('i', Chan.n),)))]
    if re.search(r"std::iter::Iterator>?::collect(::<.*)?$", name) and "generational_arena::Arena<" in str(callee.get("u", "")) + " ".join(map(str, targs)):
        return [(st, ('call', 'arena.from_iter', (), (I.argterm(st, args[0]),)))]
    if re.search(r"IntoIterator>?::into_iter(::<.*)?$", name) and len(args) == 1 and "generational_arena::" not in name:
        return [(st, I.argterm(st, args[0]))]
    return None

def paths_of(c, d, adt=None):
    m, outs = summarise(c.P, d, adt=adt, leaf=leaf)
    c.count("functions"); c.count("paths", len(outs))
    c.ob("no-panic:" + d, not m.I.panics, "may panic: %s" % [str(p[2])[:80] for p in m.I.panics[:1]], c.loc(d))
    c.ob("returns:" + d, outs, "never returns", c.loc(d))
    for o in outs:
        c.sample({d: outline(o, 2)})
    return outs

def check(c):
    P = c.P
    s = Store(c)
    if not (s.ga and s.ix):
        return
    ga = at(('*', P0), s.ga)
    place = ('place', ga)
    raw = at(P1, s.ix)

    def is_arena(v, what):
        "an arena value whose generational arena is `what`"
        return is_adt(v, "arena::Arena") and what(v[3][s.ga[0][1]])

    def pure(d, o):
        c.ob("pure:" + d, not effects(o), "modifies %s" % [show(x) for x in effects(o)[:2]], c.loc(d))

    # -- construction
    fresh = lambda v: v[0] == 'call' and v[1] == 'arena.new'
    for d in (A + "new", A + "with_capacity", "<arena::Arena<T> as std::default::Default>::default"):
        if c.need(d):
            for o in paths_of(c, d):
                pure(d, o)
                c.ob("empty:" + d, is_arena(o.v, fresh), "makes %s" % show(o.v)[:120], c.loc(d))
    d = "<arena::Arena<T> as std::iter::FromIterator<T>>::from_iter"
    if c.need(d):
        for o in paths_of(c, d):
            ok = is_arena(o.v, lambda v: v[0] == 'call' and v[1] == 'arena.from_iter' and peel(v[3][0]) == P0)
            c.ob("collects:" + d, ok, "makes %s" % show(o.v)[:120], c.loc(d))

    # -- insert, remove, contains, get
    d = A + "insert"
    if c.need(d):
        for o in paths_of(c, d):
            e = effects(o)
            c.ob("inserts-once:" + d, len(e) == 1 and e[0][0] == 'insert' and e[0][1] == place and peel(e[0][2]) == P1, "does %s" % [show(x)[:80] for x in e], c.loc(d))
            v = at(o.v, s.ix) if o.v[0] != 'a' else o.v[3][s.ix[0][1]]
            while v[0] == 'o' or v[:2] == ('call', 'cap'):
                v = v[1] if v[0] == 'o' else v[3][0]
            c.ob("own-index:" + d, v[:2] == ('call', 'arena.insert') and v[3] == (place, P1), "returns %s" % show(o.v)[:160], c.loc(d))
    e = entry(place, raw)
    for f in ("get", "get_mut"):
        d = A + f
        lookup_rule(c, d, [e], opt=True)
    for d in ("<arena::Arena<T> as std::ops::Index<arena::Index<T>>>::index", "<arena::Arena<T> as std::ops::IndexMut<arena::Index<T>>>::index_mut"):
        lookup_rule(c, d, [e], panics=True)
    d = A + "contains"
    if c.need(d):
        got = set()
        for o in paths_of(c, d, 'bool'):
            pure(d, o)
            k = 1 if present(o, e) else 0 if absent(o, e) else None
            got.add(k)
            c.ob("agrees:" + d, o.v == ('i', k), "answers %s when the index is %s" % (show(o.v), {1: "live", 0: "dead", None: "undecided"}[k]), c.loc(d))
        c.ob("both:" + d, got == {0, 1}, "answers only %s" % got, c.loc(d))
    d = A + "remove"
    if c.need(d):
        got = set()
        for o in paths_of(c, d, OPTION):
            ef = effects(o)
            got.add(o.kind)
            if o.kind == 'Some':
                c.ob("removes-that:" + d, ef == [('remove', place, raw)], "does %s" % [show(x)[:80] for x in ef], c.loc(d))
                c.ob("returns-it:" + d, o.payload == ('moved', ('f', e, 1, 0)), "returns %s" % show(o.v)[:120], c.loc(d))
            else:
                c.ob("refusal-is-pure:" + d, not ef and absent(o, e), "reports a missing value but %s" % ([show(x)[:80] for x in ef] or "the index may be live"), c.loc(d))
        c.ob("both:" + d, got == {'Some', 'None'}, "outcomes %s" % got, c.loc(d))

    # -- counts
    call = lambda f: ('call', 'arena.' + f, (), (place,))
    def forms(f):
        if f == 'is_empty':
            n = call('len')
            return [call(f), ('bin', 'Eq', n, ('i', 0)), ('bin', 'Eq', ('i', 0), n), ('bin', 'Lt', n, ('i', 1))]
        return [call(f)]
    for f in ("len", "is_empty", "capacity"):
        d = A + f
        if c.need(d):
            for o in paths_of(c, d):
                pure(d, o)
                ok = o.v in forms(f)
                if not ok and f == 'is_empty' and o.v[0] == 'i':
                    # branches on one of the forms
                    for t in forms(f) + [call('len')]:
                        b = 1 if o.fact(t, 1) else 0 if o.fact(t, 0) else None
                        if t == call('len') and (o.fact(t, 0) or o.notfact(t, 0)):
                            b = 1 if o.fact(t, 0) else 0
                        ok = ok or b is not None and b == o.v[1]
                c.ob("count:" + d, ok, "returns %s" % show(o.v)[:120], c.loc(d))
    d = A + "reserve"
    if c.need(d):
        for o in paths_of(c, d):
            ef = effects(o)
            c.ob("reserves-only:" + d, all(x[0] == 'write' and x[1] == 'reserve' for x in ef) and len(ef) <= 1, "does %s" % [show(x)[:80] for x in ef], c.loc(d))

    # -- conversions and iterators
    def whole(d, f, wrap, base=None):
        if not c.need(d):
            return
        for o in paths_of(c, d):
            pure(d, o)
            v = o.v
            if wrap:
                v = v[3][0] if is_adt(v, "arena::" + wrap) else ('i', 0)
            v = peel(v)
            ok = v[0] == 'call' and v[1] == 'arena.' + f and len(v[3]) == 1 and v[3][0][0] == 'place' and peel(v[3][0][1]) in (ga, at(P0, s.ga), ('*', at(P0, s.ga)))
            c.ob("iterates-all:" + d, ok, "returns %s" % show(o.v)[:120], c.loc(d))
    whole(A + "iter", "iter", "Iter")
    whole(A + "iter_mut", "iter_mut", "IterMut")
    whole("<&'a mut arena::Arena<T> as std::iter::IntoIterator>::into_iter", "iter_mut", "IterMut")
    whole("<arena::Arena<T> as std::iter::IntoIterator>::into_iter", "into_iter", None)
    d = next((x for x in P.items if re.search(r"From<arena::Arena<T>> for generational_arena::Arena<T>>::from$", x)), "arena::From<Arena<T>> for generational_arena::Arena<T>")
    if c.need(d):
        for o in paths_of(c, d):
            pure(d, o)
            c.ob("keeps-all:" + d, same(o.v, at(P0, s.ga)), "returns %s" % show(o.v)[:120], c.loc(d))
    d = next((x for x in P.items if re.search(r"From<arena::Index<T>> for generational_arena::Index>::from$", x)), "arena::From<Index<T>> for generational_arena::Index")
    if c.need(d):
        for o in paths_of(c, d):
            c.ob("same-index:" + d, same(o.v, at(P0, s.ix)), "returns %s" % show(o.v)[:120], c.loc(d))
    for d, want in (("arena::Index::<T>::new", P0), ("<arena::Index<T> as std::clone::Clone>::clone", at(('*', P0), s.ix))):
        if c.need(d):
            for o in paths_of(c, d):
                v = o.v[3][s.ix[0][1]] if is_adt(o.v, "arena::Index") else at(o.v, s.ix)
                c.ob("same-index:" + d, same(v, want), "returns %s" % show(o.v)[:120], c.loc(d))
    n = 0
    for ty in ("Iter", "IterMut"):
        fs = [i for i, f in enumerate(P.adts["arena::" + ty]["v"][0]["f"]) if "generational_arena::" in P.uty(P.adts["arena::" + ty]["types"], f["t"])] if "arena::" + ty in P.adts else []
        if not c.ob("anchor:" + ty, len(fs) == 1, "arena::%s does not wrap one iterator" % ty):
            continue
        inner = ('place', ('f', ('*', P0), 0, fs[0]))
        pat = re.compile(r"^<arena::%s<'a, T> as std::iter::(\w+)>::(\w+)$" % ty)
        need = {("Iterator", "next"), ("DoubleEndedIterator", "next_back"), ("Iterator", "size_hint"), ("ExactSizeIterator", "len")}
        seen = set()
        for d, it in sorted(P.items.items()):
            m = pat.match(d)
            if not m or it["kind"] != "fn":
                continue
            f = m.group(2)
            seen.add(m.groups())
            n += 1
            c.analysed.add(d)
            g = ('call', 'ga.' + f, (), (inner,) + ((P1,) if f in ("nth", "nth_back") else ()))
            if f in ("next", "next_back", "nth", "nth_back", "last"):
                got = set()
                for o in paths_of(c, d, OPTION):
                    steps = [t for t in o.trace if t[0] == 'step']
                    c.ob("one-step:" + d, steps == [('step', f)], "takes the steps %s of the underlying iterator" % [x[1] for x in steps], c.loc(d))
                    got.add(o.kind)
                    if o.kind == 'Some':
                        p = ('f', g, 1, 0)
                        v = o.payload
                        i, x = (v[3][0], v[3][1]) if v[0] == 'a' and len(v[3]) == 2 else (('f', v, 0, 0), ('f', v, 0, 1))
                        i = i[3][s.ix[0][1]] if is_adt(i, "arena::Index") else i
                        c.ob("own-index:" + d, same(i, ('f', p, 0, 0)) and same(x, ('f', p, 0, 1)), "hands out %s" % show(o.v)[:160], c.loc(d))
                        c.ob("needs-item:" + d, present(o, g), "hands out an item that the underlying iterator did not give", c.loc(d))
                    else:
                        c.ob("ends-when-done:" + d, absent(o, g), "ends although the underlying iterator gave an item", c.loc(d))
                c.ob("both:" + d, got == {'Some', 'None'}, "outcomes %s" % got, c.loc(d))
            elif f in ("size_hint", "len", "count"):
                for o in paths_of(c, d):
                    v = peel(o.v)
                    ok = v == g
                    if f == "len":
                        ok = ok or v in [('f', ('call', 'ga.size_hint', (), (inner,)), 0, 0)]
                    if f == "size_hint" and v[0] == 'a' and len(v[3]) == 2:
                        h = ('call', 'ga.size_hint', (), (inner,)); l = ('call', 'ga.len', (), (inner,))
                        ok = ok or all(x in (('f', h, 0, k), l) or is_adt(x, OPTION) and x[2] == 1 and x[3][0] in (l, ('f', h, 0, 0)) for k, x in enumerate(v[3]))
                    c.ob("size:" + d, ok and not effects(o), "returns %s" % show(o.v)[:120], c.loc(d))
            else:
                c.ob("decided:" + d, False, "an iterator method of its own that no rule covers", c.loc(d))
        c.ob("has:" + ty, need <= seen, "arena::%s has only %s" % (ty, sorted(seen)))
    c.floor("iterator methods", n, 8)

    records(c)

def records(c):
    """constructors and accessors of realm, engine, object, contract record"""
    P = c.P
    def fld(adt, pred, what):
        a = P.adts.get(adt)
        r = [i for i, f in enumerate(a["v"][0]["f"]) if pred(P.uty(a["types"], f["t"]))] if a else []
        c.ob("anchor:%s.%s" % (adt, what), len(r) == 1, "%s has %d such fields" % (adt, len(r)))
        return (r or [97])[0]
    def getter(d, i, what):
        if c.need(d):
            for o in paths_of(c, d):
                c.ob("pure:" + d, not effects(o), "modifies %s" % [show(x) for x in effects(o)[:2]], c.loc(d))
                c.ob("own-part:" + d, same(o.v, ('f', ('*', P0), 0, i)), "returns %s instead of the %s" % (show(o.v)[:100], what), c.loc(d))
    R, RT, E, O, CD = ("tp_client::realm::Realm", "tp_client::time::RealmTime", "tp_client::engine::Engine", OBJECT, CDATA)
    rid = fld(R, lambda u: u.endswith("RealmID"), "id")
    rt = fld(R, lambda u: u == RT, "time")
    getter(R + "::id", rid, "realm's id")
    getter(R + "::time", rt, "realm's time")
    getter(R + "::time_mut", rt, "realm's time")
    d = R + "::new"
    if c.need(d):
        for o in paths_of(c, d):
            ok = is_adt(o.v, R) and same(o.v[3][rid], P0)
            c.ob("keeps-id:" + d, ok, "keeps %s as the id" % (show(o.v[3][rid])[:80] if is_adt(o.v, R) else show(o.v)[:80]), c.loc(d))
    d = "tp_client::realm::RealmID::new"
    if c.need(d):
        for o in paths_of(c, d):
            c.ob("keeps-name:" + d, o.v[0] == 'a' and any(same(x, P0) for x in o.v[3]), "makes %s" % show(o.v)[:80], c.loc(d))
    tw = fld(O, lambda u: u.endswith("::TimeWarp"), "time warp")
    oc = fld(O, lambda u: u == HANDLE_C, "contract")
    getter(O + "::time_warp", tw, "object's time warp")
    getter(O + "::time_warp_mut", tw, "object's time warp")
    getter(O + "::contract", oc, "object's contract")
    ci = fld(CD, lambda u: u.endswith("::ContractId"), "id")
    co = fld(CD, lambda u: "HashSet<" in u or "BTreeSet<" in u, "objects")
    getter(CD + "::id", ci, "contract's id")
    getter(CD + "::objects", co, "contract's objects")
    if CD + "::objects_mut" in P.items:
        getter(CD + "::objects_mut", co, "contract's objects")
    d = BASELINE + "::iter_objects"
    if c.need(d):
        S = Store(c)
        objs = S.place(('*', P0), "objects")[1]
        for o in paths_of(c, d):
            c.ob("pure:" + d, not effects(o), "modifies %s" % [show(x) for x in effects(o)[:2]], c.loc(d))
            v = o.v
            while v[:2] == ('it', 'map'):
                # each item mapped to itself
                one = ('a', 'T', 0, (('e', 0), ('e', 1)))
                r = o.I.call_value(o.st.copy(), v[3], [one], None, {"fn": d, "sp": None, "stack": []})
                if not r or any(x != one for _, x in r):
                    break
                v = v[2]
            v = peel(v[3][0]) if is_adt(v, "arena::Iter") else v
            ok = v[:2] == ('call', 'arena.iter') and len(v[3]) == 1 and v[3][0][0] == 'place' and same(v[3][0][1], objs)
            c.ob("lists-its-objects:" + d, ok, "returns %s" % show(o.v)[:120], c.loc(d))
    er = fld(E, lambda u: u == R, "realm")
    eq = fld(E, lambda u: "Receiver<" in u, "queue")
    getter(E + "::realm", er, "engine's realm")
    getter(E + "::realm_mut", er, "engine's realm")
    d = E + "::new"
    if c.need(d):
        got = set()
        for o in paths_of(c, d):
            v = o.v
            ok = v[0] == 'a' and len(v[3]) == 2 and is_adt(v[3][0], E)
            if not c.ob("makes-pair:" + d, ok, "returns %s" % show(v)[:120], c.loc(d)):
                continue
            eng, snd = v[3]
            c.ob("keeps-realm:" + d, same(eng[3][er], P0), "keeps %s as the realm" % show(eng[3][er])[:80], c.loc(d))
            rc = peel(eng[3][eq]); snd = peel(snd)
            pair = rc[0] == 'f' and snd[0] == 'f' and rc[1] == snd[1] and rc[1][0] == 'call' and str(rc[1][1]).startswith('chan.') and (snd[3], rc[3]) == (0, 1)
            c.ob("one-queue:" + d, pair, "the sender is %s, the receiver %s" % (show(snd)[:80], show(rc)[:80]), c.loc(d))
            if pair:
                some_ = present(o, P1)
                got.add(rc[1][1])
                if rc[1][1] == 'chan.bounded':
                    c.ob("capacity:" + d, some_ and peel(rc[1][3][0]) == ('f', P1, 1, 0), "the queue's capacity is %s" % show(rc[1][3][0])[:80], c.loc(d))
                else:
                    c.ob("unbounded-only-if-asked:" + d, absent(o, P1), "the queue has no capacity although one is asked for", c.loc(d))
        c.ob("both:" + d, len(got) == 2, "kinds of queue made: %s" % got, c.loc(d))
