"""C16: a channel holds exactly the keyframes it was made from, in time order."""
import re
from sa.spec import *
from sa import model, prims
from sa.interp import UNIT
from sa.interp import State
from checks import tally

META = {
 "level": "proof",
 "rule": "Channel's constructor is interpreted with an arbitrary iterator of keyframes: it runs the iterator to its end, without skipping "
         "adaptors; every keyframe handed out is put into the channel's list before the next one is taken; the list is then sorted, and "
         "not changed afterwards; and the comparison it is sorted with, interpreted on two arbitrary keyframes, is f64::total_cmp of their "
         "times, ascending.  Keyframes keep value and time; the accessors return the stored list, value and time.",
}
CH = "tp_client::contract::properties::channels::channel::"
SORT = re.compile(r"slice::<impl \[T\]>::(sort|sort_unstable|sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key)$")

CMP = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y}
IS = {"is_le": lambda x: x <= 0, "is_lt": lambda x: x < 0, "is_ge": lambda x: x >= 0, "is_gt": lambda x: x > 0, "is_eq": lambda x: x == 0, "is_ne": lambda x: x != 0}

def field(c, P, adt, pred, what):
    a = P.adts.get(adt)
    fs = [P.uty(a["types"], f["t"]) for f in a["v"][0]["f"]] if a else []
    r = [i for i, u in enumerate(fs) if pred(u)]
    c.ob("anchor:%s.%s" % (adt, what), len(r) == 1, "fields of %s: %s" % (adt, fs))
    return (r or [90])[0]

def check(c):
    P = c.P
    tf = field(c, P, CH + "Keyframe", lambda u: u == "f64", "time")
    vf = field(c, P, CH + "Keyframe", lambda u: u == "T", "value")
    lf = field(c, P, CH + "Channel", lambda u: "Vec<" in u, "list")
    D0 = ('*', P0)

    # -- accessors
    def returns(d, want, what, ref=False):
        if not c.need(d):
            return
        m, outs = summarise(P, d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic", c.loc(d))
        for o in outs:
            c.count("paths")
            c.ob("pure:" + d, not effects(o), "modifies %s" % [show(x) for x in effects(o)[:2]], c.loc(d))
            c.ob("value:" + d, o.v == want or same(o.v, want), "returns %s instead of %s" % (show(o.v)[:120], what), c.loc(d))
            c.sample(outline(o, 2))
    returns(CH + "Keyframe::<T>::value", ('f', D0, 0, vf), "the stored value")
    returns(CH + "Keyframe::<T>::time", ('f', D0, 0, tf), "the stored time")
    returns(CH + "Channel::<T>::keyframes", ('f', D0, 0, lf), "the channel's list")
    returns(CH + "Channel::<T>::keyframes_mut", ('f', D0, 0, lf), "the channel's list")
    d = CH + "Keyframe::<T>::new"
    if c.need(d):
        m, outs = summarise(P, d)
        for o in outs:
            ok = is_adt(o.v, CH + "Keyframe") and o.v[3][vf] == P0 and o.v[3][tf] == P1
            c.ob("keyframe:" + d, ok, "makes %s" % show(o.v)[:120], c.loc(d))

    # -- construction
    construct(c, CH + "Channel::<T>::new", lf, tf, lambda t: t[0] == 'el' and len(t) == 2 and peel(t[1]) == P0, lambda v: v)

def construct(c, d, lf, tf, own, unwrap):
    """a function that makes a channel of the keyframes for which own() holds"""
    P = c.P
    if not c.need(d):
        return
    w = c.loc(d)
    cmps = {}
    def leaf(mm, I, st, callee, name, targs, args, site):
        mt = SORT.search(name)
        if mt:
            o, p = I.deref(args[0])
            old = I.read(st, o, p)
            f = args[1] if len(args) > 1 else ('i', 0)
            cmps[f] = mt.group(1)
            I.write(st, o, p, ('call', 'sorted', (), (old, f)), 'sort')
            return [(st, UNIT)]
        if name in ("itertools::Itertools::sorted_by", "itertools::Itertools::sorted_unstable_by"):
            out = []
            for s, v in prims.iterator(I, st, 'collect', ['std::vec::Vec<_>'], [args[0]], None, site):
                cmps[args[1]] = "sort_by"
                out.append((s, ('call', 'sorted', (), (v, args[1]))))
            return out
        if args and args[0][:2] == ('call', 'sorted') and re.search(r"(Iterator::collect|Itertools::collect_vec)$", name):
            return [(st, args[0])]
        if re.search(r"<impl \[T\]>::(partition_point|binary_search_by)$", name):
            v = I.load(st, args[0])
            r = place_of(I, st, args[1], v, name.endswith("by"), site) if v[0] in ('vec', 'vec*') else None
            if r and name.endswith("by"):
                return [(st.copy(), ('a', 'A:std::result::Result', i, (r,))) for i in (0, 1)]
            return [(st, r)] if r else None
        if re.search(r"Vec::<T, A>::insert$", name):
            v = I.load(st, args[0])
            if v[0] not in ('vec', 'vec*'):
                return None
            x = args[2]
            if args[1] != ('call', 'sortedpos', (), (v, peel(I.proj(x, ('f', 0, tf))))):
                st.facts[('unordered', 0)] = ('=', 1)
            st.facts[('inserted', 0)] = ('=', 1)
            T.inserting = True
            I.store(st, args[0], prims.pushed(I, st, v, x) or ('u', 'vec'), 'push')
            T.inserting = False
            return [(st, UNIT)]
        if re.search(r"(\[T\]>|Vec::<T, A>|Vec::<T>)::len$", name):
            v = I.load(st, args[0])
            if v[0] == 'vec*':
                # at least two elements
                n = ('call', 'veclen', (), (v,))
                for t, k in ((('Lt', ('i', 0), n), 1), (('Lt', ('i', 1), n), 1), (('Lt', n, ('i', 1)), 0), (('Lt', n, ('i', 2)), 0),
                             (('Eq', n, ('i', 0)), 0), (('Eq', n, ('i', 1)), 0)):
                    st.facts[('bin',) + t] = ('=', k)
                return [(st, n)]
        return None
    places = []
    def place_of(I, st, f, v, search, site):
        """where in the sorted list v the searching closure puts a keyframe: after the earlier and before the later ones"""
        key, table = None, {}
        for s, r in I.call_value(st.copy(), f, [('p', 92)], None, {"fn": d, "sp": None, "stack": []}) or [(None, None)]:
            if r is None:
                return None
            ts = {x for t in [r] + [y for y in s.facts if y not in st.facts] for x in subterms(t) if len(x) == 4 and x[0] == 'call' and str(x[1]).endswith("<impl f64>::total_cmp")}
            if len(ts) != 1:
                return None
            t, = ts
            a, b = (peel(y) for y in t[3])
            me = ('f', ('*', ('p', 92)), 0, tf)
            if me not in (a, b) or key not in (None, b if a == me else a):
                return None
            key = b if a == me else a
            for o in (-1, 0, 1):
                w = o if a == me else -o     # what total_cmp answers
                fa = s.facts.get(('d', t))
                sg = lambda n: (n + 128) % 256 - 128
                if fa and (fa[0] == '=' and sg(fa[1]) != w or fa[0] == '!=' and any(sg(n) == w for n in fa[1])):
                    continue
                table.setdefault(o, set()).add(answer(r, t, w))
        good = {-1: {-1}, 0: {0}, 1: {1}} if search else {-1: {1}, 1: {0}}
        if all(table.get(o) == g for o, g in good.items()) and (search or table.get(0) in ({0}, {1})):
            places.append(f)
            return ('call', 'sortedpos', (), (v, key))
        return None
    def answer(r, t, w):
        """the closure's result when the times compare as w"""
        if r[0] == 'i':
            return r[1]
        if r == t:
            return w
        if is_adt(r, "std::cmp::Ordering"):
            i = P.adts["std::cmp::Ordering"]["v"][r[2]]["d"] or 0
            return (i + 128) % 256 - 128
        if r[0] == 'un' and r[1] == 'Not':
            x = answer(r[2], t, w)
            return None if x is None else 1 - x
        if r[0] == 'call':
            n = str(r[1]).rsplit("::", 1)[-1]
            if n == 'reverse' and r[3]:
                x = answer(r[3][0], t, w)
                return None if x is None else -x
            if n in IS and len(r[3]) == 1:
                x = answer(peel(r[3][0]), t, w)
                return None if x is None else int(IS[n](x))
            if n in ('eq', 'ne') and len(r[3]) == 2:
                x, y = (answer(peel(z), t, w) for z in r[3])
                return None if None in (x, y) else int((x == y) == (n == 'eq'))
        if r[0] == 'bin' and len(r) == 4 and r[1] in CMP:
            x, y = ((answer(z[1], t, w) if z[0] == 'd' else (z[1] + 128) % 256 - 128 if z[0] == 'i' else None) for z in r[2:])
            return None if None in (x, y) else int(CMP[r[1]](x, y))
        return None
    m = model.Model(P, leaf=leaf, keep_fact=lambda t: tally.keep(t) or t[0] == 'bin' and any(x[:2] == ('call', 'veclen') for x in t) or not any(x[:1] in (('el',), ('old',)) for x in subterms(t)))
    T = tally.Tally(m, own)
    mine = T.mine
    outs = [model.Out(s, v, m.I) for s, v in m.run(d)]
    c.ob("no-panic:" + d, not m.I.panics, "may panic: %s" % [x[2] for x in m.I.panics[:1]], w)
    c.ob("returns:" + d, outs, "no path returns", w)
    for o in outs:
        c.count("paths")
        T.judge(c, d, o, "keyframe", w, ('map', 'inspect', 'by_ref', 'fuse', 'rev'))
        ch = unwrap(o.v)
        v = ch[3][lf] if is_adt(ch, CH + "Channel") else ('i', 0)
        ok = v[0] == 'call' and v[1] == 'sorted'
        if v[0] == 'vec' and len(v[1]) <= 1:
            # nothing to sort
            c.ob("own-list:" + d, all(mine(x) for x in v[1]), "the channel's list is %s" % show(v)[:120], w)
            continue
        if v[0] in ('vec', 'vec*') and ('inserted', 0) in o.facts and ('appended', 0) not in o.facts and ('unordered', 0) not in o.facts:
            # every keyframe put where it belongs
            c.ob("own-list:" + d, all(mine(x) for x in v[1]), "the channel's list is %s" % show(v)[:120], w)
            continue
        c.ob("sorted-last:" + d, ok, "the channel's list is %s, not just sorted" % show(v)[:120], w)
        if ok:
            c.ob("own-list:" + d, v[3][0][0] in ('vec', 'vec*') and all(mine(x) for x in v[3][0][1]), "what is sorted is %s" % show(v[3][0])[:120], w)
        c.sample({"list": show(v)[:200], "facts": [show(f) for f in o.facts]})
    # -- the order
    for f, how in cmps.items():
        if how not in ("sort_by", "sort_unstable_by"):
            c.fail("order:" + d, "sorted with %s" % how, w); continue
        st = State()
        m2 = model.Model(P, keep_fact=lambda t: True)
        m2.I.fns = m.I.fns
        r = m2.I.call_value(st, f, [('p', 90), ('p', 91)], None, {"fn": d, "sp": None, "stack": []})
        a, b = (('f', ('*', ('p', n)), 0, tf) for n in (90, 91))
        c.ob("order-decided:" + d, r, "the comparison cannot be analysed", w)
        for s, v in r or []:
            c.count("paths")
            asc = True
            while v[0] == 'call' and str(v[1]).endswith("Ordering::reverse"):
                v, asc = v[3][0], not asc
            if is_adt(v, "std::cmp::Ordering"):
                # branches on the comparison
                fs = [(t[1], f[1]) for t, f in s.facts.items() if t[0] == 'd' and f[0] == '=' and t[1][0] == 'call']
                if len(fs) == 1:
                    i = P.adts["std::cmp::Ordering"]["v"][v[2]]["d"]
                    if i and i % 256 == -fs[0][1] % 256:
                        asc = not asc
                    elif not i and not fs[0][1]:
                        continue
                    elif i % 256 != fs[0][1] % 256:
                        fs = [(v, 0)]
                    v = fs[0][0]
            ok = v[0] == 'call' and str(v[1]).endswith("<impl f64>::total_cmp") and tuple(peel(x) for x in v[3]) == ((a, b) if asc else (b, a))
            c.ob("order:" + d, ok and not effects(model.Out(s, v, m2.I)), "keyframes are compared by %s" % show(v)[:160], w)
            c.sample({"comparison": show(v)})
        c.ob("order-no-panic:" + d, not m2.I.panics, "comparing two keyframes may panic: %s" % [x[2] for x in m2.I.panics[:1]], w)
    c.floor("comparisons", len(cmps) + len(places), 1)
