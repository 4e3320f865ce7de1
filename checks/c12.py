"""C12: equality of dynamic values, ids and handles is sameness of type and content."""
import re
from sa.spec import *
from sa import model
from sa.interp import UNIT
from checks.c11 import Family, run, lens, strip_deref, covers, prims_in, norm

META = {
 "level": "proof",
 "rule": "For every equality operator of the dynamic values (all forms, and against plain values), ids, typed handles and arena indexes: "
         "`true` is only reachable when both sides are in the same variant (or the dynamic side is in the plain type's variant) and the two "
         "contents (every identifying field) were compared equal; `false` only when the variants differ or some content differs; every variant "
         "is answered; nothing panics or is modified. Index hashing and ordering use exactly what equality compares.",
 "trusted": ["equality of primitives, strings and slices is std's"],
}
TRUE, FALSE = ('i', 1), ('i', 0)

def eq_atoms(o):
    """[(x, y, verdict)] for the comparisons a path decided; the result itself counts as decided either way"""
    r = []
    for t, f in o.facts.items():
        if t[0] == 'bin' and t[1] in ('Eq', 'Ne') and len(t) == 4:
            v = 1 if o.fact(t, 1) else 0 if o.fact(t, 0) else None
            if lens(t):     # unequal lengths: unequal lists
                if v == (0 if t[1] == 'Eq' else 1):
                    r.append(lens(t) + (0,))
            elif v is not None:
                r.append((strip_deref(t[2]), strip_deref(t[3]), v if t[1] == 'Eq' else 1 - v))
    return r

def root(t):
    while t[0] in ('f', '*', 'd'):
        t = t[1]
    return t

def path(t):
    p = []
    while t[0] == 'f':
        p.append((t[2], t[3])); t = t[1]
    return tuple(reversed(p)), t

def sides(x, y):
    """the two sides of a comparison as paths into argument 0 and argument 1 (None: not such)"""
    (px, rx), (py, ry) = path(x), path(y)
    if (rx, ry) == (('p', 0), ('p', 1)):
        return px, py
    if (rx, ry) == (('p', 1), ('p', 0)):
        return py, px
    return None

def variants(o, i):
    """variant established at each path of argument i: {path: number or ('!=', set)}"""
    r = {}
    for t, f in o.facts.items():
        if t[0] == 'd':
            p, q = path(strip_deref(t[1]))
            if q == ('p', i):
                r[p] = f[1] if f[0] == '=' else f
    return r

class Shape:
    """What two equal values must share: enum variants and non-marker fields, down to foreign types."""
    def __init__(self, P):
        self.P = P

    def adt(self, u):
        u = norm(u).lstrip('&').replace('mut ', '')
        k = u.split("<")[0]
        a = self.P.adts.get(k)
        return (k, a) if a and a.get("local") else (k, None)

    def leaves(self, u, depth=0):
        """list of (chain of (path, variant), [leaf paths]) - one per way of choosing variants"""
        k, a = self.adt(u)
        if a is None or depth > 6:
            return [((), [()])]
        out = []
        for vi, v in enumerate(a["v"]):
            opts = [(((), vi),) if a["enum"] else ()]
            opts = [(opts[0], [])]
            for fi, f in enumerate(v["f"]):
                fu = self.P.uty(a["types"], f["t"])
                if "PhantomData" in fu:
                    continue
                sub = self.leaves(fu, depth + 1)
                opts = [(ch + tuple((((vi, fi),) + p, n) for p, n in sch), lv + [((vi, fi),) + p for p in slv])
                        for ch, lv in opts for sch, slv in sub]
                if len(opts) > 200:
                    return [((), [()])]
            out += opts
        return out

def consistent(vs, ch):
    """may the established variants be those of this choice?"""
    for p, n in ch:
        f = vs.get(p)
        if isinstance(f, tuple):
            if n in f[1]:
                return False
        elif f is not None and f != n:
            return False
    # a fact below another variant than the chosen one
    want = dict(ch)
    for p in vs:
        for i, (v, _) in enumerate(p):
            if want.get(p[:i], v) != v:
                return False
    return True

def same_kind(c, P, S, d, u, w):
    c.analysed.add(d)
    m, outs = run(P, d)
    c.ob("eq-no-panic:" + d, not m.I.panics, "can panic", w)
    sh = S.leaves(u)
    if not c.ob("eq-shape:" + d, sh and sh != [((), [()])], "nothing is known of what %s is made of" % u, w):
        return
    answered_t, answered_f = set(), 0
    for o in outs:
        c.ob("eq-pure:" + d, not effects(o), "a comparison modifies %s" % [show(x)[:80] for x in effects(o)[:2]], w)
        at_ = eq_atoms(o)
        v0, v1 = variants(o, 0), variants(o, 1)
        # variants compared with one another
        same_d, diff_d, eqs, neqs = set(), set(), set(), set()
        def take(x, y, v):
            if x[0] == 'd' and y[0] == 'd':
                s = sides(strip_deref(x[1]), strip_deref(y[1]))
                if s and s[0] == s[1]:
                    (same_d if v else diff_d).add(s[0])
                return
            s = sides(x, y)
            if s and s[0] == s[1]:
                (eqs if v else neqs).add(s[0])
        for x, y, v in at_:
            take(x, y, v)
        def both():
            for p in same_d:
                if p in v0 and p not in v1: v1[p] = v0[p]
                if p in v1 and p not in v0: v0[p] = v1[p]
        res = o.v
        forks = []
        if res in (TRUE, FALSE):
            forks = [(res == TRUE, set(), set())]
        elif res[0] == 'bin' and res[1] in ('Eq', 'Ne') and len(res) == 4:
            forks = [(res[1] == 'Eq', 'pos'), (res[1] != 'Eq', 'neg')]
        else:
            c.fail("eq-result:" + d, "the result is %s" % show(res)[:160], w)
            continue
        keep = (set(same_d), set(diff_d), set(eqs), set(neqs))
        for fk in forks:
            same_d, diff_d, eqs, neqs = (set(x) for x in keep)
            if len(fk) == 2:
                x, y = strip_deref(res[2]), strip_deref(res[3])
                take(x, y, 1 if fk[1] == 'pos' else 0)
            both()
            if fk[0]:
                # true: every choice of variants the path allows has all its leaves compared equal
                hit = [i for i, (ch, lv) in enumerate(sh) if consistent(v0, ch) and consistent(v1, ch)]
                for i in hit:
                    ch, lv = sh[i]
                    agreed = all(p in same_d or (p in v0 and p in v1 and v0[p] == v1[p] == n) or covered(p, eqs) for p, n in ch)
                    c.ob("eq-true-same-variant:" + d, agreed, "is true without both sides being in the same variant", w)
                    miss = [p for p in lv if not covered(p, eqs)]
                    c.ob("eq-true-same-content:" + d, not miss, "is true without comparing field %s" % (miss[:1]), w)
                # and none whose variants differ
                c.ob("eq-true-possible:" + d, hit, "is true for values in different variants", w)
                answered_t |= set(hit)
            else:
                answered_f += 1
                differ = bool(diff_d or neqs)
                for p in set(v0) & set(v1):
                    a, b = v0[p], v1[p]
                    if isinstance(a, tuple) and isinstance(b, tuple):
                        continue
                    if isinstance(a, tuple) and b in a[1] or isinstance(b, tuple) and a in b[1]:
                        differ = True
                    if not isinstance(a, tuple) and not isinstance(b, tuple) and a != b:
                        differ = True
                c.ob("eq-false-needs-difference:" + d, differ, "is false for values that were not found to differ (%s)" % outline(o, 4)["when"], w)
        if len(c.samples) < 6:
            c.sample(outline(o, 4))
    c.ob("eq-total:" + d, len(answered_t) == len(sh), "is never true for %d of %d variants" % (len(sh) - len(answered_t), len(sh)), w)
    c.ob("eq-has-false:" + d, answered_f >= 1, "is never false", w)

def covered(p, eqs):
    """a leaf is compared when it, or something it is part of, was compared - or the single field of its wrapper"""
    return any(p[:len(e)] == e for e in eqs)

def mixed(c, P, F, d, enum_arg, plain, k, w):
    """dynamic value against a plain one: true iff in the plain type's variant with equal content"""
    c.analysed.add(d)
    m, outs = run(P, d)
    c.ob("mixed-no-panic:" + d, not m.I.panics, "can panic", w)
    chains = F.chains(k)
    own = own_chain(F, k, plain)
    if not c.ob("mixed-target:" + d, own is not None, "%s has no variant for %s" % (k, plain), w):
        return
    E, Q = ('p', enum_arg), ('p', 1 - enum_arg)
    pay = E
    for i in own:
        pay = ('f', pay, i, 0)
    true = false = 0
    for o in outs:
        c.ob("mixed-pure:" + d, not effects(o), "a comparison modifies its arguments", w)
        facts = {strip_deref(t[1]): f for t, f in o.facts.items() if t[0] == 'd'}
        inown, notown, cur = True, False, E
        for i in own:
            f = facts.get(cur)
            if f is None:
                inown = False
            elif f[0] == '=' and f[1] != i or f[0] != '=' and i in f[1]:
                inown, notown = False, True
            elif f[0] != '=':
                inown = False
            cur = ('f', cur, i, 0)
        res = o.v
        pos, neg = [], []
        for x, y, v in eq_atoms(o):
            (pos if v else neg).append((x, y))
        if res in (TRUE, FALSE):
            forks = [(res == TRUE, pos, neg)]
        elif res[0] == 'bin' and res[1] in ('Eq', 'Ne') and len(res) == 4:
            a = (strip_deref(res[2]), strip_deref(res[3]))
            e = res[1] == 'Eq'
            forks = [(e, pos + [a], neg), (not e, pos, neg + [a])]
        else:
            c.fail("mixed-result:" + d, "the result is %s" % show(res)[:160], w)
            continue
        cont = lambda l: any(within(x, pay) and within(y, Q) or within(y, pay) and within(x, Q) for x, y in l)
        for val, ps, ns in forks:
            if val:
                true += 1
                c.ob("mixed-true:" + d, inown and cont(ps), "is true without being a %s with equal content" % plain, w)
            else:
                false += 1
                c.ob("mixed-false:" + d, notown or cont(ns), "is false for a %s with equal content" % plain, w)
    c.ob("mixed-both:" + d, true and false, "always answers the same", w)

def within(t, base):
    """the place itself, or the only field of its wrapper"""
    if t == base:
        return True
    return t[0] == 'f' and t[1] == base and t[2] == 0 and t[3] == 0

def own_chain(F, k, plain):
    """variant chain of an enum that holds this plain type (T: the primitive group, [T]/Vec<T>: the list group)"""
    p = norm(plain).strip()
    while p.startswith('&'):
        p = p[1:].strip()
    vec = "Vec<" in p or p.startswith("[")
    inner = p[1:-1] if p.startswith("[") else p[p.index("<") + 1:].split(",alloc::alloc")[0] if vec else p
    inner = inner.rstrip(">") if vec and inner.count("<") < inner.count(">") else inner
    # a generic list or value: the group alone, if the enum is a two-group one
    generic = re.fullmatch(r"[A-Z]\w*", inner.strip()) is not None and inner.strip() not in ("String",)
    if generic:
        if k in F.leafs:
            return None
        g = "Vec" if vec else "Primitive"
        a = F.P.adts[k]
        return next(((i,) for i, v in enumerate(a["v"]) if v["n"] == g), None)
    pr = prims_in(inner)
    if len(pr) != 1:
        return None
    n = next(iter(pr))
    for ch, (g, name, u) in F.chains(k).items():
        if name == n and g == ("Vec" if vec else "Primitive"):
            return ch
    return None

def check(c):
    P = c.P
    F = Family(c)
    if not F.ok:
        return
    S = Shape(P)
    enums = set(F.leafs) | set(F.tops)
    homo = mixed_n = 0
    for im in P.impls:
        t = im.get("trait") or ""
        if not re.search(r"cmp::PartialEq(<|$)", t):
            continue
        for it in im["items"]:
            d = it["def"]
            s = P.items.get(d)
            if not s or s["crate"] not in ("tp_client", "arena") or "c_api" in d or not d.endswith("::eq"):
                continue
            ins = [P.uty(s["types"], i) for i in s["ins"]]
            bs = [re.sub(r"^&(mut )?", "", x) for x in ins]
            w = c.loc(d)
            ks = [norm(x).split("<")[0] for x in bs]
            k0 = ks[0] in enums and not bs[0].startswith('&'), ks[1] in enums and not bs[1].startswith('&')
            if ks[0] == ks[1] and P.adts.get(ks[0]) and P.adts[ks[0]].get("local"):
                if relevant(P, ks[0], enums):
                    homo += 1
                    same_kind(c, P, S, d, bs[0], w)
            elif k0[0] != k0[1]:
                mixed_n += 1
                e = 0 if k0[0] else 1
                mixed(c, P, F, d, e, bs[1 - e], ks[e], w)
    c.floor("equality-operators", homo, 16)
    c.floor("mixed-equality-operators", mixed_n, 100)
    index(c, P)

def relevant(P, k, enums):
    """dynamic values and handles, ids, indexes, type descriptors"""
    if k in enums or k.startswith("arena::") or k.endswith(("TpPropertyType", "TpPrimitiveType")):
        return True
    if k.startswith("tp_client::") and not k.startswith("tp_client::time::") and not k.endswith(("_Layout", "::ContractId")):
        return True         # states, keyframes, kinds, … (contract ids: C06)
    a = P.adts[k]
    us = [P.uty(a["types"], f["t"]) for v in a["v"] for f in v["f"]]
    return bool(us) and (any(u == HANDLE_C for u in us) and "usize" in us or any(norm(u).split("<")[0] in enums for u in us))

def index(c, P):
    """hash and order of an arena index are those of exactly what equality compares"""
    fs = None
    d = "<arena::Index<T> as std::cmp::PartialEq>::eq"
    if not c.need(d):
        return
    keys_ = set()
    for o in run(P, d)[1]:
        for x, y, v in eq_atoms(o) + ([(strip_deref(o.v[2]), strip_deref(o.v[3]), 1)] if o.v[0] == 'bin' else []):
            s = sides(x, y)
            if s:
                keys_.add(s[0])
    a = P.adts["arena::Index"]
    want = {((0, i),) for i, f in enumerate(a["v"][0]["f"]) if "PhantomData" not in P.uty(a["types"], f["t"])}
    for d, name in (("<arena::Index<T> as std::cmp::PartialOrd>::partial_cmp", "partial_cmp"), ("<arena::Index<T> as std::cmp::Ord>::cmp", "cmp")):
        if not c.need(d):
            continue
        m, outs = run(P, d)
        c.ob("index-order-no-panic:" + d, not m.I.panics, "can panic", c.loc(d))
        for o in outs:
            v = o.v
            if name == "partial_cmp" and v[0] == 'a' and v[3]:
                v = v[3][0]
            okk = v[0] == 'call' and str(v[1]).endswith(("::cmp", "::partial_cmp")) and len(v[3]) == 2 and \
                [path(strip_deref(x)) for x in v[3]] in ([(p, ('p', 0)), (p, ('p', 1))] for p in want)
            c.ob("index-order:" + d, okk, "orders by %s" % show(o.v)[:140], c.loc(d))
    # hashes of every hashable id and index: no more than equality compares
    for im in P.impls:
        if not re.search(r"hash::Hash$", im.get("trait") or ""):
            continue
        for it in im["items"]:
            d = it["def"]
            s = P.items.get(d)
            if not s or s["crate"] not in ("tp_client", "arena") or "c_api" in d or not d.endswith("::hash"):
                continue
            u = re.sub(r"^&(mut )?", "", P.uty(s["types"], s["ins"][0])).split("<")[0]
            a = P.adts.get(u)
            if not a or a["enum"]:
                continue
            allowed = {((0, i),) for i, f in enumerate(a["v"][0]["f"])}
            c.analysed.add(d)
            n_hash = 0
            m, outs = summarise(P, d, leaf=hash_leaf)
            for o in outs:
                hs = [path(strip_deref(x[1])) for x in o.trace if x[0] == "hashed"]
                n_hash += len(hs)
                c.ob("hash-of-own-fields:" + d, hs and all(r == ('p', 0) and any(p[:1] == q for q in allowed) for p, r in hs),
                     "hashes %s" % [show(x[1])[:60] for x in o.trace if x[0] == "hashed"], c.loc(d))
            c.ob("hash-some:" + d, n_hash, "hashes nothing", c.loc(d))
    c.ob("index-eq", keys_ == want, "compares %s" % sorted(keys_), "arena::Index")

def hash_leaf(model_, I, st, callee, name, targs, args, site):
    n = callee["def"]
    if n.endswith("Hash::hash") or str(name).endswith("Hash>::hash"):
        if not str(name).endswith("Hash>::hash") or I.P.items.get(name) is None:
            st.tag(("hashed", I.argterm(st, args[0])))
            return [(st, UNIT)]
    return None
