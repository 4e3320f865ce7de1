"""C11: dynamic values carry exactly the type and the content they were made from."""
import re
from sa.spec import *
from sa import model, prims
from sa.interp import contains

META = {
 "level": "proof",
 "rule": "For every dynamic enum of the property types (two groups of 14): each variant's payload type is that of its name; every "
         "conversion into it yields, on all paths, the variant of the argument's type with the argument unchanged; every conversion "
         "out of it succeeds exactly for the target's variant, returns the payload unchanged and never panics; every type query "
         "returns the type named like the variant (group and primitive), for every variant; ids built from a type carry the given "
         "position and contract in the variant of that type; the static type constants name the type they belong to.",
 "trusted": [],
}
PR = "tp_client::contract::properties::"
PT = PR + "dynamic::TpPropertyType"
NAMES = {"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "I8": "i8", "I16": "i16", "I32": "i32", "I64": "i64", "Bool": "bool",
         "F32": "f32", "F64": "f64", "String": "String", "ObjectHandle": "arena::Index<tp_client::object::Object>",
         "ContractDataHandle": "arena::Index<tp_client::contract::ContractData>"}
def prims_in(u):
    r = set()
    for n, t in NAMES.items():
        if n in ("ObjectHandle", "ContractDataHandle"):
            if t in u:
                r.add(n); u = u.replace(t, "")
    for n, t in NAMES.items():
        if n not in ("ObjectHandle", "ContractDataHandle") and re.search(r"\b%s\b" % t, u.replace("string::String", "String")):
            r.add(n)
    return r

class Family:
    def __init__(self, c):
        P = self.P = c.P
        pt = P.adts.get(PT)
        self.ok = False
        if not c.ob("anchor:TpPropertyType", pt and len(pt["v"]) == 2 and all(len(v["f"]) == 1 for v in pt["v"]), "TpPropertyType is not two groups of primitive types"):
            return
        self.groups = [v["n"] for v in pt["v"]]
        self.prim = P.uty(pt["types"], pt["v"][0]["f"][0]["t"])
        pa = P.adts.get(self.prim)
        self.pnames = [v["n"] for v in pa["v"]] if pa else []
        if not c.ob("anchor:TpPrimitiveType", set(self.pnames) == set(NAMES), "primitive types are %s" % self.pnames):
            return
        self.ok = True
        self.leafs, self.tops = {}, {}
        for k, a in P.adts.items():
            if not a.get("local") or not a["enum"] or not k.startswith("tp_client::") or "c_api" in k or k in (PT, self.prim):
                continue
            ns = [v["n"] for v in a["v"]]
            if set(ns) == set(self.pnames) and all(len(v["f"]) == 1 for v in a["v"]):
                us = [P.uty(a["types"], v["f"][0]["t"]) for v in a["v"]]
                vec = sum(bool(re.search(r"Vec<|\[", u)) for u in us)
                self.leafs[k] = "Vec" if vec > 7 else "Primitive"
        for k, a in P.adts.items():
            if a.get("local") and a["enum"] and len(a["v"]) == 2 and {v["n"] for v in a["v"]} == set(self.groups):
                us = [P.uty(a["types"], v["f"][0]["t"]).split("<")[0] for v in a["v"] if v["f"]]
                if len(us) == 2 and all(u in self.leafs for u in us):
                    self.tops[k] = us

    def chains(self, k):
        """{chain of (variant number): (group, prim)} down to the payload, with the payload type"""
        P = self.P
        a = P.adts[k]
        if k in self.leafs:
            return {(i,): (self.leafs[k], v["n"], P.uty(a["types"], v["f"][0]["t"])) for i, v in enumerate(a["v"])}
        r = {}
        for i, v in enumerate(a["v"]):
            for ch, (g, n, u) in self.chains(self.tops[k][i]).items():
                r[(i,) + ch] = (v["n"], n, u)
        return r

def valchain(v, enums):
    """variant numbers of a constructed value, and what is inside"""
    ch = []
    while v[0] == 'a' and v[1][2:] in enums:
        ch.append(v[2]); v = v[3][0] if v[3] else ('u',)
    return tuple(ch), v

def argchain(o, root=('p', 0)):
    """variant numbers established about the argument; ends with a fact that excludes some"""
    facts = {strip_deref(x[1]): f for x, f in o.facts.items() if x[0] == 'd'}
    r, cur = [], root
    while cur in facts:
        f = facts[cur]
        if f[0] != '=':
            return tuple(r) + (f,), cur
        r.append(f[1])
        cur = ('f', cur, f[1], 0)
    return tuple(r), cur

def strip_deref(t):
    t = peel(t)
    if t[0] == '*':
        return strip_deref(t[1])
    if t[0] == 'f':
        return ('f', strip_deref(t[1])) + t[2:]
    return t

def check(c):
    P = c.P
    F = Family(c)
    if not F.ok:
        return
    enums = set(F.leafs) | set(F.tops)
    c.floor("dynamic-enums", len(enums), 24)
    for k in sorted(enums):
        for ch, (g, n, u) in F.chains(k).items():
            if len(ch) == 1 and k in F.leafs:
                c.ob("variant-holds-its-type:%s::%s" % (k, n), prims_in(u) == {n}, "%s::%s holds a %s" % (k, n, u), P.loc(k))
    lookup = {}
    for k in enums:
        lookup[k] = {}
        for ch, (g, n, u) in F.chains(k).items():
            lookup[k].setdefault(norm(u), []).append(ch)
    def base(u):
        return u.lstrip('&').replace('mut ', '').split("<")[0]
    shells = {}
    for k, a in P.adts.items():
        if a.get("local") and not a["enum"] and k.startswith("tp_client::") and "c_api" not in k and len(a["v"]) == 1 and len(a["v"][0]["f"]) == 1:
            u = P.uty(a["types"], a["v"][0]["f"][0]["t"]).split("<")[0]
            if u in F.tops:
                shells[k] = u
    c.floor("dynamic-states", len(shells), 3)
    queries = convs = outs_ = news = views = wraps = 0
    for d, it in sorted(P.items.items()):
        if it["kind"] != "fn" or it["crate"] != "tp_client" or "c_api" in d or it.get("inst") is None or it.get("ret") is None:
            continue
        ins = [P.uty(it["types"], i) for i in it.get("ins") or []]
        ret = P.uty(it["types"], it["ret"])
        w = c.loc(d)
        if ret == PT and len(ins) == 1 and base(ins[0]) in enums:
            queries += 1
            query(c, P, F, d, base(ins[0]), enums, w)
        elif CONV.search(d) and len(ins) == 1 and (ret.split("<")[0] in shells or base(ins[0]) in shells):
            wraps += 1
            wrap(c, P, F, d, ins[0], ret.split("<")[0], enums, shells, w)
        elif CONV.search(d) and not (ins[0:1] and ins[0][0] == '&' and base(ins[0]) in enums) and len(ins) == 1 and ret.split("<")[0] in enums and ins[0].split("<")[0] != ret.split("<")[0]:
            convs += 1
            into(c, P, F, d, ins[0], ret.split("<")[0], enums, lookup, w)
        elif re.search(r"TryFrom<.*>( for .*)?>::try_from$|TryFrom<.*> for .*>::try_from$", d) and len(ins) == 1 and ins[0].split("<")[0] in enums:
            outs_ += 1
            outof(c, P, F, d, ins[0].split("<")[0], ret, enums, w)
        elif len(ins) == 1 and base(ins[0]) in enums and ret.split("<")[0] in enums and not d.endswith("::clone::Clone>::clone_from"):
            views += 1
            view(c, P, F, d, base(ins[0]), ret.split("<")[0], enums, w)
        elif ret.split("<")[0] in enums and PT in ins and len(ins) == 3:
            news += 1
            newid(c, P, F, d, ins, ret.split("<")[0], enums, w)
    c.floor("type-queries", queries, 16)
    c.floor("conversions-in", convs, 300)
    c.floor("conversions-out", outs_, 120)
    c.floor("views-and-copies", views, 20)
    c.floor("id-constructors", news, 2)
    c.floor("state-conversions", wraps, 84)
    statics(c, P, F)

CONV = re.compile(r"( as |<impl )std::convert::From<.*>( for .*>?)?::from$")

def norm(u):
    return u.replace("'_ ", "").replace("'static ", "")

def run(P, d, adt=None):
    return summarise(P, d, adt=adt, fold=False, leaf=lists)

def lists(mm, I, st, callee, n, targs, args, site):
    """lists of equal length compared element by element are compared as lists"""
    def listed(it):
        it = prims.iterval(I, st, it)
        while it[0] == 'it' and it[1] in ('copied', 'cloned'):
            it = prims.iterval(I, st, it[2])
        if it[0] == 'call' and len(it[3]) == 1 and re.search(r"(slice::<impl \[T\]>::iter|::into_iter)$", str(it[1])):
            return strip_deref(model.placeterm(I, st, it[3][0])[1]), it
        return None
    if re.search(r"Iterator::(eq|ne)$", n) and len(args) == 2:
        a, b = listed(args[0]), listed(args[1])
        return [(st, ('bin', 'Eq' if n.endswith("eq") else 'Ne', a[0], b[0]))] if a and b else None
    if not re.search(r"Iterator::all$", n):
        return None
    z = prims.iterval(I, st, args[0])
    if z[:2] != ('it', 'zip'):
        return None
    a, b = listed(z[2]), listed(z[3])
    if not a or not b or not any(t[0] == 'bin' and t[1] == 'Eq' and f == ('=', 1) and lens(t) and set(lens(t)) == {a[0], b[0]} for t, f in st.facts.items()):
        return None
    x, y = ('el', a[1]), ('el', b[1])
    r = I.call_value(st.copy(), args[1], [('a', 'T', 0, (x, y))], None, {"fn": "?", "sp": None, "stack": []})
    if not r or len(r) != 1 or r[0][1][:2] != ('bin', 'Eq') or {whole(strip_deref(t)) for t in r[0][1][2:]} != {x, y}:
        return None
    return [(st, ('bin', 'Eq', a[0], b[0]))]

def whole(t):
    """an index is its only field"""
    return strip_deref(t[1]) if t[0] == 'f' and t[2:] == (0, 0) and strip_deref(t[1])[0] == 'el' else t

def lens(t):
    """the two lists whose lengths a comparison compares"""
    if all(x[0] == 'len' and x[1][0] == 'place' for x in t[2:]):
        return tuple(strip_deref(x[1][1]) for x in t[2:])
    return None

def query(c, P, F, d, k, enums, w):
    c.analysed.add(d)
    m, outs = run(P, d)
    seen = set()
    want = F.chains(k)
    for o in outs:
        ch, v = valchain(o.v, {PT, F.prim})
        names = None
        if len(ch) == 2:
            names = (P.adts[PT]["v"][ch[0]]["n"], P.adts[F.prim]["v"][ch[1]]["n"])
        # which variants of the argument does this path stand for?
        ac, _ = argchain(o)
        hit = [x for x in want if covers(ac, x)]
        seen |= set(hit)
        if names is None:
            # left symbolic: T::PROPERTY_TYPE of the payload's own type
            r = symbolic(P, o.v)
            for x in hit:
                c.ob("type-query:%s" % d, r == want[x][:2], "reports %s for %s" % (show(o.v)[:120], want[x][:2]), w)
            continue
        for x in hit:
            c.ob("type-query:%s" % d, want[x][:2] == names, "reports %s for a %s" % ("/".join(names), "/".join(want[x][:2])), w)
    c.ob("type-query-total:%s" % d, seen == set(want), "has no answer for %d variants" % len(set(want) - seen), w)
    c.ob("type-query-no-panic:%s" % d, not m.I.panics, "can panic", w)

def symbolic(P, v):
    if v[0] == 'const' and str(v[1]).endswith("::PROPERTY_TYPE") and v[2]:
        u = str(v[2][0])
        p = prims_in(u)
        if len(p) == 1:
            return ("Vec" if "Vec<" in u else "Primitive", next(iter(p)))
    return None

def covers(ac, x):
    for i, y in enumerate(ac):
        if i >= len(x):
            return True
        if isinstance(y, tuple):
            return x[i] not in y[1]
        if y != x[i]:
            return False
    return True

def into(c, P, F, d, src, k, enums, lookup, w):
    c.analysed.add(d)
    m, outs = run(P, d)
    key = "into:%s<-%s" % (k.rsplit("::", 1)[-1], short(src))
    c.ob(key + ":no-panic", not m.I.panics, "can panic", w)
    cs = lookup[k].get(norm(src))
    if cs is None and k in F.tops and src.split("<")[0] in F.tops[k]:
        i = F.tops[k].index(src.split("<")[0])
        for o in outs:
            okk = o.v[0] == 'a' and o.v[1][2:] == k and o.v[2] == i and content(o.v[3][0], o)
            c.ob(key, okk, "gives %s" % show(o.v)[:160], w)
        return
    if cs is None:
        # between forms of the same dynamic value (owned to borrowed, …): variant and content kept
        s = src.lstrip('&').replace('mut ', '').split("<")[0]
        if s in enums:
            for o in outs:
                ch, v = valchain(o.v, enums)
                ac, at_ = argchain(o)
                n1 = F.chains(k).get(ch, ('?', '?'))[:2]
                n2 = F.chains(s).get(tuple(ac), ('?', '?'))[:2]
                c.ob(key, n1 == n2 and n1 != ('?', '?') and contains(v, ('p', 0)), "turns a %s into %s" % (n2, n1), w)
        else:
            c.count("other-conversions")
        return
    for o in outs:
        ch, v = valchain(o.v, enums)
        c.ob(key, ch in cs and content(v, o), "gives %s" % show(o.v)[:160], w)

def changed(t):
    return isinstance(t, tuple) and (t[:1] == ('mut',) or any(changed(x) for x in t))

def wrap(c, P, F, d, src, k, enums, shells, w):
    """a state becomes a dynamic state of its own type that holds its value"""
    c.analysed.add(d)
    m, outs = run(P, d)
    s = src.lstrip('&').replace("'_ ", "").replace('mut ', '').split("<")[0]
    key = "state:%s<-%s" % (k.rsplit("::", 1)[-1], short(src))
    c.ob(key + ":no-panic", not m.I.panics, "can panic", w)
    for o in outs:
        v = o.v
        if s in shells:
            # out of the wrapper
            c.ob(key, strip_deref(v) in (('f', ('p', 0), 0, 0), ('p', 0)) or strip_deref(v) == ('p', 0), "gives %s" % show(v)[:160], w)
            continue
        if not c.ob(key + ":form", v[0] == 'a' and v[1][2:] == k and len(v[3]) == 1, "gives %s" % show(v)[:160], w):
            continue
        if s == shells[k]:
            c.ob(key, strip_deref(v[3][0]) == ('p', 0), "gives %s" % show(v)[:160], w)
            continue
        a = P.adts.get(s)
        if not a or a["enum"] or not prims_in(src):
            c.count("other-conversions")
            continue
        ch, inner = valchain(v[3][0], enums)
        got = F.chains(shells[k]).get(ch, ('?', '?'))[:2]
        pl = bare(inner)
        c.ob(key, got == ("Vec" if re.search(r"Vec<|\[", src) else "Primitive", next(iter(prims_in(src)))) and pl[0] == 'f' and pl[1] == ('p', 0) and not changed(inner),
             "gives %s" % show(v)[:160], w)

def view(c, P, F, d, src, k, enums, w):
    """borrowed forms and copies keep variant and content"""
    c.analysed.add(d)
    m, outs = run(P, d)
    c.ob("view:no-panic:" + d, not m.I.panics, "can panic", w)
    seen = set()
    want = F.chains(src)
    for o in outs:
        ch, v = valchain(o.v, enums)
        ac, at_ = argchain(o)
        hit = {x for x in want if covers(ac, x)}
        seen |= hit
        if not ch:
            # the argument itself, or a copy of it
            c.ob("view:" + d, k == src and contains(v, ('p', 0)), "gives %s" % show(o.v)[:140], w)
            continue
        names = {F.chains(k)[x][:2] for x in F.chains(k) if x[:len(ch)] == ch}
        c.ob("view:" + d, names == {want[x][:2] for x in hit}, "turns %s into %s" % (sorted(want[x][:2] for x in hit)[:2], sorted(names)[:2]), w)
        c.ob("view-content:" + d, bare(v) == at_ and not changed(v), "gives %s" % show(o.v)[:140], w)
    c.ob("view-total:" + d, seen == set(want), "has no answer for %d variants" % len(set(want) - seen), w)

SAME = ("as_slice", "as_mut_slice", "clone", "deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "to_vec", "to_owned", "into", "from")
def bare(v):
    """the place a view or copy shows"""
    while True:
        v = strip_deref(v)
        if v[0] in ('ref', 'mut', '&') and v[0] != '&':
            v = v[1]
        elif v[0] == 'call' and str(v[1]).rsplit("::", 1)[-1] in SAME and len(v[3]) == 1:
            v = v[3][0]
        elif v[0] == 'a' and v[3]:
            # rebuilt field by field
            fs = [bare(x) for x in v[3]]
            own = {x[1] for i, x in enumerate(fs) if x[0] == 'f' and x[3] == i}
            if len(own) != 1 or any(not (x[0] == 'f' and x[3] == i or "PhantomData" in show(x)) for i, x in enumerate(fs)):
                return v
            v = next(iter(own))
        else:
            return v

def content(v, o):
    return peel(v) == ('p', 0) or v == ('p', 0)

def outof(c, P, F, d, k, ret, enums, w):
    c.analysed.add(d)
    m, outs = run(P, d, adt=RESULT)
    m_ = re.search(r"^std::result::Result<(.*),|^core::result::Result<(.*),", ret)
    it = P.items[d]
    t = it["types"][it["ret"]]
    tgt = P.uty(it["types"], t["a"][0])
    key = "outof:%s->%s" % (k.rsplit("::", 1)[-1], short(tgt))
    c.ob(key + ":no-panic", not m.I.panics, "can panic", w)
    a = P.adts[k]
    own = [i for i, v in enumerate(a["v"]) if norm(P.uty(a["types"], v["f"][0]["t"])) == norm(tgt)]
    if not own:
        ch = [x for x, (g, n, u) in F.chains(k).items() if norm(u) == norm(tgt)]
        if not c.ob(key + ":target", len(ch) == 1, "no variant of %s holds a %s" % (k, tgt), w):
            return
        own = ch
    else:
        own = [(own[0],)]
    want = set(all_heads(F, k, len(own[0])))
    seen_ok, seen_err = set(), set()
    for o in outs:
        ac, at_ = argchain(o)
        hit = {x for x in want if covers(ac, x)}
        if o.kind == 'Ok':
            seen_ok |= hit
            n = ('p', 0)
            for i in own[0]:
                n = ('f', n, i, 0)
            c.ob(key + ":content", strip_deref(o.payload) == n, "returns %s" % show(o.payload)[:120], w)
        else:
            seen_err |= hit
    c.ob(key, seen_ok == set(own) and seen_err == want - set(own), "succeeds for variants %s, fails for %s; its own is %s" % (sorted(seen_ok)[:4], sorted(seen_err)[:4], own), w)

def all_heads(F, k, n):
    return {x[:n] for x in F.chains(k)}

def newid(c, P, F, d, ins, k, enums, w):
    c.analysed.add(d)
    m, outs = run(P, d)
    c.ob("new-id-no-panic:" + d, not m.I.panics, "can panic", w)
    ti = ins.index(PT)
    want = F.chains(k)
    seen = set()
    for o in outs:
        ch, v = valchain(o.v, enums)
        ac, _ = argchain(o, ('p', ti))
        if len(ac) != 2 or any(isinstance(x, tuple) for x in ac):
            c.fail("new-id:" + d, "the type asked for is not decided on a path", w)
            continue
        names = (P.adts[PT]["v"][ac[0]]["n"], P.adts[F.prim]["v"][ac[1]]["n"])
        got = want.get(ch, ('?', '?', '?'))
        seen.add(names)
        c.ob("new-id-type:" + d, got[:2] == names, "makes a %s id for type %s" % ("/".join(got[:2]), "/".join(names)), w)
        # carries position and contract
        okk = v[0] == 'a'
        if okk:
            a = P.adts[v[1][2:]]
            for i, f in enumerate(a["v"][0]["f"]):
                u = P.uty(a["types"], f["t"])
                if u == "usize":
                    okk &= v[3][i] == ('p', ins.index("usize"))
                if u == HANDLE_C:
                    okk &= v[3][i] == ('p', ins.index(HANDLE_C))
        c.ob("new-id-content:" + d, okk, "the id is %s" % show(v)[:120], w)
    c.ob("new-id-total:" + d, len(seen) == 2 * len(F.pnames), "only %d types handled" % len(seen), w)

def statics(c, P, F):
    n = 0
    for d in sorted(P.by_def):
        m_ = re.search(r"^<(.*) as (.*)::(DATA_TYPE|PROPERTY_TYPE)$", d)
        if not m_ or "ITp" not in m_.group(2):
            continue
        n += 1
        c.analysed.add(d)
        m, outs = run(P, d)
        w = d
        for o in outs:
            if m_.group(3) == "DATA_TYPE":
                want = prims_in(m_.group(1).replace("std::string::String", "String"))
                got = {P.adts[F.prim]["v"][o.v[2]]["n"]} if o.v[0] == 'a' else set()
                c.ob("data-type:" + d, got == want and len(got) == 1, "is %s" % (got or show(o.v)[:80]), w)
            else:
                g = "Vec" if "Vec<" in m_.group(1) else "Primitive"
                v = o.v
                okk = v[0] == 'a' and P.adts[PT]["v"][v[2]]["n"] == g and v[3][0][0] == 'const' and str(v[3][0][1]).endswith("DATA_TYPE")
                c.ob("property-type:" + d, okk, "is %s" % show(v)[:100], w)
    c.floor("type-constants", n, 16)
    for d, it in sorted(P.items.items()):
        if it["kind"] == "fn" and it["crate"] == "tp_client" and "c_api" not in d and it.get("inst") and it.get("ret") is not None \
           and P.uty(it["types"], it["ret"]) == PT and len(it.get("ins") or []) == 1:
            u = P.uty(it["types"], it["ins"][0])
            if "Dyn" in u or u == PT or "TpPropertyType" in u:
                continue
            c.analysed.add(d)
            for o in run(P, d)[1]:
                v = o.v
                okk = v[0] == 'const' and str(v[1]).endswith("PROPERTY_TYPE") and v[2] and str(v[2][0]) == "T"
                c.ob("static-query:" + d, okk, "is %s" % show(v)[:100], c.loc(d))
    d = PT + "::primitive_type"
    if c.need(d):
        for o in run(P, d)[1]:
            v = strip_deref(o.v)
            c.ob("primitive-of-type", v[0] == 'f' and v[3] == 0 and v[1] == ('p', 0), "is %s" % show(o.v)[:100], c.loc(d))

def short(u):
    return re.sub(r"[a-z_]+::", "", u)
