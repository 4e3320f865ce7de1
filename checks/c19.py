"""C19: every exported C function does what the Rust operation of its name does."""
import re
from sa.spec import *
from sa import model, prims
from sa.interp import UNIT
from checks import c02, c16, c18, tally

META = {
 "level": "proof",
 "rule": "Each exported function is interpreted with everything it calls, and its outcomes are compared with the specification that its name and "
         "type select: constructors box exactly what they are given; accessors return the place, value or id they are named for, of the object they "
         "are given; setters write the given value there and nothing else; lookups and bindings by handle meet the rules of C01 and C02, for the "
         "table of the type in their name, and refuse (panic) only when Rust reports an error; vector functions act on the given position; a channel "
         "is made of exactly the given keyframes in time order; the contract functions pass their own arguments, in order and unchanged, to the "
         "operation of their name on the given baseline.  No other function is exported.",
 "trusted": ["safer_ffi's boxes, vectors and slices are those of Rust", "generational_arena's and typemap's contracts"],
}
CONTRACT = "arena::Index<tp_client::contract::ContractData>"
HANDLE_O = "arena::Index<tp_client::object::Object>"
NAMES = {"String": "std::string::String", "ObjectHandle": HANDLE_O, "ContractDataHandle": CONTRACT,
         "Bool": "bool", **{k.upper(): k for k in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64")}}
KF, CHN = c16.CH + "Keyframe", c16.CH + "Channel"
ST = "tp_client::contract::properties::states::State"
ALIAS = re.compile(r"\balloc::(string|vec|boxed)::")
API = re.compile(r"^tp_client::baseline::Baseline::(\w+)$")
CONV = re.compile(r"(::as_bytes|::as_slice|::as_str|::as_ref|::as_mut|::deref|::to_vec|::to_owned|::into_vec|::into_boxed_slice|convert::From<.*>>::from|convert::Into<.*>>::into|borrow::Borrow<.*>>::borrow|::clone|::to_string|::into_bytes|::as_mut_slice|::as_mut_str)$")

def N(t):
    """up to references"""
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        t = peel(t)
        if t[0] == 'moved':
            return N(t[1])
    return tuple(N(x) for x in t)

def eq(a, b):
    return N(a) == N(b)

def unbox(v):
    v = peel(v)
    return v[3][0] if v[0] == 'call' and v[1] == 'box' else None

def norm(u):
    return ALIAS.sub(r"std::\1::", u)

class Spec:
    def __init__(self, c):
        self.c, self.P = c, c.P
        self.s = Store(c)
        P = c.P
        self.kv = c16.field(c, P, KF, lambda u: u == "T", "value")
        self.kt = c16.field(c, P, KF, lambda u: u == "f64", "time")
        self.cl = c16.field(c, P, CHN, lambda u: "Vec<" in u, "list")
        self.sv = c16.field(c, P, ST, lambda u: u == "T", "value")

    def fields(self, u):
        a = self.P.adts.get(u)
        return [(f["n"], norm(self.P.uty(a["types"], f["t"]))) for f in a["v"][0]["f"]] if a and not a["enum"] else []

    def inner(self, u, core):
        """path from a value of type u to the value it wraps"""
        u, core = norm(u), norm(core)
        if u == core or re.sub(r"<.*", "", u) == re.sub(r"<.*", "", core) and not self.fields(u):
            return []
        fs = self.fields(u)
        hit = [i for i, (n, x) in enumerate(fs) if x == core]
        self.c.ob("anchor:wrapper:" + u, len(fs) == 1 and hit == [0], "%s does not wrap just a %s" % (u, core))
        return [(0, 0)]

    def run(self, d, **kw):
        kw.setdefault("values", True)
        m, outs = summarise(self.P, d, **kw)
        self.c.analysed.add(d)
        self.c.count("paths", len(outs))
        self.c.ob("returns:" + d, outs, "no path returns", self.c.loc(d))
        for o in outs:
            self.c.sample(outline(o, 3))
        return m, outs

    def wrapped(self, v, u, core):
        """what a value of the wrapper type u wraps (a term), or None"""
        p = self.inner(u, core)
        v = peel(v)
        if not p:
            return v
        if v[0] == 'a' and len(v[3]) == 1:
            return v[3][0]
        return at(v, p)

    def exact(self, d, want, effects_=(), panics=False, get=lambda v: v, **kw):
        """one result on every path"""
        c, w = self.c, self.c.loc(d)
        m, outs = self.run(d, **kw)
        if not panics:
            c.ob("no-panic:" + d, not m.I.panics, "may panic: %s" % [x[2] for x in m.I.panics[:1]], w)
        for o in outs:
            if want is not None:
                v = get(o.v)
                c.ob("value:" + d, v is not None and eq(v, want), "returns %s instead of %s" % (show(o.v)[:140], show(want)[:100]), w)
            got = [N(('write', 'assign') + t[2:] if t[:2] == ('write', 'replace') else t) for t in effects(o)]
            c.ob("effects:" + d, got == [N(t) for t in effects_], "does %s instead of %s" % ([show(t)[:100] for t in effects(o)[:3]], [show(t)[:100] for t in effects_]), w)

def content(p):
    """what is in the box p"""
    return ('*', ('f', p, 0, 0))

def check(c):
    P = c.P
    S = Spec(c)
    n = 0
    for s, it, e in c18.exports(P):
        if not c.ob("anchor:" + s, it and "ins" in it, "the export does not forward to a function of the workspace", e["span"]):
            continue
        ins, ret = c18.types(P, it)
        seg = s.split("__")
        ty, me = (seg + ["", ""])[:2] if len(seg) < 2 else seg[-2:]
        n += one(S, s, it["def"], ty, me, [norm(x) for x in ins], norm(ret))
    c.floor("exported functions", n, 440)

def ref(u):
    return u.startswith("&")

def unref(u):
    return re.sub(r"^&(mut )?", "", u)

def owned(u):
    m = c18.OWN.match(u)
    return m.group(1) if m else None

def one(S, s, d, ty, me, ins, ret):
    c, P = S.c, S.P
    w = c.loc(d)
    if me == "drop":
        return released(S, d, ins)
    m = re.match(r"^(Keyframe|Channel|State|StateId|ChannelId|StateHandle|ChannelHandle|Box)_(\w+)$", ty)
    r = re.match(r"^RVec_Keyframe(\w+)$", ty)
    b = re.match(r"^(state_mut|state|channel_mut|channel|bind_state|bind_channel)_(\w+)$", me) if ty == "Baseline" else None
    T = NAMES.get((m or r or b or [0, 0, 0])[1 if r else 2]) if (m or r or b) else None
    if (m or r or b) and not c.ob("anchor:type:" + s, T, "unknown value type in the name", w):
        return 1
    if m and m.group(1) == "Keyframe":
        return keyframe(S, d, me, T, ins, ret)
    if m and m.group(1) == "State":
        return state(S, d, me, T, ins, ret)
    if m and m.group(1) == "Channel":
        return channel(S, d, me, T, ins, ret)
    if m and m.group(1) in ("StateId", "ChannelId") and me == "contract":
        adt = c02.SID if m.group(1) == "StateId" else c02.CID
        ci, ii = idfields(c, P, adt)
        me_ = at(('*', P0), S.inner(unref(ins[0]), adt + "<%s>" % T))
        S.exact(d, ('f', me_, 0, ci), get=lambda v: S.wrapped(unbox(v), owned(ret), CONTRACT) if unbox(v) else None)
        return 1
    if m and m.group(1) == "Box" and me == "new":
        c.ob("typed:" + d, ins == [T] and owned(ret) == T, "%s -> %s" % (ins, ret), w)
        S.exact(d, P0, get=unbox)
        return 1
    if r:
        return rvec(S, d, me, ins, ret)
    if b:
        return by_handle(S, d, b.group(1), T, ins, ret)
    if ty == "Baseline":
        return baseline(S, d, me, ins, ret)
    if ty == "ContractData":
        return cdata(S, d, me, ins, ret)
    if ty == "ContractId":
        return cid(S, d, me, ins, ret)
    if ty == "String":
        return string(S, d, me, ins, ret)
    if ty.endswith("Contract"):
        return contract(S, d, me, ins, ret)
    if ty.endswith("States"):
        return states(S, d, me, ins, ret)
    c.fail("unspecified:" + s, "an exported function without a specification", w)
    return 1

def released(S, d, ins):
    # that the argument is freed follows from C18
    m, outs = S.run(d)
    S.c.ob("no-panic:" + d, not m.I.panics, "may panic", S.c.loc(d))
    for o in outs:
        S.c.ob("effects:" + d, not effects(o), "does %s" % [show(t)[:100] for t in effects(o)[:2]], S.c.loc(d))
    return 1

def by_type(ins, pred):
    r = [i for i, u in enumerate(ins) if pred(u)]
    return ('p', r[0]) if len(r) == 1 else ('p', 99)

def keyframe(S, d, me, T, ins, ret):
    core = KF + "<%s>" % T
    if me == "new":
        a, t = by_type(ins, lambda u: owned(u)), by_type(ins, lambda u: u == "f64")
        if a == ('p', 99):
            S.c.fail("anchor:args:" + d, "takes %s" % ins); return 1
        v = at(content(a), S.inner(owned(ins[a[1]]), T))
        def get(x):
            x = unbox(x)
            x = S.wrapped(x, owned(ret), core) if x else ('i', 0)
            return ('kf', x[3][S.kv], x[3][S.kt]) if is_adt(x, KF) else x
        S.exact(d, ('kf', v, t), get=get)
        return 1
    k = at(('*', P0), S.inner(unref(ins[0]), core))
    if me == "value":
        S.c.ob("typed:" + d, ref(ret), "returns %s" % ret)
        S.exact(d, ('f', k, 0, S.kv), get=lambda v: same_place(S, v, unref(ret), T))
    elif me == "time":
        S.exact(d, ('f', k, 0, S.kt))
    else:
        S.c.fail("unspecified:" + d, "an exported function without a specification", S.c.loc(d))
    return 1

def same_place(S, v, u, T):
    """a reference to a wrapper is a reference to what it wraps"""
    S.inner(u, T)
    return v

def state(S, d, me, T, ins, ret):
    core = ST + "<%s>" % T
    if me == "new":
        a = by_type(ins, owned)
        if a == ('p', 99):
            S.c.fail("anchor:args:" + d, "takes %s" % ins); return 1
        def get(x):
            x = unbox(x)
            x = S.wrapped(x, owned(ret), core) if x else ('i', 0)
            return x[3][S.sv] if is_adt(x, ST) else x
        S.exact(d, at(content(a), S.inner(owned(ins[a[1]]), T)), get=get)
        return 1
    k = at(('*', P0), S.inner(unref(ins[0]), core))
    if me == "value":
        S.c.ob("typed:" + d, ref(ret), "returns %s" % ret)
        S.exact(d, ('f', k, 0, S.sv), get=lambda v: same_place(S, v, unref(ret), T))
    elif me == "value_set":
        a = by_type(ins, owned)
        v = at(content(a), S.inner(owned(ins[a[1]]), T)) if a[1] < len(ins) else UNIT
        S.exact(d, None, [('write', 'assign', ('f', k, 0, S.sv), v)])
    else:
        S.c.fail("unspecified:" + d, "an exported function without a specification", S.c.loc(d))
    return 1

def list_of(c, S, d, src, item, unwrap=lambda v: v, get=None):
    """the result holds, for every element of the collection `src`, item(element), in their order"""
    w = c.loc(d)
    m = model.Model(S.P, keep_fact=lambda t: tally.keep(t) or not any(x[:1] in (('el',), ('old',)) for x in subterms(t)))
    def el(t):
        t = peel(t)
        while t[0] == '*':
            t = peel(t[1])
        if t[0] != 'el' or len(t) != 2:
            return None
        b = peel(t[1])
        while b[0] == 'call' and len(b[3]) == 1:
            b = peel(b[3][0])
        return t if eq(b, src) else None
    def wanted(x):
        x = peel(x)
        return any(el(y) and (eq(x, item(y)) or eq(x, y)) for y in subterms(x))
    T = tally.Tally(m, wanted)
    outs = [model.Out(st, v, m.I) for st, v in m.run(d)]
    c.analysed.add(d)
    c.ob("no-panic:" + d, not m.I.panics, "may panic: %s" % [x[2] for x in m.I.panics[:1]], w)
    c.ob("returns:" + d, outs, "no path returns", w)
    for o in outs:
        c.count("paths")
        T.judge(c, d, o, "element", w, ('map', 'inspect', 'by_ref', 'fuse', 'copied', 'cloned'))
        v = o.v
        c.ob("own-list:" + d, v[0] in ('vec', 'vec*') and all(T.mine(x) for x in v[1]), "returns %s" % show(v)[:160], w)
        eff = [t for t in effects(o) if t[1] not in ('iter_mut', 'into_iter')]
        c.ob("effects:" + d, not eff, "does %s" % [show(t)[:100] for t in eff[:2]], w)

def channel(S, d, me, T, ins, ret):
    c = S.c
    core = CHN + "<%s>" % T
    if me == "new":
        k = owned(ins[0])
        if not c.ob("anchor:args:" + d, len(ins) == 1 and k, "takes %s" % ins):
            return 1
        p = S.inner(k, KF + "<%s>" % T)
        def own(t):
            t = peel(t)
            if p and t[0] == 'f' and t[2:] == p[0]:
                t = peel(t[1])
            if t[0] != 'el' or len(t) != 2:
                return False
            b = peel(t[1])
            while b[0] == 'call' and len(b[3]) == 1:
                b = peel(b[3][0])
            return b == P0
        def un(v):
            x = unbox(v)
            return S.wrapped(x, owned(ret), core) if x else ('i', 0)
        c16.construct(c, d, S.cl, S.kt, own, un)
        return 1
    k = at(('*', P0), S.inner(unref(ins[0]), core))
    if me in ("keyframes", "keyframes_mut"):
        S.inner(unref(owned(ret)), KF + "<%s>" % T)
        list_of(c, S, d, ('f', k, 0, S.cl), lambda e: e)
    else:
        c.fail("unspecified:" + d, "an exported function without a specification", c.loc(d))
    return 1

def rvec(S, d, me, ins, ret):
    c, w = S.c, S.c.loc(d)
    v = ('*', P0)
    a = by_type(ins, lambda u: u.startswith("safer_ffi::boxed::"))
    i = by_type(ins, lambda u: u == "usize")
    if me == "new":
        m, outs = S.run(d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
        for o in outs:
            x = peel(o.v)
            c.ob("value:" + d, x == ('vec', ()) or x[0] == 'const' and x[1].endswith("Vec::<T>::EMPTY") or x[0] == 'call' and re.search(r"Vec::<T>::new$", str(x[1])),
                 "returns %s, not an empty vector" % show(o.v)[:140], w)
    elif me == "push":
        def leaf(mm, I, st, callee, n, targs, args, site):
            if re.search(r"vec::Vec::<T(, A)?>::push$", n):
                st.tag(('write', 'push', model.placeterm(I, st, args[0])[1], I.argterm(st, args[1])))
                return [(st, UNIT)]
        S.exact(d, None, [('write', 'push', v, content(a))], leaf=leaf)
    elif me == "get":
        S.exact(d, ('el', v, i), panics=True)
    elif me == "set":
        S.exact(d, None, [('write', 'assign', ('el', v, i), content(a))], panics=True)
    else:
        c.fail("unspecified:" + d, "an exported function without a specification", w)
    return 1

def by_handle(S, d, what, T, ins, ret):
    c, P, s = S.c, S.P, S.s
    me = ('*', by_type(ins, lambda u: unref(u) == BASELINE))
    if what.startswith("bind_"):
        k = what[5:]
        adt = c02.SID if k == "state" else c02.CID
        i = by_type(ins, lambda u: "Id_" in u)
        o = by_type(ins, lambda u: u.endswith("ObjectHandle") and "Id_" not in u)
        if ('p', 99) in (i, o):
            c.fail("anchor:args:" + d, "takes %s" % ins); return 1
        idp = at(('*', i), S.inner(unref(ins[i[1]]), adt + "<%s>" % T))
        e = s.entry(me, "objects", at(('*', o), S.inner(unref(ins[o[1]]), HANDLE_O)))
        hadt = "tp_client::contract::properties::%ss::handle::%sHandle<%s>" % (k, k.capitalize(), T)
        hs = S.fields(owned(ret))
        def un(v):
            v = unbox(v)
            if v is None:
                return ('i', 0)
            # the wrapper, and the typed handle in it
            for _ in range(2):
                v = peel(v)
                if v[0] == 'a' and v[1] != "arena::Index" and not str(v[1]).endswith("arena::Index") and len(v[3]) >= 1:
                    v = v[3][0]
            return v
        tables = c02.rule(c, d, ('*', ('f', e, 1, 0)), idp, adt, s, [e], panics=True, unwrap=un)
        other = c02.rule(c, "%s::bind_%s" % (BASELINE, k), c02.obj_form(c, s, s.entry(('*', P0), "objects", P2)), P1, adt, s,
                         [s.entry(('*', P0), "objects", P2)]) if k not in S.__dict__ else S.__dict__[k]
        S.__dict__[k] = other
        c.ob("same-table:" + d, tables and tables == other, "binds through %s, Rust through %s" % (tables, other), c.loc(d))
        return 1
    k = what.split("_")[0]
    h = by_type(ins, lambda u: unref(u) != BASELINE)
    if h == ('p', 99):
        c.fail("anchor:args:" + d, "takes %s" % ins); return 1
    key = [x for x in keys(summarise(P, d)[1]) if "%sArenaHandle" % k.capitalize() in x]
    inner = [re.search(r"ArenaHandle<(.*)>$", x) for x in key]
    c.ob("own-type:" + d, len(inner) == 1 and inner[0] and norm(inner[0].group(1)) == T, "looks into the table of %s for a %s of type %s" % (key, k, T), c.loc(d))
    if len(key) == 1:
        f = S.fields(unref(ins[h[1]]))
        hh = at(('*', h), [(0, 0)])
        tm, e = s.typed(me, "states" if k == "state" else "channels", key[0], hh)
        lookup_rule(c, d, [tm, e], panics=True, payload=('f', e, 1, 0))
    c.ob("typed:" + d, ref(ret), "returns %s" % ret)
    return 1

def baseline(S, d, me, ins, ret):
    c, s = S.c, S.s
    w = c.loc(d)
    b = ('*', by_type(ins, lambda u: unref(u) == BASELINE))
    kf = c16.field(c, S.P, BASELINE, lambda u: u.endswith("BaselineKind"), "kind")
    if me == "new":
        m, outs = S.run(d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
        for o in outs:
            x = unbox(o.v)
            c.ob("kind:" + d, x and is_adt(x, BASELINE) and eq(x[3][kf], P0), "makes %s" % show(o.v)[:140], w)
            c.ob("empty:" + d, x and is_adt(x, BASELINE) and not effects(o), "the new baseline is not empty: %s" % [show(t)[:80] for t in effects(o)[:2]], w)
    elif me == "kind":
        S.exact(d, ('f', b, 0, kf))
    elif me in ("object", "object_mut", "contract_data"):
        h = by_type(ins, lambda u: unref(u) != BASELINE)
        if h == ('p', 99):
            c.fail("anchor:args:" + d, "takes %s" % ins); return 1
        hh = at(('*', h), S.inner(unref(ins[h[1]]), CONTRACT if me == "contract_data" else HANDLE_O))
        lookup_rule(c, d, [s.entry(b, "contracts" if me == "contract_data" else "objects", hh)], panics=True)
    else:
        c.fail("unspecified:" + d, "an exported function without a specification", w)
    return 1

def cdata(S, d, me, ins, ret):
    c = S.c
    adt = unref(ins[0])
    if me == "id":
        i = c16.field(c, S.P, adt, lambda u: u.endswith("ContractId"), "id")
        S.exact(d, ('f', ('*', P0), 0, i))
    elif me == "objects":
        i = c16.field(c, S.P, adt, lambda u: "HashSet<" in u, "objects")
        u = owned(ret)
        p = S.inner(u, HANDLE_O)
        list_of(c, S, d, ('f', ('*', P0), 0, i), lambda e: ('a', 'A:' + u, 0, (('*', e),)) if p else e)
    else:
        c.fail("unspecified:" + d, "an exported function without a specification", c.loc(d))
    return 1

def core(t):
    """through pure conversions"""
    t = peel(t)
    while t[0] == 'call' and len(t[3]) == 1 and CONV.search(str(t[1])):
        t = peel(t[3][0])
    return t

def cid(S, d, me, ins, ret):
    c, w = S.c, S.c.loc(d)
    adt = unref(ins[0])
    name = c16.field(c, S.P, adt, lambda u: u == "&str", "name")
    ver = c16.field(c, S.P, adt, lambda u: u.startswith("("), "version")
    if me == "name":
        S.exact(d, ('f', ('*', P0), 0, name), get=core)
    elif me == "version":
        m, outs = S.run(d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
        for o in outs:
            fs = [n for n, _ in S.fields(ret)]
            order = [fs.index(n) for n in ("major", "minor", "patch") if n in fs] if len(fs) == 3 else []
            order = order if len(order) == 3 else [0, 1, 2]
            v = peel(o.v)
            got = tuple(v[3][i] for i in order) if v[0] == 'a' and len(v[3]) == 3 else ()
            want = tuple(('f', ('f', ('*', P0), 0, ver), 0, i) for i in range(3))
            c.ob("value:" + d, N(got) == N(want) and not effects(o), "returns %s" % show(o.v)[:140], w)
    else:
        c.fail("unspecified:" + d, "an exported function without a specification", w)
    return 1

def string(S, d, me, ins, ret):
    c, w = S.c, S.c.loc(d)
    T = "std::string::String"
    if me == "value":
        S.exact(d, at(('*', P0), S.inner(unref(ins[0]), T)), get=core)
        return 1
    want = {"copy_utf8": r"(String::from_utf8|str::from_utf8|from_utf8)$", "copy_utf16": r"String::from_utf16$"}.get(me)
    if not want:
        c.fail("unspecified:" + d, "an exported function without a specification", w)
        return 1
    def parse(t):
        t = peel(t)
        return t if t[0] == 'call' and re.search(want, str(t[1])) and eq(core(t[3][0]), P0) else None
    def leaf(mm, I, st, callee, n, targs, args, site):
        # a slice's elements, copied one by one in their order, are its copy
        if re.search(r"Iterator::collect$|Itertools::collect_vec$", n) and args[0][0] == 'it' and args[0][1] in ('copied', 'cloned') \
                and (not targs or 'Vec<' in str(targs[-1]) or n.endswith("vec")):
            x = args[0][2]
            if x[0] == 'call' and len(x[3]) == 1 and re.search(r"slice::<impl \[T\]>::iter$", str(x[1])):
                return [(st, ('call', 'slice::<impl [T]>::to_vec', (), (x[3][0],)))]
        return None
    m, outs = S.run(d, leaf=leaf)
    for o in outs:
        x = unbox(o.v)
        x = core(S.wrapped(x, owned(ret), T)) if x else ('i', 0)
        r = parse(x[1]) if x[0] == 'f' and x[2:] == (0, 0) else None
        c.ob("value:" + d, r and o.fact(('d', r), 0) and not effects(o), "returns %s" % show(o.v)[:140], w)
    for st, site, why in m.I.panics:
        o = model.Out(st, ('i', 0), m.I)
        bad = [t[1] for t in o.facts if t[0] == 'd' and parse(t[1]) and (o.fact(t, 1) or o.notfact(t, 0))]
        c.ob("refuses-only-invalid:" + d, bad, "panics on valid text (%s)" % why, w)
    c.ob("has-refusal:" + d, m.I.panics, "never refuses invalid text", w)
    return 1

def contract(S, d, me, ins, ret):
    c, P, w = S.c, S.P, S.c.loc(d)
    own = [u for u in ins if unref(u).endswith("Contract")] + [u for u in [unref(ret), owned(ret) or "", owned(ins[0]) or ""] if u.endswith("Contract")]
    mod = d.rsplit("::", 1)[0]
    if me in ("handle", "states"):
        adt = unref(ins[0])
        f = c16.field(c, P, adt, lambda u: u == CONTRACT if me == "handle" else u.endswith("States"), me)
        if me == "handle":
            S.exact(d, ('f', ('*', P0), 0, f), get=lambda v: S.wrapped(unbox(v), owned(ret), CONTRACT) if unbox(v) else None)
        else:
            S.exact(d, ('f', ('*', P0), 0, f))
        return 1
    op = {"register": "register_contract", "unregister": "unregister_contract"}.get(me, me)
    if not c.need(BASELINE + "::" + op):
        return 1
    name = d.rsplit("::", 1)[-1].split("__" + me)[0].split("__")[-1]
    def leaf(mm, I, st, callee, n, targs, args, site):
        x = API.search(callee["def"])
        if x:
            if x.group(1) == "object_create":
                for k in (2, 3):
                    r = prims.exact(I, st, args[k], None, site)
                    if r:
                        st, args = r[0], args[:k] + [('vec', tuple(r[1]))] + args[k + 1:]
            t = ('call', 'api.' + x.group(1), tuple(str(y) for y in targs), tuple(I.argterm(st, a) for a in args))
            st.tag(('api', t))
            return [(st, t)]
        return None
    b = by_type(ins, lambda u: unref(u) == BASELINE)
    prims.EXACT_VEC[0] = 12 if me == "object_create" else False
    m, outs = S.run(d, leaf=leaf)
    prims.EXACT_VEC[0] = False
    def calls(o):
        return [t[1] for t in o.trace if t[0] == 'api']
    for o in outs + [model.Out(st, ('i', 0), m.I) for st, _, _ in m.I.panics]:
        l = calls(o)
        if not c.ob("one-operation:" + d, len(l) == 1 and l[0][1] == 'api.' + op, "calls %s" % [x[1] for x in l], w):
            continue
        t = l[0]
        c.ob("own-contract:" + d, t[2] and t[2][0].split("__")[-1].split("::")[-1] == name, "for %s" % (t[2][:1],), w)
        c.ob("own-baseline:" + d, eq(t[3][0], b) or eq(t[3][0], ('*', b)), "on %s" % show(t[3][0])[:80], w)
        c.ob("effects:" + d, not effects(o), "also does %s" % [show(x)[:100] for x in effects(o)[:2]], w)
        if me == "object_remove":
            i = by_type(ins, owned)
            c.ob("args:" + d, eq(t[3][1], at(boxed(i, t[3][1]), [])) or is_content(S, t[3][1], i, ins, HANDLE_O), "removes %s" % show(t[3][1])[:100], w)
        elif me == "unregister":
            i = by_type(ins, owned)
            c.ob("args:" + d, is_content(S, t[3][1], i, ins, CONTRACT), "unregisters %s" % show(t[3][1])[:100], w)
        elif me == "object_create":
            create(S, d, t, ins, name)
        r = ('f', t, 0, 0)
        if o in outs:
            c.ob("accepted:" + d, o.fact(('d', t), 0), "ignores the operation's error", w)
            if me in ("register", "object_create"):
                v = unbox(o.v)
                v = S.wrapped(v, owned(ret), HANDLE_O) if v and me == "object_create" else v
                c.ob("value:" + d, v is not None and eq(v, r), "returns %s" % show(o.v)[:140], w)
        else:
            c.ob("refuses-only-errors:" + d, o.fact(('d', t), 1) or o.notfact(('d', t), 0), "panics although the operation succeeds", w)
    return 1

def boxed(i, t):
    return content(i)

def is_content(S, t, i, ins, core_):
    """the value in the box given as argument i, unwrapped"""
    if i[1] >= len(ins):
        return False
    p = S.inner(owned(ins[i[1]]), core_)
    # reading a field through the box's Deref or after moving out of it
    return any(eq(t, at(b, p)) for b in (content(i), ('*', i), i))

def create(S, d, t, ins, name):
    c, P, w = S.c, S.P, S.c.loc(d)
    i = by_type(ins, lambda u: unref(u).split("__")[-1].split("::")[-1] == name)
    c.ob("args:" + d, eq(t[3][1], i) or eq(t[3][1], ('*', i)), "creates for contract %s" % show(t[3][1])[:80], w)
    vals = [k for k, u in enumerate(ins) if not ref(u)]
    st, ch = core(t[3][2]), core(t[3][3])
    while st[0] == 'call' and len(st[3]) == 1:
        st = core(st[3][0])
    while ch[0] == 'call' and len(ch[3]) == 1:
        ch = core(ch[3][0])
    items = st[3] if st[0] == 'a' and st[1] == 'R' else st[1] if st[0] == 'vec' else None
    none = ch[3] if ch[0] == 'a' and ch[1] == 'R' else ch[1] if ch[0] == 'vec' else () if ch[0] == 'call' and not ch[3] and re.search(r"(^|[:.])(empty|new)$", str(ch[1])) else None
    sadt = [a for a in P.adts if a.split("__")[-1].split("::")[-1] == name.replace("Contract", "States")]
    declared = [re.search(r"StateId<(.*)>$", u) for _, u in S.fields(sadt[0])] if len(sadt) == 1 else []
    c.ob("no-channels:" + d, none is not None and len(none) == 0, "passes channels %s" % show(ch)[:80], w)
    if not c.ob("all-states:" + d, items is not None and len(items) == len(vals) == len(declared), "passes %s states of %d arguments (%d declared)" %
                (items and len(items), len(vals), len(declared)), w):
        return
    order = [n for n, _ in S.fields(sadt[0])]
    local = {l[0]: n for n, l in (P.by_def.get(d) or [{"names": []}])[0]["names"] if not l[1]}
    for k, x in enumerate(items):
        n = local.get(vals[k] + 1)
        c.ob("state-name:" + d, n not in order or order[k] == n, "the argument %s becomes the state %s" % (n, order[k]), w)
        u = ins[vals[k]]
        T = norm(declared[k].group(1)) if declared[k] else "?"
        x = peel(x)
        p = peel(x[3][0]) if x[0] == 'a' and x[3] else UNIT
        ok = is_adt(x, "tp_client::contract::properties::dynamic::property::DynTpProperty") or 'DynTpProperty' in str(x[1])
        a = P.adts.get(str(p[1]).replace("A:", "")) if p[0] == 'a' else None
        vt = norm(P.uty(a["types"], a["v"][p[2]]["f"][0]["t"])) if a and p[2] < len(a["v"]) and a["v"][p[2]]["f"] else None
        c.ob("state-type:" + d, ok and vt == T, "state %d is passed as %s, declared as %s" % (k, vt, T), w)
        i = ('p', vals[k])
        got = p[3][0] if p[0] == 'a' and p[3] else UNIT
        c.ob("state-value:" + d, eq(got, i) if not owned(u) else is_content(S, got, i, ins, T), "state %d is %s" % (k, show(got)[:80]), w)

def states(S, d, me, ins, ret):
    c = S.c
    adt = unref(ins[0])
    fs = S.fields(adt)
    i = [k for k, (n, u) in enumerate(fs) if n == me]
    if not c.ob("anchor:field:" + d, len(i) == 1, "no field %s in %s" % (me, adt), c.loc(d)):
        return 1
    S.exact(d, ('f', ('*', P0), 0, i[0]), get=lambda v: S.wrapped(unbox(v), owned(ret), fs[i[0]][1]) if unbox(v) else None)
    return 1
