"""C21: the generators of the C# wrappers describe the functions this library exports."""
import os, re
from sa import extract, model
from sa.spec import *
from sa.text import text, listed, strings
from checks import tally

META = {
 "level": "proof",
 "rule": "The texts that the generators put into each class's data are evaluated from the MIR (string literals, formatting, per-type lookups, for each of "
         "the fourteen value types), the templates they name are expanded with that data, and every native function that the resulting class calls is compared "
         "with the exports of the library: it exists, belongs to this class, takes as many arguments, and all exports of the class are used.  Each type is listed once, "
         "every listed type yields one class, each kind of class is rendered with its own template, and a filled output folder is refused unless overwriting was asked for.",
}
G = "cs_codegen::"
R = "rsharp_codegen::codegen::"
CS = {"u8": "byte", "u16": "ushort", "u32": "uint", "u64": "ulong", "i8": "sbyte", "i16": "short", "i32": "int", "i64": "long",
      "bool": "bool", "f32": "float", "f64": "double"}
NAT = re.compile(r"generated\.__Internal\.(\w+)\s*")

def pascal(n):
    return "".join(x[:1].upper() + x[1:] for x in n.split("_"))

SRC = {}

class Bad(Exception):
    pass

def esc(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;").replace(">", "&gt;")

def render(tpl, data, partials, escape):
    """the part of handlebars that the templates use, with missing names refused"""
    toks = re.split(r"(\{\{[^{}]*\}\})", tpl)
    pos = 0
    def block(on):
        nonlocal pos
        out = []
        while pos < len(toks):
            t = toks[pos]
            pos += 1
            if not t.startswith("{{"):
                if "{{" in t or "}}" in t:
                    raise Bad("odd braces in the template")
                out.append(t)
                continue
            k = t[2:-2].strip()
            if k in ("else", "/if"):
                return "".join(out), k
            if k.startswith("#if "):
                v = look(k[4:].strip())
                a, e = block(on and v)
                b = ""
                if e == "else":
                    b, e = block(on and not v)
                if e != "/if":
                    raise Bad("an {{#if}} is not closed")
                out.append(a if v else b)
            elif k.startswith(">"):
                n = k[1:].strip()
                if n not in partials:
                    raise Bad("no partial " + n)
                out.append(render(partials[n], data, partials, escape) if on else "")
            elif re.fullmatch(r"\w+", k):
                v = look(k) if on else ""
                if not isinstance(v, str):
                    raise Bad("{{%s}} is not text" % k)
                out.append(escape(v))
            else:
                raise Bad("unknown {{%s}}" % k)
        return "".join(out), None
    def look(k):
        if k not in data:
            raise Bad("the data has no `%s`" % k)
        return data[k]
    s, e = block(True)
    if e:
        raise Bad("stray {{%s}}" % e)
    return s

def args_of(s, i):
    """the arguments of the call whose parenthesis opens at or after i"""
    j = s.find("(", i)
    if j < 0 or s[i:j].strip():
        return None
    d, cur, res = 0, "", []
    for ch in s[j:]:
        if ch in "([{":
            d += 1
            if d == 1:
                continue
        if ch in ")]}":
            d -= 1
            if d == 0:
                res.append(cur)
                return [x.strip() for x in res] if len(res) > 1 or cur.strip() else []
        if ch == "," and d == 1:
            res.append(cur)
            cur = ""
            continue
        cur += ch
    return None

def plain(P, t):
    """Rust value of a term of text, bool, Option or struct; None inside when unknown"""
    if t[0] == 'i':
        return bool(t[1])
    if is_adt(t, OPTION):
        return None if t[2] == 0 else plain(P, t[3][0])
    if t[0] == 'a' and t[1].startswith("A:"):
        v = P.adts[t[1][2:]]["v"][t[2]]
        return {f["n"]: plain(P, x) for f, x in zip(v["f"], t[3])}
    s = text(t)
    if s is None:
        raise Bad("not known text: " + show(t)[:100])
    return s

def sources():
    r = {}
    for d, ds, fs in os.walk(extract.REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            if f.endswith(".cs"):
                try:
                    r[os.path.join(d, f)] = open(os.path.join(d, f), encoding="utf-8-sig").read()
                except (OSError, UnicodeDecodeError):
                    pass
    return r

def classes():
    """hand-written wrapper classes: full name -> can be built with an ownership"""
    r = {}
    for s in SRC.values():
        ns = re.search(r"namespace\s+([\w.]+)", s)
        for m in re.finditer(r"class\s+(\w+)\s*:\s*OpaqueWrapper<", s):
            n = (ns.group(1) + "." if ns else "") + m.group(1)
            r[n] = bool(re.search(r"public\s+(?:unsafe\s+)?%s\s*\(\s*Ptr<[\w.]+>\s+\w+\s*,\s*OwnershipSemantics\b" % m.group(1), s))
    return r

def textual(M, I, st, callee, name, targs, args, site):
    return strings(I, st, callee, name, args)

def recorder(P, tags, values=()):
    """notes every call to `tags`; stands a plain term for the result of a function in `values`"""
    def leaf(M, I, st, callee, name, targs, args, site):
        u = name.rsplit("::", 1)[-1]
        if u in tags:
            st.tag(('did', u, tuple(I.argterm(st, a) for a in args)))
        if u in ("next", "count", "last", "nth") and args and any(len(x) > 1 and x[0] == 'call' and x[1].endswith("::read_dir") for x in subterms(I.argterm(st, args[0]))):
            return [(st, ('call', "dir:" + u, (), (I.argterm(st, args[0]),)))]
        k = next((v for v in values if v(callee, name)), None)
        if k:
            t = ('call', name, tuple(map(str, targs)), tuple(I.argterm(st, a) for a in args))
            st.tag(('did', 'value', t))
            return [(st, t)]
        return strings(I, st, callee, name, args)
    return leaf

def check(c):
    P = c.P
    exports = {x["name"]: x for x in P.syms}
    nat = {}
    for n in exports:
        nat.setdefault(pascal(n), []).append(n)
    c.floor("exported functions", len(exports), 400)
    types(c, P)
    SRC.clear()
    SRC.update(sources())
    cls = classes()
    c.floor("hand-written wrapper classes", len(cls), 3)
    partials = mainfn(c, P)
    maintpl = builder(c, P, G + "Codegen::new", "cs_codegen")
    rbox = builder(c, P, R + "Codegen::new", "rsharp_codegen")
    writer(c, P, G + "Codegen::render_to_file", G + "ClassData", "class_ident", "%s.cs")
    writer(c, P, R + "Codegen::render_to_file", R + "TypeInfo", "type_platform", "RBox_%s.cs")
    names = serial(c, P)
    news = {}
    for im in P.impls:
        s = im["types"][im["self"]]["s"]
        m = re.fullmatch(r"cs_codegen::ClassData<cs_codegen::(?:\w+::)*(CD\w+)>", s)
        if not m or im.get("trait"):
            continue
        for it in im["items"]:
            for b in P.by_def.get(it["def"], []):
                ret = b["types"][b["locals"][0]["ty"] if isinstance(b["locals"][0], dict) else b["locals"][0]]["s"] if b.get("locals") else ""
                if b["argc"] == 1 and "ClassData<" in ret and "Vec<" not in ret:
                    news.setdefault(m.group(1), set()).add(it["def"])
                elif b["argc"] == 0 and "Vec<" in ret:
                    listing(c, P, it["def"], m.group(1))
    c.floor("kinds of classes", len(news), 4)
    for cd, ds in sorted(news.items()):
        for d in sorted(ds):
            family(c, P, cd, d, exports, nat, cls, maintpl, partials.get(cd), names)
    boxes(c, P, exports, rbox)

# -- the list of value types
def types(c, P):
    d = G + "type_info::PrimitiveType::types"
    if not c.need(d):
        return
    m, outs = summarise(P, d)
    c.ob("returns:" + d, len(outs) >= 1 and not m.I.panics, "no list", c.loc(d))
    vs = [v["n"] for v in P.adts[G + "type_info::PrimitiveType"]["v"]]
    c.floor("value types", len(vs), 14)
    for o in outs:
        l = listed(peel(o.v))
        if not c.ob("known-list:" + d, l is not None, "the list of value types is not fixed: %s" % show(o.v)[:100], c.loc(d)):
            continue
        got = [vs[x[2]] for x in l if x[0] == 'a' and x[1].endswith("PrimitiveType")]
        for v in vs:
            c.ob("each-type-once:" + v, got.count(v) == 1, "%s is listed %d times among the value types" % (v, got.count(v)), c.loc(d))

# -- one class per type
def listing(c, P, d, cd):
    c.analysed.add(d)
    w = c.loc(d)
    def made(callee, name):
        b = (P.by_def.get(callee["def"]) or [None])[0]
        if not b or not callee["def"].startswith(G):
            return False
        ret = b["types"][b["locals"][0]["ty"] if isinstance(b["locals"][0], dict) else b["locals"][0]]["s"]
        return b["argc"] == 1 and "ClassData<" in ret and "Vec<" not in ret
    def tps(callee, name):
        return callee["def"] == G + "type_info::PrimitiveType::types"
    def own(t):
        # an element of the list of types, or the class made from it
        t = peel(t)
        if t[0] == 'call' and len(t[3]) == 1 and "ClassData" in t[1]:
            t = peel(t[3][0])
        return t[0] == 'el' and any(x[0] == 'call' and x[1].endswith("types") for x in subterms(t) if len(x) > 1 and isinstance(x[1], str))
    m = model.Model(P, leaf=recorder(P, (), (made, tps)), keep_fact=lambda t: tally.keep(t) or not any(x[:1] in (('el',), ('old',)) for x in subterms(t)))
    T = tally.Tally(m, own)
    outs = [model.Out(s, v, m.I) for s, v in m.run(d)]
    c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
    c.ob("returns:" + d, outs, "no path returns", w)
    for o in outs:
        c.count("paths")
        T.judge(c, d, o, "value type", w, ('map', 'inspect', 'by_ref', 'fuse', 'rev', 'copied', 'cloned'))
        for t in o.trace:
            if t[0] == 'did' and t[1] == 'value' and "ClassData" in t[2][1]:
                c.ob("own-kind:" + d, cd in t[2][1], "the list of %s is made of %s" % (cd, t[2][1]), w)

# -- the kind of class each template is used for
def mainfn(c, P):
    d = G + "main"
    res = {}
    if not c.need(d):
        return res
    w = c.loc(d)
    def gen(callee, name):
        return callee["def"].endswith("::generate_class_data") or callee["def"] == G + "Codegen::new"
    def file(callee, name):
        return callee["def"] == G + "Codegen::render_to_file"
    seen = []
    def leaf(M, I, st, callee, name, targs, args, site):
        if gen(callee, name):
            s = re.search(r"CD\w+", name)
            t = ('call', "gen:" + (s.group(0) if s else "codegen"), (), tuple(I.argterm(st, a) for a in args))
            return [(st, t)]
        if file(callee, name):
            a = [I.argterm(st, x) for x in args]
            tpl = [x[3][0] for x in subterms(a[0]) if x[:2] == ('call', 'gen:codegen')]
            kind = [x[1][4:] for x in subterms(a[1]) if len(x) > 1 and x[0] == 'call' and x[1].startswith("gen:CD")]
            seen.append((frozenset(tpl), frozenset(kind)))
            t = ('call', 'rendered', (), tuple(a))
            st.tag(('did', 'render', t))
            return [(st, t)]
        return None
    kinds = []
    m = model.Model(P, leaf=leaf, keep_fact=lambda t: not any(x[:1] in (('el',), ('old',)) for x in subterms(t)))
    m.I.on_iter = lambda I, st, kind, it: kinds.append(kind)
    outs = m.run(d)
    c.ob("returns:" + d, outs, "no path returns", w)
    bad = set(kinds) - {'map', 'inspect', 'by_ref', 'fuse', 'rev', 'copied', 'cloned', 'chain', 'enumerate'}
    c.ob("all-classes:" + d, not bad, "classes pass through %s before they are rendered" % sorted(bad), w)
    for tpl, kind in set(seen):
        if not c.ob("one-template:" + d, len(tpl) == 1 and len(kind) == 1, "cannot tell which template is used for which classes (%s, %s)" % (sorted(map(show, tpl)), sorted(kind)), w):
            continue
        k, f = min(kind), text(min(tpl))
        c.ob("own-template:%s" % k, res.get(k, f) == f, "%s is rendered with %s and %s" % (k, res.get(k), f), w)
        res[k] = f
    c.ob("some-render:" + d, len(res) >= 4, "only %s are rendered" % sorted(res), w)
    return res

def builder(c, P, d, crate):
    """(template, partial name, escaping, strict) of a generator"""
    if not c.need(d):
        return None
    w = c.loc(d)
    W = ("register_template_file", "register_template_string", "register_partial", "register_escape_fn", "set_strict_mode", "create_dir_all", "read_to_string",
         "remove_dir_all", "remove_file", "remove_dir", "create", "write", "rename")
    m, outs = summarise(P, d, leaf=recorder(P, W))
    good = [o for o in outs if o.kind == 'Ok']
    c.ob("some-ok:" + d, good, "never succeeds", w)
    flag = max(i for i in range(1, (P.by_def[d][0]["argc"]) + 1)) - 1
    r = None
    for o in outs:
        c.count("paths")
        did = [(t[1], t[2]) for t in o.trace if t[0] == 'did']
        names = [n for n, a in did]
        c.ob("nothing-removed:" + d, not {"remove_dir_all", "remove_file", "remove_dir", "rename", "write", "create"} & set(names), "removes or overwrites files", w)
        # overwriting needs to have been asked for
        if "create_dir_all" in names or o.kind == 'Ok':
            asked = next((f for t, f in o.facts.items() if show(t) == "arg%d" % flag), None)
            free = asked == ('=', 1) or asked and asked[0] == '!=' and 0 in asked[1]
            for t, f in o.facts.items():
                if t[0] == 'call' and t[1].endswith(("::exists", "::is_dir")) and f == ('=', 0):
                    free = True
                if t[0] == 'd' and t[1][:2] in (('call', "dir:next"), ('call', "dir:last")) and f == ('=', 0):
                    free = True
                if t[:2] == ('call', "dir:count") and f == ('=', 0) or t[0] == 'bin' and any(x[:2] == ('call', "dir:count") for x in t[2:]) and \
                        (t[1:], f) in [((op, a, b), ('=', v)) for x in t[2:] if x[:2] == ('call', "dir:count") for op, a, b, v in
                                       (("Eq", x, ('i', 0), 1), ("Eq", ('i', 0), x, 1), ("Ne", x, ('i', 0), 0), ("Ne", ('i', 0), x, 0), ("Lt", ('i', 0), x, 0), ("Gt", x, ('i', 0), 0),
                                        ("Ge", x, ('i', 1), 0), ("Le", ('i', 1), x, 0))]:
                    free = True
            c.ob("no-overwrite:" + d, free, "goes on with a filled folder although overwriting was not asked for", w)
        if o.kind != 'Ok':
            continue
        tpl = [text(x) for n, a in did if n == "register_template_file" for x in [pathend(a[2])] if x is not None]
        tn = [text(a[1]) for n, a in did if n == "register_template_file"]
        pn = [text(a[1]) for n, a in did if n == "register_partial"]
        e = [a[1] for n, a in did if n == "register_escape_fn"]
        st = [a[1] for n, a in did if n == "set_strict_mode"]
        c.ob("one-main-template:" + d, len(tpl) == 1 and tpl[0] and tn[0], "the main template is %s" % tpl, w)
        c.ob("strict:" + d, st == [('i', 1)], "missing data is not an error", w)
        if pn:
            pf = [a[2] for n, a in did if n == "register_partial"]
            c.ob("own-partial:" + d, any(contains(x, P0) for x in pf), "the partial template is not the file asked for", w)
        made = [a for n, a in did if n == "create_dir_all"]
        c.ob("makes-folder:" + d, len(made) == 1, "the output folder is not made", w)
        if tpl and tn:
            r = (tpl[0], tn[0], pn[0] if pn else None, bool(e))
    return r

def pathend(t):
    """the last component joined to a path"""
    t = peel(t)
    if t[0] == 'call' and t[1].endswith("::join"):
        return t[3][1]
    for x in t[3] if t[0] == 'call' else ():
        r = pathend(x) if isinstance(x, tuple) else None
        if r is not None:
            return r
    return None

def writer(c, P, d, adt, field, pattern):
    if not c.need(d):
        return
    w = c.loc(d)
    W = ("render_to_write", "create", "open", "remove_file", "write", "rename")
    m, outs = summarise(P, d, leaf=recorder(P, W))
    c.ob("some-outcome:" + d, outs, "no path returns", w)
    i = P.fidx(adt, field) if hasattr(P, "fidx") else None
    i = [f["n"] for f in P.adts[adt]["v"][0]["f"]].index(field)
    for o in outs:
        c.count("paths")
        did = [(t[1], t[2]) for t in o.trace if t[0] == 'did']
        cr = [a for n, a in did if n == "create"]
        rd = [a for n, a in did if n == "render_to_write"]
        c.ob("only-creates:" + d, {n for n, a in did} <= {"create", "render_to_write"} and len(cr) == 1 and len(rd) <= 1, "does more than writing one file", w)
        if cr:
            f = pathend(cr[0][0])
            s = None
            if f is not None:
                s = text(subst(f, lambda t: peel(t) == ('f', ('*', P1), 0, i) or t == ('f', ('*', P1), 0, i), ('s', "\1")))
            c.ob("file-name:" + d, s == pattern % "\1", "the file is not named after the class (%s)" % (show(f)[:120] if f else None), w)
        if o.kind == 'Ok' or o.kind == '?':
            c.ob("renders:" + d, len(rd) == 1, "nothing is rendered on a path that reports success", w)
        for a in rd:
            c.ob("renders-own:" + d, peel(a[2]) in (P1, ('*', P1)) and cr and any(contains(a[3], x) for x in [x for x in subterms(a[3]) if len(x) > 1 and x[0] == 'call' and x[1].endswith("::create")]),
                 "the class is not rendered into its file", w)

def subst(t, pred, by):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            return by
        return tuple(subst(x, pred, by) for x in t)
    return t

def tplfile(crate_dir, name):
    p = os.path.join(extract.REPO, crate_dir, name)
    try:
        return open(p, encoding="utf-8-sig").read()
    except OSError:
        return None

# -- one kind of class, all types
def family(c, P, cd, d, exports, nat, cls, maintpl, partial, names):
    c.analysed.add(d)
    w = c.loc(d)
    fam = cd[2:]
    m, outs = summarise(P, d, leaf=textual)
    c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
    vs = [v["n"] for v in P.adts[G + "type_info::PrimitiveType"]["v"]]
    tpl = tplfile("client/codegen_wrapped", maintpl[0]) if maintpl else None
    part = tplfile("client/codegen_wrapped", partial) if partial else None
    c.ob("template:" + fam, tpl is not None and part is not None, "no template file for %s (%s, %s)" % (cd, maintpl and maintpl[0], partial), w)
    seen = set()
    for o in outs:
        c.count("paths")
        f = o.facts.get(('d', ('*', P0)))
        ts = [v for i, v in enumerate(vs) if not f or (f[0] == '=' and f[1] == i) or (f[0] == '!=' and i not in f[1])]
        for T in ts:
            seen.add(T)
            k = "%s_%s" % (fam, T)
            try:
                flat = flatten(P, peel(o.v), names)
                judge(c, k, fam, T, flat, exports, nat, cls, w)
                if tpl is not None and part is not None:
                    s = render(tpl, flat, {maintpl[2]: part}, (lambda x: x) if maintpl[3] else esc)
                    calls(c, k, s, exports, nat, w)
            except Bad as e:
                c.fail("class:" + k, str(e), w)
    for T in vs:
        c.ob("covered:%s_%s" % (fam, T), T in seen, "no class data for %s" % T, w)

def is_ref(t):
    return t[0] in ('ref', '&')

def mine(k, exports):
    return sorted(n for n in exports if re.match(r"tp_client__contract__properties__\w+?__%s__\w+$" % re.escape(k), n))

def native(T):
    """(C# name in Ptr<>, raw pointer, owned wrapper) of a value type"""
    p = CS.get(T.lower())
    if p:
        return p, p + "*", "RBox_" + T
    return None

def judge(c, k, fam, T, v, exports, nat, cls, w):
    own = mine(k, exports)
    c.ob("exports:" + k, own, "the library exports nothing for %s" % k, w)
    if not own:
        return
    sub = own[0].split("__")[3]
    by = {n.rsplit("__", 1)[-1]: n for n in own}
    c.ob("class-name:" + k, v["class_ident"] == k, "the class is named %s" % v["class_ident"], w)
    c.ob("namespace:" + k, v["namespace_super"] == "Contract.Properties" and v["namespace_sub"] == sub.capitalize(),
         "the class is put into %s.%s" % (v["namespace_super"], v["namespace_sub"]), w)
    c.ob("drop:" + k, v["drop_ident"] == ("generated.__Internal." + pascal(by["drop"]) if "drop" in by else None), "released by %s" % v["drop_ident"], w)
    p = native(T)
    opaque = {n.rsplit(".", 1)[-1]: n for n in cls}
    name = opaque.get(T) or opaque.get("R" + T)
    inner, raw, owned = p or (name, "IntPtr", name)
    def isname(got, want):
        return got == want or (want and got == want.rsplit(".", 1)[-1] and want.startswith("RSharp."))
    if "value_mangled_name" in v:
        c.ob("value-name:" + k, v["value_mangled_name"] == T, "values are named %s" % v["value_mangled_name"], w)
    if "inner_mangled_name" in v:
        c.ob("value-name:" + k, v["inner_mangled_name"] == T, "values are named %s" % v["inner_mangled_name"], w)
    for f, want in (("value_owned_ident", owned), ("value_ptr_inner", inner), ("value_ptr_raw", raw)):
        if f in v:
            c.ob("%s:%s" % (f, k), isname(v[f], want), "%s is %s, not %s" % (f, v[f], want), w)
    if "has_second_arg" in v:
        two = True if p else cls.get(name)
        c.ob("constructor:" + k, v["has_second_arg"] == two, "the wrapper of the value is built with the wrong number of arguments", w)
    for path, src in SRC.items():
        for u in re.finditer(r"new\s+(?:[\w.]+\.)?%s\s*(?=\()" % k, src):
            a = args_of(src, u.end())
            n = len([x for x in v["new_args"].split(",") if x.strip()]) if v["new_expr"] is not None else 0
            if a and (len(a) == 2 and "OwnershipSemantics" in a[1] or len(a) == 1 and n != 1):
                c.count("uses in C#")
                c.ob("used-as-made:%s:%s" % (k, os.path.basename(path)), v["only_owned"] is (len(a) == 1),
                     "%s builds a %s from %s" % (os.path.relpath(path, extract.REPO), k, a), w)
    e = v["new_expr"]
    c.ob("new:" + k, (e is None) == ("new" not in by), "the class %s a constructor" % ("lacks" if e is None else "claims"), w)
    if e is not None and "new" in by:
        ms = list(NAT.finditer(e))
        if c.ob("new-call:" + k, len(ms) == 1 and ms[0].group(1) == pascal(by["new"]), "constructed by %s" % [m.group(1) for m in ms], w):
            a = args_of(e, ms[0].end())
            x = exports[by["new"]]
            ins = [x["types"][i]["s"] for i in x["ins"]]
            ps = [q.strip().rsplit(" ", 1) for q in v["new_args"].split(",")] if v["new_args"] else []
            ok = a is not None and len(a) == len(ins) == len(ps) and all(len(q) == 2 for q in ps)
            if c.ob("new-args:" + k, ok, "%s arguments are passed to a function of %d" % (a, len(ins)), w):
                for i, (q, t, g) in enumerate(zip(ps, ins, a)):
                    c.ob("new-arg:%s:%d" % (k, i), re.search(r"\b%s\b" % re.escape(q[1]), g) and not any(re.search(r"\b%s\b" % re.escape(z[1]), g) for z in ps if z != q),
                         "argument %d of %s is %s" % (i, by["new"], g), w)
                    cs = next((n for r, n in CS.items() if re.match(r"<%s as " % r, t) or t == r), None)
                    if cs:
                        c.ob("new-arg-type:%s:%d" % (k, i), q[0] == cs, "%s %s is passed for %s" % (q[0], q[1], t), w)
                    else:
                        c.ob("new-arg-type:%s:%d" % (k, i), isname(q[0], owned), "%s is asked for, not %s" % (q[0], owned), w)
                        cast = re.match(r"\(\s*([\w*.]+)\s*\)", g)
                        c.ob("new-arg-cast:%s:%d" % (k, i), cast is None and raw == "IntPtr" or cast and cast.group(1) == raw, "the value is passed as %s" % g, w)
                        c.ob("new-arg-moved:%s:%d" % (k, i), "StealInner()" in g, "the wrapper keeps the value that it hands over", w)

def calls(c, k, s, exports, nat, w):
    own = mine(k, exports)
    used = set()
    for m in NAT.finditer(s):
        n = m.group(1)
        c.count("native calls")
        if not c.ob("native:%s:%s" % (k, n), len(nat.get(n, [])) == 1, "the class calls %s, which is not exported" % n, w):
            continue
        e = nat[n][0]
        used.add(e)
        c.ob("own-native:%s:%s" % (k, n), e in own, "the class of %s calls %s" % (k, e), w)
        a = args_of(s, m.end())
        c.ob("native-args:%s:%s" % (k, n), a is not None and len(a) == len(exports[e]["ins"]), "%s is called with %s" % (e, a), w)
    for n in own:
        c.ob("used:%s" % n, n in used, "the class of %s does not offer %s" % (k, n), w)
    c.ob("braces:" + k, s.count("{") == s.count("}") and s.count("(") == s.count(")"), "the class is not well formed", w)

# -- the data reaches the templates under the names of its fields
def serial(c, P):
    n, res = 0, {}
    for im in P.impls:
        if im.get("trait") != "serde::Serialize":
            continue
        st = im["types"][im["self"]]
        adt = st.get("u") or ""
        if not re.match(r"cs_codegen::|rsharp_codegen::", adt) or adt not in P.adts:
            continue
        d = next((x["def"] for x in im["items"] if x["n"] == "serialize"), None)
        if not d:
            continue
        n += 1
        c.analysed.add(d)
        w = c.loc(d)
        fs = [f["n"] for f in P.adts[adt]["v"][0]["f"]]
        m, outs = summarise(P, d, leaf=recorder(P, ("serialize_field", "serialize_entry", "serialize", "skip_field")))
        for o in outs:
            if o.kind == 'Err':
                continue
            c.count("paths")
            got = {}
            for t in o.trace:
                if t[0] == 'did' and t[1] in ("serialize_field", "serialize_entry"):
                    v = peel(t[2][2])
                    if v[0] == 'f' and v[1] == ('*', P0):
                        got[text(t[2][1])] = fs[v[3]]
                if t[0] == 'did' and t[1] == "serialize":
                    v = peel(t[2][0])
                    if v[0] == 'f' and v[1] == ('*', P0):
                        got[fs[v[3]]] = None        # spread out
            c.ob("serialised:" + adt, sorted(got) == sorted(fs) and all(g in (None, f) for f, g in got.items()), "its fields reach the templates as %s" % got, w)
            res[adt] = got
    c.floor("serialised types", n, 5)
    return res

def flatten(P, t, names):
    """what a template sees of a struct"""
    adt = t[1][2:]
    v = plain(P, t)
    fs = [f["n"] for f in P.adts[adt]["v"][0]["f"]]
    r = {}
    for f, x in zip(fs, t[3]):
        if names.get(adt, {}).get(f, f) is None:
            while is_adt(x, OPTION) and x[2] == 1:
                x = x[3][0]
            if x[0] == 'a' and x[1].startswith("A:") and not is_adt(x, OPTION):
                r.update(flatten(P, x, names))
        else:
            r[f] = v[f]
    return r

# -- boxes
def boxes(c, P, exports, tpl):
    d = R + "Codegen::render_all"
    if not c.need(d) or not tpl:
        return
    w = c.loc(d)
    src = tplfile("crates/rsharp/codegen", tpl[0])
    c.ob("template:RBox", src is not None, "no template file %s" % tpl[0], w)
    ini = [x for x in P.by_def if re.match(r"<rsharp_codegen::codegen::\w+ as std::ops::Deref>::deref$", x)]
    rows = None
    for x in ini:
        for o in summarise(P, x)[1]:
            for t in subterms(o.v):
                l = listed(t) if t and (t[0] == 'vec' and len(t) == 2 or len(t) == 4 and t[:2] == ('a', 'R')) else None
                if l and all(is_adt(y, R + "TypeInfo") for y in l):
                    rows = l
    if not c.ob("known-list:TYPES_INFO", rows is not None, "the list of boxed types is not fixed", w):
        return
    names = []
    for r in rows:
        v = plain(P, r)
        T = v["type_platform"]
        names.append(T)
        p = CS.get(T.lower())
        c.ob("box-type:" + T, p == v["type_cs"] and v["ptr_literal"] == "*", "%s is %s%s in C#" % (T, v["type_cs"], v["ptr_literal"]), w)
        if src is None:
            continue
        try:
            s = render(src, v, {}, (lambda x: x) if tpl[3] else esc)
        except Bad as e:
            c.fail("class:RBox_" + T, str(e), w)
            continue
        fs = re.findall(r"static\s+extern\s+(?:unsafe\s+)?([\w*]+)\s+(\w+)\s*\(([^)]*)\)", s)
        for ret, n, a in fs:
            ok = n in exports
            c.ob("native:" + n, ok and n.split("__")[1] == "Box_" + T, "RBox_%s declares %s" % (T, n), w)
            if not ok or not p:
                continue
            a = [q.strip().rsplit(" ", 1)[0] for q in a.split(",") if q.strip()]
            x = exports[n]
            def cs(t):
                b = re.search(r"boxed::Box<(\w+)>", t)
                t = re.sub(r"^<(\w+) as .*", r"\1", t)
                return CS.get(b.group(1), "?") + "*" if b else "void" if t == "()" else CS.get(t, "?")
            want = [cs(x["types"][i]["s"]) for i in x["ins"]]
            wr = cs(x["types"][x["ret"]]["s"])
            c.ob("native-type:" + n, a == want and ret == wr, "%s(%s) -> %s is declared for %s -> %s" % (n, a, ret, want, wr), w)
        got = {n for _, n, _ in fs}
        for n in exports:
            if n.startswith("rsharp__Box_%s__" % T):
                c.ob("used:" + n, n in got and len(re.findall(r"\b%s\b" % n, s)) >= 2, "RBox_%s does not use %s" % (T, n), w)
        c.ob("class-name:RBox_" + T, re.search(r"class\s+RBox_%s\s*:\s*OpaqueWrapper<%s>" % (T, re.escape(v["type_cs"])), s), "the class is named otherwise", w)
    boxed = sorted({n.split("__")[1][4:] for n in exports if n.startswith("rsharp__Box_")})
    for T in sorted(set(boxed) | set(names)):
        if T.lower() in CS:
            c.ob("each-box-once:" + T, names.count(T) == 1 and T in boxed, "%s is listed %d times among the boxed types" % (T, names.count(T)), w)
    c.floor("boxed types", len(names), 11)
    # all of them are rendered
    kinds = []
    def leaf(M, I, st, callee, name, targs, args, site):
        if callee["def"] == R + "Codegen::render_to_file":
            st.tag(('did', 'render'))
            return [(st, ('call', 'rendered', (), ()))]
        return None
    m = model.Model(P, keep_fact=lambda t: False, leaf=leaf)
    m.I.on_iter = lambda I, st, kind, it: kinds.append(kind)
    outs = m.run(d)
    bad = set(kinds) - {'map', 'inspect', 'by_ref', 'fuse', 'rev', 'copied', 'cloned'}
    c.ob("all-boxes:" + d, not bad, "boxed types pass through %s" % sorted(bad), w)
    c.ob("some-box:" + d, any(t[0] == 'did' for s, v in outs for t in s.trace), "nothing is rendered", w)
