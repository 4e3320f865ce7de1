"""C18: ownership and naming of the C API: every owned result can be released by one export of its type, nothing is leaked,
each symbol is exported once under the mangled path of its module and type."""
import re
from sa.spec import *

META = {
 "level": "proof",
 "rule": "Every exported symbol is exported once.  For every type an export returns owned (box or vector) exactly one export releases it: "
         "it takes one owned argument of that type and returns nothing.  A release is named T__drop for its own T.  By affine typing an owned "
         "argument of a function that returns nothing and takes no other reference is dropped unless it is leaked; no export, and nothing of "
         "the workspace it calls, calls a leaking function (forget, ManuallyDrop, leak, into_raw, Rc) or contains hand-written unsafe code.  The "
         "prefix of each symbol of a mangling crate is the path of a module it is defined in, and the type named in the symbol is the type "
         "the function takes, or for constructors makes.",
 "trusted": ["Rust's affine typing: an owned value that is not moved away is dropped", "safer_ffi's glue"],
}
LEAK = re.compile(r"mem::forget$|ManuallyDrop|::(leak|into_raw|into_raw_parts|into_non_null|into_raw_with_allocator)$|rc::Rc|sync::Arc|::from_raw\w*$|ptr::(read|write)|transmute|mem::zeroed|MaybeUninit")
OWN = re.compile(r"^safer_ffi::(?:boxed::Box_?|vec::Vec)<(.*)>$")
PRIM = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64"}
MANGLING = ("tp_client", "rsharp", "tp_contract_example")

def exports(P):
    """[(symbol, the function it forwards to)]"""
    r = []
    for e in P.syms:
        d = e["def"].replace("::_::", "::")
        r.append((e["sym"], P.items.get(d), e))
    return r

def types(P, it):
    return [P.uty(it["types"], t) for t in it["ins"]], P.uty(it["types"], it["ret"])

def callees(P, d, seen=None):
    """(caller, callee) pairs of the workspace code reachable from d"""
    seen = seen if seen is not None else set()
    out, work = [], [d]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for k in P.by_def:
            if k == x or (k.startswith(x + "::{")):
                for b in P.by_def[k]:
                    for blk in b["blocks"]:
                        t = blk[1] or {}
                        for n in fns(t) | fns(blk[0]):
                            out.append((k, n))
                            if n in P.by_def and n in P.items:
                                work.append(n)
    return out

def fns(j):
    r = set()
    st = [j]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            f = x.get("fn")
            if isinstance(f, dict) and "def" in f:
                r.add(f.get("rdef") or f["def"])
                r.add(f["def"])
            st.extend(x.values())
        elif isinstance(x, (list, tuple)):
            st.extend(x)
    return r

def check(c):
    P = c.P
    ex = exports(P)
    c.floor("exported symbols", len(ex), 300)
    seen = {}
    for s, it, e in ex:
        seen.setdefault(s, []).append(e["span"])
    for s, at in sorted(seen.items()):
        c.ob("once:" + s, len(at) == 1, "exported %d times: %s" % (len(at), at[:3]))
    owned, releases = {}, {}
    for s, it, e in ex:
        if not c.ob("anchor:" + s, it and "ins" in it, "the export does not forward to a function of the workspace", e["span"]):
            continue
        c.count("exports")
        c.analysed.add(it["def"])
        ins, ret = types(P, it)
        m = OWN.match(ret)
        if m:
            owned.setdefault((ret, m.group(1)), []).append(s)
        if len(ins) == 1 and ret == "()" and OWN.match(ins[0]):
            releases.setdefault(ins[0], []).append((s, it))
    c.floor("owned result types", len(owned), 60)
    c.floor("release functions", len(releases), 60)
    for (u, inner), ss in sorted(owned.items()):
        n = len(releases.get(u, []))
        for s in ss:
            c.ob("release-missing:" + s, n >= 1, "returns an owned %s, which no export releases" % short(u))
    for u, l in sorted(releases.items()):
        c.ob("one-release:" + u, len(l) == 1, "%s is released by %s" % (short(u), [s for s, _ in l]))
        for s, it in l:
            c.ob("drop-name:" + s, s.endswith("__drop") and tname(u, s), "releases %s" % short(u), c.loc(it["def"]))
    # -- nothing is leaked
    seen, sites = set(), {}
    for s, it, e in ex:
        if it:
            for caller, callee in callees(P, it["def"], seen):
                sites.setdefault((caller, callee), it["def"])
    c.floor("call sites", len(sites), 500)
    for (caller, callee), d in sorted(sites.items()):
        root = caller.split("::{")[0]
        c.ob("leak:%s:%s" % (root, callee), not LEAK.search(callee), "calls %s" % callee, c.loc(root))
    # -- names
    for s, it, e in ex:
        if not it:
            continue
        ins, ret = types(P, it)
        mod = it["def"].split("::")
        crate = mod[0]
        seg = s.split("__")
        if crate in MANGLING:
            pre = []
            for x in seg:
                if len(pre) < len(mod) and mod[len(pre)] == x:
                    pre.append(x)
                else:
                    break
            want = [x for x in mod[:-1] if x != "c_api" and not x.startswith("_")]
            c.ob("mangled:" + s, pre and pre == want[:len(pre)] and len(pre) >= len(want) - 1, "not named after its module %s" % "::".join(want), c.loc(it["def"]))
            seg = seg[len(pre):]
        if seg and re.match(r"^(Box_|RVec_|Baseline)", seg[0]):
            if seg[0].startswith("Baseline"):
                c.ob("typed:" + s, any("baseline::Baseline" in u for u in ins[:1] + [ret]), "is not about a baseline", c.loc(it["def"]))
            continue
        if len(seg) >= 2 and "_" in seg[0]:
            c.ob("typed:" + s, any(tname(u, s) for u in ins + [ret]), "neither takes nor makes a %s" % seg[0], c.loc(it["def"]))
    c.samples = ["%s released by %s" % (short(u), l[0][0]) for u, l in sorted(releases.items())[:8]]

def short(u):
    return re.sub(r"[\w:]*::", "", u)

def tname(u, s):
    """does type u (possibly boxed or behind a reference) carry the name in symbol s (PREFIX__T__method)?"""
    m = OWN.match(u)
    base = (m.group(1) if m else u).lstrip("&").replace("mut ", "")
    last = re.sub(r"<.*", "", base).rsplit("::", 1)[-1]
    t = s.rsplit("__", 1)[0]
    if u.startswith("safer_ffi::vec::Vec<"):
        k = last.rsplit("__", 1)[-1].replace("Keyframe_", "Keyframe")
        return t.endswith("RVec_" + k)
    if last in PRIM:
        return t.lower().endswith("box_" + last.lower())
    return t == last or t.endswith("__" + last)
