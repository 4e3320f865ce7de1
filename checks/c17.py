"""C17: an action reports its own kind; conversions between action types keep the action."""
import re
from sa.spec import *

META = {
 "level": "proof",
 "rule": "Every implementation of IAction::kind is interpreted; for every concrete action (leaf of the tree of action enums) consistent with "
         "a path's branches, the returned kind is the one named after the action's family and variant (StateAction::Write: StateWrite), and "
         "every leaf is covered.  Every From between action types puts its argument, unchanged, into the variant that holds its type; every "
         "TryInto yields the variant's own payload exactly when the variant holds the wanted type.  A collaction's accessors return its list.",
}
A = "tp_client::action::"

def leaves(P, adt, acts, base):
    """[(facts {term: discr}, kind name)]"""
    fam = re.sub(r"Action$", "", adt.rsplit("::", 1)[-1])
    out = []
    for i, v in enumerate(P.adts[adt]["v"]):
        fs = [P.uty(P.adts[adt]["types"], f["t"]) for f in v["f"]]
        if len(fs) == 1 and fs[0] in acts:
            for f, k in leaves(P, fs[0], acts, ('f', base, i, 0)):
                out.append((dict(f, **{}) | {('d', base): v["d"]}, k))
        else:
            out.append(({('d', base): v["d"]}, fam + v["n"]))
    return out

def consistent(o, leaf):
    for t, d in leaf.items():
        f = o.facts.get(t)
        if f and ((f[0] == '=' and f[1] != d) or (f[0] == '!=' and d in f[1])):
            return False
    return True

def check(c):
    P = c.P
    kind = A + "ActionKind"
    if not c.ob("anchor:ActionKind", kind in P.adts, "no ActionKind"):
        return
    kinds = [v["n"] for v in P.adts[kind]["v"]]
    acts = {}
    for im in P.impls:
        if im.get("trait") == A + "IAction":
            st = im["types"][im["self"]]
            if st["k"] == "adt" and st["u"].startswith("tp_client::"):
                acts[st["u"]] = next((x["def"] for x in im["items"] if x["n"] == "kind"), None)
    c.floor("action types", len(acts), 4)
    for adt, d in sorted(acts.items()):
        if not c.ob("anchor:kind:" + adt, d and P.adts.get(adt, {}).get("enum"), "no kind() of an enum"):
            continue
        c.analysed.add(d)
        w = c.loc(d)
        ls = leaves(P, adt, acts, ('*', P0))
        m, outs = summarise(P, d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
        seen = set()
        for o in outs:
            c.count("paths")
            v = peel(o.v)
            got = kinds[v[2]] if is_adt(v, kind) else None
            c.ob("pure:" + d, not effects(o), "modifies the action", w)
            for lf, k in ls:
                if consistent(o, lf):
                    seen.add(k)
                    c.ob("kind:%s:%s" % (adt, k), got == k, "kind() of a %s action is %s" % (k, got or show(v)[:80]), w)
            c.sample(outline(o, 3))
        c.ob("covers:" + d, seen == {k for _, k in ls}, "kind() covers %s" % sorted(seen), w)
    # -- conversions
    n = 0
    for im in P.impls:
        tr = im.get("trait") or ""
        mm = re.fullmatch(r"(?:std|core)::convert::(From|TryInto|TryFrom|Into)", tr.split("<")[0])
        if not mm:
            continue
        for x in im["items"]:
            if x["n"] not in ("from", "try_into", "try_from", "into") or x["def"] not in P.items:
                continue
            it = P.items[x["def"]]
            body = P.bodies.get(x["def"]) or P.by_def.get(x["def"])
            m, outs = summarise(P, x["def"], adt=RESULT if x["n"].startswith("try") else None) if "tp_client::action::" in x["def"] else (None, [])
            for o in outs:
                src = dst = None
                names = re.findall(r"tp_client::action::(?:property::)?(\w+)", x["def"].replace(A + "<impl", "<impl"))
                acts2 = [a for a in names if any(k.endswith("::" + a) for k in acts)]
                if len(acts2) != 2:
                    c.notes.append("conversion %s not decided" % x["def"]); break
                n += 1
                c.analysed.add(x["def"])
                w = c.loc(x["def"])
                full = {k.rsplit("::", 1)[-1]: k for k in acts}
                impl_for = "<impl " in x["def"]
                if mm.group(1) == "From":
                    a, b = (acts2[0], acts2[1]) if impl_for else (acts2[1], acts2[0])     # a -> b
                else:
                    a, b = (acts2[1], acts2[0]) if impl_for else (acts2[0], acts2[1])
                c.count("paths")
                c.ob("conv-pure:" + x["def"], not effects(o), "modifies something", w)
                if x["n"] in ("from", "into"):
                    vi = holder(P, full[b], full[a])
                    ok = is_adt(o.v, full[b]) and o.v[2] == vi and o.v[3] == (P0,)
                    c.ob("wraps:%s->%s" % (a, b), ok and vi is not None, "a %s becomes %s" % (a, show(o.v)[:100]), w)
                else:
                    vi = holder(P, full[a], full[b])
                    dv = P.adts[full[a]]["v"][vi]["d"] if vi is not None else None
                    one = len(P.adts[full[a]]["v"]) == 1
                    if o.kind == 'Ok':
                        c.ob("unwraps:%s->%s" % (a, b), (one or o.fact(('d', P0), dv)) and o.payload == ('f', P0, vi, 0), "a %s yields %s" % (a, show(o.v)[:100]), w)
                    else:
                        c.ob("refuses-only-others:%s->%s" % (a, b), not one and o.notfact(('d', P0), dv), "refuses a %s that holds a %s" % (a, b), w)
    c.floor("conversion paths", n, 6)
    # -- collactions
    d = A + "Collaction"
    a = P.adts.get(d)
    if c.ob("anchor:Collaction", a, "no Collaction"):
        fs = [P.uty(a["types"], f["t"]) for f in a["v"][0]["f"]]
        li = [i for i, u in enumerate(fs) if "Vec<" in u and "Action" in u]
        c.ob("anchor:Collaction-list", len(li) == 1, "fields %s" % fs)
        for f in ("actions", "actions_mut"):
            if c.need(d + "::" + f):
                m, outs = summarise(P, d + "::" + f)
                for o in outs:
                    c.ob("own-list:" + f, li and peel(o.v) == ('f', ('*', P0), 0, li[0]) and not effects(o), "returns %s" % show(o.v)[:100], c.loc(d + "::" + f))

def holder(P, enum, payload):
    for i, v in enumerate(P.adts[enum]["v"]):
        if [P.uty(P.adts[enum]["types"], f["t"]) for f in v["f"]] == [payload]:
            return i
