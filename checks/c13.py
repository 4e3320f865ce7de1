"""C13: a contract's declared fields keep their position, type and name in everything generated from them."""
import os, re
from sa.spec import *
from sa import prims
from sa.interp import Limit
from sa.extract import VERIF

META = {
 "level": "proof",
 "rule": "For every type in the workspace that the contract macros expanded, and for the instances in /verif/witness (each primitive type, "
         "both orders, one field, equal types, none, 300 fields, aliases and visibilities; for states and for channels), the generated code is "
         "interpreted: construction from a handle gives field i the id (handle, i); the accessor named after field i returns field i; and "
         "the i-th runtime type, property type and name are those of field i, with as many entries as fields.  For every Contract "
         "implementation, construction from a handle gives a contract that reports this handle and ids made from it.",
 "assumptions": ["the macros treat a struct's fields uniformly beyond the instances (no dependence on particular names)"],
}
TRAITS = {"IStates": "StateId", "IChannels": "ChannelId"}

def unref(v):
    n = 0
    while v[0] in ('ref', 'o') and n < 8:
        v = v[1]; n += 1
    return v

def listing(m, o):
    v = unref(o.v)
    n = 0
    while v[0] == '&' and n < 4:
        v = unref(m.I.load(o.st, v)); n += 1
    if v[0] == 'vec':
        return [unref(x) for x in v[1]]
    if v[0] == 'a' and v[1] == 'R':
        return [unref(x) for x in v[3]]
    return None

def returned(c, d, key):
    """the only value `d` returns"""
    m, outs = summarise(c.P, d)
    c.analysed.add(d)
    c.count("functions")
    ok = len(outs) == 1 and not m.I.panics and not effects(outs[0])
    c.ob(key, ok, "%s has %d outcomes (%d panics)" % (d, len(outs), len(m.I.panics)), c.loc(d))
    return (m, outs[0]) if ok else (m, None)

def tyname(t):
    return str(t).replace("alloc::", "std::")

def declared():
    """the witness's own source: struct -> [(name, type)]"""
    s = open(os.path.join(VERIF, "witness", "src", "lib.rs")).read()
    r = {}
    for m in re.finditer(r"pub struct (\w+) \{([^}]*)\}", s):
        r["tp_witness::" + m.group(1)] = [re.sub(r"pub(\(crate\))? ", "", l.strip().rstrip(",")).split(": ")[0]
                                          for l in m.group(2).splitlines() if l.strip()]
    return r

def check(c):
    P = c.P
    prims.EXACT_VEC[0] = True
    if "tp_witness" not in P.crates:
        c.notes.append("witness instances do not type-check on this tree")
        raise Limit("the witness instances of the contract macros do not type-check on this tree")
    decl = declared()
    n = 0
    for im in P.impls:
        tr = (im.get("trait") or "").rsplit("::", 1)[-1]
        if tr not in TRAITS or not re.search(r"tp_client::|crate::", im["trait"]):
            continue
        self_t = im["types"][im["self"]]
        items = {x["n"]: x["def"] for x in im["items"]}
        if self_t["k"] == "tuple":      # the empty property list
            fields, names = [], []
            adt = None
        elif self_t["k"] == "adt":
            adt = self_t["u"]
            a = P.adts.get(adt)
            if not a or a["enum"]:
                continue
            fields, names = [], []
            okf = True
            for f in a["v"][0]["f"]:
                ty = a["types"][f["t"]]
                okf &= ty["k"] == "adt" and ty["u"].endswith("::" + TRAITS[tr])
                fields.append(P.uty(a["types"], ty["a"][0]) if okf and isinstance(ty["a"][0], int) else "?")
                names.append(f["n"])
            if not okf:
                if adt.startswith("tp_witness"):
                    c.fail("wrapped:" + adt, "a declared field is not held as %s" % TRAITS[tr], a["span"])
                continue
            if adt in decl:
                c.ob("order:" + adt, names == decl.pop(adt), "the expanded struct's fields are not the declared ones, in order: %s" % names[:6], a["span"])
        else:
            continue
        n += 1
        who = adt or "() as " + tr
        w = im["span"]
        c.count("fields", len(fields))
        # the three listings
        got = {}
        for meth in ("type_ids", "enumerate_types", "field_names"):
            d = items.get(meth)
            if not c.ob("has:%s:%s" % (who, meth), d, "%s has no %s" % (who, meth), w):
                continue
            m, o = returned(c, d, "one-result:%s:%s" % (who, meth))
            if not o:
                continue
            l = listing(m, o)
            if l is None:
                raise Limit("%s returns %s" % (d, show(o.v)[:120]))
            got[meth] = l
            c.ob("count:%s:%s" % (who, meth), len(l) == len(fields), "%s lists %d entries for %d fields" % (d, len(l), len(fields)), c.loc(d))
        for i, (t, nm) in enumerate(zip(fields, names)):
            for meth, l in got.items():
                if i >= len(l):
                    continue
                x, d = l[i], items[meth]
                if meth == "field_names":
                    ok = x == ('s', nm)
                elif meth == "type_ids":
                    ok = x[0] == 'call' and str(x[1]).endswith("TypeId::of") and len(x[2]) == 1 and alias(P, x[2][0]) == alias(P, t)
                    if x[0] != 'call':
                        raise Limit("%s lists %s" % (d, show(x)[:120]))
                else:
                    ok = kind_of(P, x) == alias(P, t).rsplit("::", 1)[-1].lower() if "<" not in t else kind_handle(P, x, t)
                c.ob("at:%s:%s" % (who, meth), ok, "%s lists %s at %d, where the field is %s: %s" % (d, show(x)[:80], i, nm, t), c.loc(d))
        if adt is None:
            continue
        # construction and accessors
        idadt = next((a for a in P.adts if a.endswith("::" + TRAITS[tr]) and P.adts[a].get("local") and "c_api" not in a), None)
        ci, ii = idfields(c, P, idadt)
        mk = adt + "::new"
        if c.need(mk):
            m, o = returned(c, mk, "one-result:" + mk)
            if o:
                v = o.v
                if not (v[0] == 'a' and len(v[3]) == len(fields)):
                    raise Limit("%s returns %s" % (mk, show(v)[:120]))
                for i, x in enumerate(v[3]):
                    x = unref(x)
                    ok = x[0] == 'a' and len(x[3]) > max(ci, ii) and peel(x[3][ci]) == P0 and x[3][ii] == ('i', i)
                    c.ob("id:" + adt, ok, "field %d (%s) gets the id %s" % (i, names[i], show(x)[:100]), c.loc(mk))
        for i, nm in enumerate(names):
            d = adt + "::" + nm
            if not c.need(d, "accessor of a declared field"):
                continue
            m, o = returned(c, d, "one-result:" + adt)
            if o:
                c.ob("accessor:" + adt, peel(o.v) == ('f', ('*', P0), 0, i) , "the accessor %s returns %s" % (nm, show(o.v)[:100]), c.loc(d))
        c.sample({"instance": who, "fields": list(zip(names, fields))[:4]})
    c.ob("witnesses", not decl, "no expansion found for %s" % sorted(decl))
    c.floor("instances", n, 19)
    contracts(c, P)

def alias(P, t):
    return re.sub(r"^(std|alloc|core)::", "", tyname(t)).replace("string::String", "String").replace("primitive::", "").replace(" ", "")

def kind_of(P, x):
    """the name of the kind a TpPropertyType constant denotes (primitives only)"""
    x = unref(x)
    if x[0] == 'a' and x[1][:2] == 'A:' and len(x[3]) == 1 and P.adts[x[1][2:]]["v"][x[2]]["n"] == "Primitive":
        y = unref(x[3][0])
        if y[0] == 'a' and y[1][:2] == 'A:':
            return P.adts[y[1][2:]]["v"][y[2]]["n"].lower()
    return None

def kind_handle(P, x, t):
    k = kind_of(P, x)
    return (k == "objecthandle" and t == "arena::Index<%s>" % OBJECT) or (k == "contractdatahandle" and t == "arena::Index<%s>" % CDATA)

def contracts(c, P):
    n = 0
    for im in P.impls:
        if not (im.get("trait") or "").startswith("tp_client::contract::Contract") or not im["trait"].endswith("::Contract"):
            continue
        items = {x["n"]: x["def"] for x in im["items"]}
        st = im["types"][im["self"]]
        if st["k"] != "adt" or not all(k in items for k in ("new", "states", "channels", "handle")):
            continue
        n += 1
        who = st["u"]
        m, o = returned(c, items["new"], "one-result:" + items["new"])
        if not o:
            continue
        v = o.v
        if v[0] != 'a':
            raise Limit("%s returns %s" % (items["new"], show(v)[:120]))
        for meth in ("handle", "states", "channels"):
            m, o2 = returned(c, items[meth], "one-result:" + items[meth])
            if not o2:
                continue
            x = peel(o2.v)
            while x[0] == '*' and x[1] != P0:
                x = x[1]
            ok = x[0] == 'f' and x[1] == ('*', P0) and x[3] < len(v[3])
            if not ok and meth == "handle":
                raise Limit("%s returns %s" % (items[meth], show(o2.v)[:120]))
            if not ok:
                continue    # e.g. the empty list, held nowhere
            y = unref(v[3][x[3]])
            if meth == "handle":
                c.ob("contract-handle:" + who, peel(y) == P0, "a contract made from a handle reports %s" % show(y)[:80], c.loc(items["new"]))
            else:
                bad = [t for t in hands(y) if peel(t) != P0]
                c.ob("contract-%s:%s" % (meth, who), not bad, "%s of a contract made from a handle carry %s" % (meth, show(y)[:120]), c.loc(items["new"]))
    c.floor("contracts", n, 3)

def hands(y):
    """handles inside freshly built ids"""
    if y[0] == 'a':
        if re.search(r"(StateId|ChannelId)$", y[1]):
            yield from (x for x in y[3] if x[0] != 'i' and "PhantomData" not in show(x))
            return
        for x in y[3]:
            yield from hands(unref(x))
