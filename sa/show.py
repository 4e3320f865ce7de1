"""Compact rendering of interpreter terms, for reports and samples."""
def short(n):
    n = str(n)
    for a, b in (("tp_client::contract::properties::", "tp::"), ("tp_client::", "tp::"), ("std::", ""), ("generational_arena::", "ga::")):
        n = n.replace(a, b)
    return n

def show(t, n=0):
    if n > 14:
        return "…"
    if not isinstance(t, tuple):
        return short(t)
    if not t:
        return "()"
    s = lambda x: show(x, n + 1)
    k = t[0]
    try:
        if k == 'p': return "arg%d" % t[1]
        if k == 'i': return str(t[1])
        if k == 's': return repr(t[1])[:60]
        if k == '*': return "*" + s(t[1])
        if k == 'f': return "%s.%s%s" % (s(t[1]), ("%d:" % t[2]) if t[2] else "", t[3])
        if k == 'd': return "variant(%s)" % s(t[1])
        if k == 'place': return s(t[1])
        if k == 'ty': return "<%s>" % short(t[1]).rsplit("tp::", 1)[-1]
        if k == 'a':
            nm = short(t[1])[2:].rsplit("::", 1)[-1] if t[1][:2] == 'A:' else t[1]
            return "%s%s(%s)" % (nm, "#%s" % t[2] if t[2] else "", ", ".join(s(x) for x in t[3]))
        if k == 'call':
            if t[1] == 'entry':
                return "%s[%s]" % (s(t[3][0]), s(t[3][1]))
            return "%s(%s)" % (short(t[1]).replace("<T>", ""), ", ".join(s(x) for x in t[3]))
        if k == '&':
            return "&%s%s" % (s(t[1]), "".join("." + str(e[-1]) if not isinstance(e[-1], tuple) else "[%s]" % s(e[-1]) for e in t[2]))
        if k == 'X': return "*" + s(t[1])
        if k == 'bin': return "%s(%s)" % (t[1], ", ".join(s(x) for x in t[2:]))
    except Exception:
        pass
    return "%s(%s)" % (s(k), ", ".join(s(x) for x in t[1:]))

def facts(o):
    r = []
    for t, f in o.facts.items():
        r.append("%s%s%s" % (show(t), f[0], f[1] if not isinstance(f[1], (set, frozenset)) else sorted(map(str, f[1]))))
    return r

def outline(o, k=8):
    return {"returns": o.kind + " " + show(o.v)[:300], "when": [x[:220] for x in facts(o)[:k]],
            "effects": [show(t)[:220] for t in o.trace[:k]]}
