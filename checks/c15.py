"""C15: time arithmetic: saturating ticks, fixed-point scaling rounded down, warps, exact conversions."""
from sa.spec import *
from sa.interp import Limit
from sa.num import Num, T, con, padd, pmul

META = {
 "level": "proof",
 "rule": "Every function of the time types is interpreted; the integer each path returns is normalised to an exact polynomial over the "
         "arguments (with floor divisions, clamps, and an explicit wrap wherever an operation can leave its type), under the intervals the "
         "path's own comparisons establish, and compared with the specification normalised under the same intervals: ticks add and subtract "
         "saturating at the i32 range; scaling is clamp(floor(ticks * numerator / 1024)) computed without intermediate overflow; the "
         "assigning forms agree with them; a warp is (time - offset) * scale; conversions, defaults, and comparisons are exact.",
}
M = "tp_client::time::"
LO, HI = T["i32"]

def tdiv(n, p, k): return n.tdiv(p, k)

def check(c):
    P = c.P
    x, y = P0, P1
    tick = lambda t: ('f', t, 0, 0)
    D0, D1 = ('*', P0), ('*', P1)

    def leafs(*ts):
        return lambda n: [n.norm(t) for t in ts]

    def add(a, b): return lambda n: n.clamp(padd(n.norm(a), n.norm(b)), LO, HI)
    def sub(a, b): return lambda n: n.clamp(padd(n.norm(a), n.norm(b), -1), LO, HI)
    def scale(a, s): return lambda n: n.clamp(n.fdiv(pmul(a(n) if callable(a) else n.norm(a), n.norm(s)), 1024), LO, HI)
    def lit(v): return lambda n: con(v)
    def same_(t): return lambda n: n.norm(t)

    # where the wrapped number of a value of a type sits
    def num(P, v, depth):
        for _ in range(depth):
            if v[0] == 'a' and v[1][:2] == 'A:':
                v = v[3][0]
            else:
                v = ('f', v, 0, 0)
        return v

    def rule(d, want, depth=0, assign=False, fld=None):
        if not c.need(d):
            return
        m, outs = summarise(P, d)
        w = c.loc(d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic: %s" % [p[2] for p in m.I.panics[:1]], w)
        c.ob("decided:" + d, len(outs) >= 1, "no path returns", w)
        for o in outs:
            c.count("paths")
            eff = effects(o)
            if assign:
                v = m.I.read(o.st, ('X', P0), [('f', 0, 0)] * depth)
                c.ob("assigns-only-self:" + d, all(t[0] == 'write' for t in eff), "does %s" % [show(t) for t in eff[:2]], w)
            else:
                v = o.v
                c.ob("pure:" + d, not eff, "modifies %s" % [show(t) for t in eff[:2]], w)
            if fld is not None:
                if not (v[0] == 'a' and len(v[3]) > fld):
                    v = ('f', v, 0, fld)
                else:
                    v = v[3][fld]
            v = peel(v) if assign else num(P, peel(v), depth)
            n = Num(o)
            if n.empty:
                continue
            got, exp = n.norm(v), want(n)
            c.ob("value:" + d, n.same(got, exp), "is %s instead of %s, when %s" % (pretty(got), pretty(exp), sfacts(o)[:3]), w)
            c.sample(outline(o, 3))

    def frule(d, f, div):
        if not c.need(d):
            return
        m, outs = summarise(P, d)
        w = c.loc(d)
        c.ob("no-panic:" + d, not m.I.panics, "may panic", w)
        for o in outs:
            c.count("paths")
            n = Num(o)
            v = n.fl(o.v)
            p = n.norm(tick(D0))
            from sa.num import freeze, pow2
            exp = ('v', f, freeze(p), 1.0 / div, 1.0) if pow2(div) else ('v', f, freeze(p), 1.0, float(div))
            c.ob("value:" + d, v == exp, "is %s instead of the number divided by %d" % (show(o.v)[:120], div), w)

    # -- Ticks
    rule(M + "Ticks::ticks_per_second", lit(1000))
    rule(M + "Ticks::new", same_(x), 1)
    rule("<tp_client::time::Ticks as std::convert::From<i32>>::from", same_(x), 1)
    rule(M + "Ticks::as_millis", same_(tick(D0)))
    rule(M + "Ticks::as_millis_i64", same_(tick(D0)))
    rule(M + "Ticks::as_secs", lambda n: n.tdiv(n.norm(tick(D0)), 1000))
    frule(M + "Ticks::as_secs_f32", "f32", 1000)
    t = "<tp_client::time::Ticks as std::ops::"
    rule(t + "Add>::add", add(tick(x), tick(y)), 1)
    rule(t + "Sub>::sub", sub(tick(x), tick(y)), 1)
    rule(t + "Mul<tp_client::time::TimeScale>>::mul", scale(tick(x), tick(y)), 1)
    rule(t + "AddAssign>::add_assign", add(tick(D0), tick(y)), 1, True)
    rule(t + "SubAssign>::sub_assign", sub(tick(D0), tick(y)), 1, True)
    rule(t + "MulAssign<tp_client::time::TimeScale>>::mul_assign", scale(tick(D0), tick(y)), 1, True)
    rule("<tp_client::time::Ticks as std::default::Default>::default", lit(0), 1)
    # -- TimeScale
    S = M + "TimeScale::"
    rule(S + "numerator", same_(tick(D0)))
    rule(S + "numerator_as_i64", same_(tick(D0)))
    rule(S + "denominator", lit(1024))
    rule(S + "denominator_as_log2", lit(10))
    frule(S + "as_f32", "f32", 1024)
    frule(S + "as_f64", "f64", 1024)
    rule("<tp_client::time::TimeScale as std::convert::From<i32>>::from", same_(x), 1)
    rule("<tp_client::time::TimeScale as std::default::Default>::default", lit(1024), 1)
    # -- channel and realm time
    for k in ("ChannelTime", "RealmTime"):
        rule("<tp_client::time::%s as std::convert::From<tp_client::time::Ticks>>::from" % k, same_(tick(x)), 2)
        rule("<tp_client::time::%s as std::default::Default>::default" % k, lit(0), 2)
        rule(M + k + "::ticks", same_(tick(tick(D0))), 1)
    d = M + "RealmTime::ticks_mut"
    if c.need(d):
        m, outs = summarise(P, d)
        for o in outs:
            c.ob("own-ticks:" + d, peel(o.v) == tick(D0) and o.v[0] != 'a', "refers to %s" % show(o.v)[:80], c.loc(d))
    # -- warps
    a = P.adts.get(M + "TimeWarp")
    if c.ob("anchor:TimeWarp", a, "no TimeWarp"):
        fs = [P.uty(a["types"], f["t"]) for f in a["v"][0]["f"]]
        ok = fs.count(M + "Ticks") == 1 and fs.count(M + "TimeScale") == 1
        c.ob("anchor:TimeWarp-fields", ok, "fields %s" % fs)
        if ok:
            fo, fsc = fs.index(M + "Ticks"), fs.index(M + "TimeScale")
            def warp(time, wp):
                return scale(sub(tick(tick(time)), tick(('f', wp, 0, fo))), tick(('f', wp, 0, fsc)))
            rule(M + "TimeWarp::apply", warp(P1, D0), 2)
            rule(M + "ChannelTime::warp", warp(D0, D1), 2)
            f = "<tp_client::time::TimeWarp as std::default::Default>::default"
            rule(f, lit(0), 1, fld=fo)
            rule(f, lit(1024), 1, fld=fsc)
            f = "<tp_client::time::TimeWarp as std::convert::From<(tp_client::time::Ticks, tp_client::time::TimeScale)>>::from"
            rule(f, same_(tick(('f', x, 0, 0))), 1, fld=fo)
            rule(f, same_(tick(('f', x, 0, 1))), 1, fld=fsc)
    # -- comparisons
    for k, dep in (("Ticks", 1), ("TimeScale", 1), ("ChannelTime", 2), ("RealmTime", 2)):
        l, r = D0, D1
        for _ in range(dep):
            l, r = tick(l), tick(r)
        f = "<tp_client::time::%s as std::cmp::PartialEq>::eq" % k
        if c.need(f):
            m, outs = summarise(P, f)
            for o in outs:
                n = Num(o)
                v = peel(o.v)
                ok = v[0] == 'bin' and v[1] == 'Eq' and sorted([repr(peel(v[2])), repr(peel(v[3]))]) == sorted([repr(l), repr(r)])
                if v[0] == 'i':
                    e = eqfact(o, l, r)
                    ok = e is not None and e == v[1]
                c.ob("equal:" + k, ok, "equality is %s" % show(v)[:100], c.loc(f))
        if k == "TimeScale":
            continue
        for tr, opt in (("Ord>::cmp", 0), ("PartialOrd>::partial_cmp", 1)):
            f = "<tp_client::time::%s as std::cmp::%s" % (k, tr)
            if c.need(f):
                m, outs = summarise(P, f)
                for o in outs:
                    v = peel(o.v)
                    if opt and v[0] == 'a' and v[2] == 1:
                        v = peel(v[3][0])
                    ok = v[0] == 'bin' and v[1] == 'Cmp' and (peel(v[2]), peel(v[3])) == (l, r)
                    if v[0] == 'a' and v[1].endswith("Ordering"):
                        n = Num(o)
                        lo, hi = n.range(padd(n.norm(l), n.norm(r), -1))
                        ok = hi < 0 if v[2] == 0 else lo == hi == 0 if v[2] == 1 else lo > 0
                    c.ob("order:" + k + tr, ok, "the order is %s" % show(v)[:100], c.loc(f))
    c.floor("time-functions", len(c.analysed), 30)

def pretty(p):
    def at(x):
        if x[0] == 'leaf':
            return show(x[1])
        if x[0] in ('fdiv', 'tdiv'):
            return "%s(%s / %d)" % ("floor" if x[0] == 'fdiv' else "trunc", pretty(dict(x[1])), x[2])
        if x[0] == 'clamp':
            return "clamp(%s, %s, %s)" % (pretty(dict(x[1])), x[2], x[3])
        return "wrap_%s(%s)" % (x[2], pretty(dict(x[1])))
    r = []
    for m, k in p.items():
        s = "*".join(at(x) for x in m)
        r.append(s if k == 1 and s else "%s%s" % (k, "*" + s if s else ""))
    return " + ".join(r) or "0"
