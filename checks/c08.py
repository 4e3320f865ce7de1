"""C08: a collaction is approved as a whole or rejected as a whole."""
from sa.spec import *
from sa import model, prims
from sa.interp import ok, err, UNIT, State

META = {
 "level": "proof",
 "rule": "Abstract interpretation of the engine in two layers, over every path and any number of loop iterations.  Layer 1 "
         "(one action, everything inlined): an assertion succeeds exactly when its handle is live in the fork and the stored "
         "value equals the asserted one, and changes nothing; no action touches the main baseline.  Layer 2 (a collaction, "
         "actions abstracted to succeed/fail): approval only after every action succeeded, in order; the first failure stops "
         "the collaction, rejects it, and reverses exactly the actions that had succeeded, newest first; the collaction "
         "handed back is the one received.",
 "assumptions": ["writing a state is unimplemented in the tree (todo!): listed as a known finding, so rollback of writes is "
                 "checked as a protocol (which actions are reversed, in which order), not as stored values"],
}
ENGINE = "tp_client::engine::Engine"
ACTION = "tp_client::action::Action"

def sigs(P):
    """Private steps of the engine, found by signature: one action in, verdict out."""
    ap, rv = [], []
    for d, it in P.items.items():
        if it["crate"] != "tp_client" or not it.get("ins") or it["kind"] not in ("fn", "method", "assoc_fn", it["kind"]):
            continue
        us = [P.uty(it["types"], t) for t in it["ins"]]
        if us.count("&mut " + ACTION) == 1 and any(u in ("&mut " + ENGINE, "&mut tp_client::realm::Realm", "&mut " + BASELINE) for u in us):
            r = P.uty(it["types"], it["ret"])
            (ap if "result::Result<" in r else rv).append((d, us.index("&mut " + ACTION)))
    return dict(ap), dict(rv)

def actions_leaf(ap, rv, recv=True):
    def leaf(m, I, st, callee, name, targs, args, site):
        d = callee["def"]
        if d in ap:
            a = I.argterm(st, args[ap[d]])
            t = ('call', 'apply', (), (a,))
            out = []
            for s, v, p in prims.split(I, st, t, RESULT):
                s.facts.pop(('d', t), None)
                s.tag(('apply', a, v))
                if recv and v == 0:
                    k = s.mem.get(DONE, ('i', 0))[1]
                    s.mem[DONE] = ('i', min(k + 1, 3))
                out.append((s, ok(UNIT) if v == 0 else err(('u', 'action-error'))))
            return out
        if d in rv:
            st.tag(('reverse', I.argterm(st, args[rv[d]])))
            return [(st, UNIT)]
        if recv and "crossbeam_channel::Receiver" in name:
            k = d.rsplit("::", 1)[-1]
            if k not in ("len", "is_empty", "is_full", "capacity", "clone", "same_channel"):
                st.tag(('recv', k))
            return None
        if recv and "crossbeam_channel::" in name:
            st.tag(('queue', d.rsplit("::", 1)[-1]))
        return None
    return leaf

def base_of(it):
    while it[0] == 'it':
        it = it[2]
    return it

LOSSY = {'skip', 'take', 'step_by', 'skip_while', 'take_while', 'filter', 'filter_map', 'zip', 'nth', 'cycle', 'chain'}

# ghost: how many actions have succeeded, up to where the interpreter widens counters
DONE = ('G', 'succeeded')

def track(m):
    def on_iter(I, st, kind, it):
        if kind == 'take' and prefix(I, st, ('it', 'take', it, I.iter_arg)):
            kind = 'prefix'
        st.tag(('iter', kind))
    m.I.on_iter = on_iter
    m.I.on_source = lambda I, st, it: prefix(I, st, it)

def bare(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('ref', '*', 'mut', 'place'):
            return bare(t[1])
        return tuple(bare(x) for x in t)
    return t

ITERS = ('iter', 'iter_mut', 'into_iter')

def is_prior(a):
    a = bare(a)
    return a[0] == 'el' and len(a) == 3 and a[2] == ('prior', a[1])

def counted(x):
    return x[0] == 'call' and x[1].rsplit("::", 1)[-1] in ITERS and len(x[3]) == 1

def prefix(I, st, it):
    """An element of `it`, if `it` walks exactly the actions before the one that failed:
    the first n of the slice being applied, n being the index of the failing action."""
    ev = [t for t in st.trace if t[0] == 'apply']
    if not ev or ev[-1][2] != 1:
        return None
    n = None
    if it[0] == 'it' and it[1] == 'take':
        n, it = it[3], it[2]
    it = prims.iterval(I, st, it)
    x = None
    if it[:2] == ('a', 'A:std::ops::Range') and it[3][0] == ('i', 0) and n is None:
        n = it[3][1]    # for j in (0..n).rev(): actions[j]
    elif not counted(it):
        return None
    else:
        x = bare(it[3][0])
    if n is None:
        if x[0] == 'call' and x[1].rsplit("::", 1)[-1] in ('index', 'index_mut') and len(x[3]) == 2:
            x, r = x[3]
            if r[0] == 'a' and r[1].endswith("::RangeTo"):
                n = r[3][0]
            elif r[0] == 'a' and r[1].endswith("::Range") and r[3][0] == ('i', 0):
                n = r[3][1]
        elif x[0] == 'f' and x[2:] == (0, 0) and x[1][0] == 'call' and x[1][1].rsplit("::", 1)[-1] in ('split_at', 'split_at_mut'):
            x, n = x[1][3]
    if n is None:
        return None
    a, n = ev[-1][1], bare(n)
    b = bare(a)
    if b[0] != 'el':
        return None
    if len(b) == 3:
        # actions[i] for i in 0..len
        base, i = b[1], b[2]
        exact = n == i and i[0] == 'el' and i[1][:2] == ('a', 'A:std::ops::Range') and i[1][3][0] == ('i', 0)
    elif counted(b[1]):
        base, exact = b[1][3][0], n == ('idx', b[1])
    else:
        return None
    k = st.mem.get(DONE, ('i', 0))[1]
    if n[0] == 'i':
        exact = min(n[1], 3) == k
    elif n[0] == 'w':
        exact = k == 3
    if not exact:
        return None
    if x is None:
        return ('prior', base)
    return ('old', a) if x == base else None

def run(c, d, ap, rv):
    m = model.Model(c.P, leaf=actions_leaf(ap, rv), keep_fact=lambda t: True)
    track(m)
    outs = []
    for s, v in m.run(d):
        if not is_adt(v, RESULT):
            for s2, var, p in prims.split(m.I, s, v, RESULT):
                outs.append(model.Out(s2, ok(p) if var == 0 else err(p), m.I))
        else:
            outs.append(model.Out(s, v, m.I))
    return m, outs

def entry_points(P):
    r = []
    for d, it in P.items.items():
        if d.startswith(ENGINE + "::") and it.get("pub") and it.get("ret") is not None:
            u = P.uty(it["types"], it["ret"])
            if "tp_client::action::Collaction" in u and "Sender" not in u:
                r.append(d)
    return sorted(r)

def check(c):
    P = c.P
    ap, rv = sigs(P)
    c.ob("anchor:apply-step", len(ap) >= 1, "no function applies a single action")
    c.ob("anchor:reverse-step", len(rv) >= 1, "no function reverses a single action")
    s = Store(c)
    for d in list(ap) + list(rv):
        c.analysed.add(d)
    # ---- layer 2
    eps = entry_points(P)
    c.floor("entry points of the engine that apply a collaction", len(eps), 2)
    for d in eps:
        c.analysed.add(d)
        w = c.loc(d)
        m, outs = run(c, d, ap, rv)
        c.count("paths", len(outs))
        verdicts = set()
        for o in outs:
            ev = [t for t in o.trace if t[0] in ('apply', 'reverse')]
            if o.kind != 'Ok':
                c.ob("no-action-without-collaction:" + d, not ev, "actions are applied although nothing was dequeued", w)
                continue
            v = o.payload
            if not is_adt(v, RESULT):
                c.fail("verdict:" + d, "the verdict is %s" % show(v)[:200], w)
                continue
            wide = [x for f in list(o.facts) + [t[1] for t in ev] for x in subterms(f) if x[:1] == ('w',)]
            if wide and any(t[0] != 'iter' for t in ev) and any(bare(t[1])[0] == 'el' and len(bare(t[1])) == 3 for t in ev):
                # positions kept in a counter by hand: followed for as long as the counter is known
                c.count("paths beyond the counters followed")
                continue
            fails = [i for i, t in enumerate(ev) if t[0] == 'apply' and t[2] == 1]
            good = [t[1] for t in ev if t[0] == 'apply' and t[2] == 0]
            rev = [(i, t[1]) for i, t in enumerate(ev) if t[0] == 'reverse']
            verdicts.add((v[2], bool(ev), bool(rev)))
            c.ob("verdict-matches:" + d, (v[2] == 1) == bool(fails),
                 "%s although %s" % ("approved" if v[2] == 0 else "rejected", "an action failed" if fails else "no action failed"), w)
            c.ob("stops-at-first-failure:" + d, len(fails) <= 1 and not any(t[0] == 'apply' for t in ev[fails[0] + 1:]) if fails else True,
                 "actions are applied after one has failed", w)
            c.ob("reverse-only-after-failure:" + d, all(fails and i > fails[0] for i, _ in rev), "an action is reversed without a failure", w)
            if fails:
                bad = ev[fails[0]][1]
                okset = {norm_old(x) for x in good}
                for i, a in rev:
                    c.ob("failed-not-reversed:" + d, a != bad, "the action that failed is itself reversed", w)
                    c.ob("reverse-was-applied:" + d, norm_old(a) in okset or not okset and a != bad or is_prior(a), "reverses an action that had not succeeded: %s" % show(a)[:120], w)
                it = [t[1] for t in o.trace if t[0] == 'iter']
                nums = [bare(a)[2][1] for _, a in rev if bare(a)[0] == 'el' and len(bare(a)) == 3 and bare(a)[2][0] == 'i']
                if rev and len(nums) == len(rev):
                    # reversed by position: every earlier one, from the newest to the oldest
                    c.ob("newest-first:" + d, nums == sorted(nums, reverse=True) and {norm_old(a) for _, a in rev} == okset,
                         "the succeeded actions are reversed in the order %s" % nums, w)
                elif rev:
                    n = sum(1 for k in it if k in ('rev', 'next_back', 'rfold'))
                    c.ob("newest-first:" + d, n % 2 == 1 or 'pop' in it and n % 2 == 0,
                         "the succeeded actions are reversed oldest first (iterator adaptors on the path: %s)" % it, w)
            it = [t[1] for t in o.trace if t[0] == 'iter']
            if fails and good:
                c.ob("rollback-entered:" + d, rev or set(it) & {'rev', 'pop', 'next_back', 'rfold'},
                     "rejects after %d successes without walking back over them" % len(good), w)
            c.ob("no-action-skipped:" + d, not (set(it) & LOSSY), "actions are passed through %s, so some may be skipped" % sorted(set(it) & LOSSY), w)
            # what is applied comes from the received collaction
            for t in ev:
                c.ob("acts-on-received:" + d, "Receiver" in repr(t[1]), "applies an action that is not part of the dequeued collaction", w)
            c.ob("returns-received:" + d, "Receiver" in repr(v), "hands back %s" % show(v)[:160], w)
            c.sample({"entry": d, "verdict": "approve" if v[2] == 0 else "reject", "events": [show(t)[:60] + ('' if t[0] != 'apply' else ' -> %s' % t[2]) for t in ev], "iterators": it})
        for want, msg in (((0, True, False), "never approves after applying"), ((1, True, True), "never rolls back")):
            c.ob("both-verdicts:" + d + str(want), want in verdicts, msg, w)
        # a rejection after a success must always roll back something
        c.ob("no-panic:" + d, not m.I.panics, "can panic: %s" % sorted({p[2] for p in m.I.panics})[:3], w)
        rollback_complete(c, d, m, outs, w)
    # ---- layer 1
    for d in ap:
        w = c.loc(d)
        m, outs = summarise(P, d, adt=RESULT)
        it = P.items[d]
        us = [P.uty(it["types"], t) for t in it["ins"]]
        act = ('*', ('p', ap[d]))
        root = [i for i, u in enumerate(us) if u != "&mut " + ACTION][0]
        asserts = {0: 0, 1: 0}
        stateact = ('f', ('f', act, 0, 0), 0, 0)
        iA = P.vidx("tp_client::action::property::StateAction", "Assert")
        iS = P.vidx("tp_client::action::property::PropertyAction", "State")
        for o in outs:
            c.count("paths")
            c.ob("action-effects:" + d, not effects(o), "applying an action has effects beyond its state: %s" % [show(x)[:80] for x in effects(o)[:2]], w)
            fork_only(c, P, s, o, ('*', ('p', root)), us[root], d, w)
            if not (variant(o, ('f', act, 0, 0)) == iS and variant(o, ('f', ('f', act, 0, 0), iS, 0)) == iA):
                continue
            ents = {t for f in o.facts for t in subterms(f) if t[:2] == ('call', 'entry')}
            live = [t for t in ents if t[3][1][0] != 'ty']
            eqs = [(f, o.fact(f, 1), o.fact(f, 0)) for f in o.facts if f[0] == 'bin' and f[1] == 'Eq' and cmp_sides(f, live, act)]
            if o.kind == 'Ok':
                asserts[1] += 1
                okk = len(live) == 1 and all(present(o, e) for e in ents) and any(y for _, y, n in eqs)
                c.ob("assert-ok:" + d, okk, "an assertion succeeds without having compared the stored value with the asserted one: %s" % sfacts(o)[-3:], w)
                c.sample(outline(o, 10))
            else:
                asserts[0] += 1
                okk = any(absent(o, e) for e in ents) or any(n for _, y, n in eqs) or kinds_differ(o, act)
                c.ob("assert-err:" + d, okk, "an assertion fails although handle and value are right: %s" % sfacts(o)[-3:], w)
        c.ob("assert-both:" + d, asserts[1] >= 2 and asserts[0] >= 4, "assertions: %s" % asserts, w)
        pan = [p for p in m.I.panics if "tracing" not in str(p[1]) and p[2] != "std::option::expect_failed"]
        for st, site, why in pan:
            o = model.Out(st, ('i', 0), m.I)
            live = [t for f in o.facts for t in subterms(f) if t[:2] == ('call', 'entry') and t[3][1][0] != 'ty']
            sa = ('f', ('f', ('f', act, 0, 0), iS, 0), 0, 0)
            wr = variant(o, ('f', ('f', act, 0, 0), iS, 0)) not in (None, iA)
            c.fail("panic:state-write-live-handle" if wr and live and all(present(o, e) for e in live) else "panic:other",
                   "applying an action panics (%s): %s" % (why, sfacts(o)[-2:]), w)
    for d in rv:
        m, outs = run1(c, d, ap)
        act = ('*', ('p', rv[d]))
        for o in outs:
            n = [t for t in o.trace if t[0] == 'apply']
            c.ob("reverse-once:" + d, len(n) <= 1, "reversing applies an action %d times" % len(n), c.loc(d))

def run1(c, d, ap):
    m = model.Model(c.P, leaf=actions_leaf(ap, {}), keep_fact=lambda t: True)
    return m, [model.Out(s, v, m.I) for s, v in m.run(d)]

def norm_old(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('old', 'w', 'ref', '*'):
            return norm_old(t[1])
        return tuple(norm_old(x) for x in t)
    return t

def variant(o, t):
    f = o.facts.get(('d', t))
    return f[1] if f and f[0] == '=' else None

def cmp_sides(f, live, act):
    a, b = repr(f[2]), repr(f[3])
    def is_store(x): return any(contains(x, e) for e in live)
    def is_data(x): return contains(x, act) and not is_store(x)
    return is_store(f[2]) and is_data(f[3]) or is_store(f[3]) and is_data(f[2])

def kinds_differ(o, act):
    """handle and data of different property type: variants known and different"""
    vs = {}
    for t, f in o.facts.items():
        if t[0] == 'd' and contains(t, act) and not any(x[:2] == ('call', 'entry') for x in subterms(t)):
            vs[t[1]] = f
    # the handle's and the data's discriminants at the same nesting differ
    l = list(vs.items())
    for i, (a, fa) in enumerate(l):
        for b, fb in l[i + 1:]:
            pa, pb = pathof(a), pathof(b)
            if pa and pb and diverge(pa, pb):
                if fa[0] == '=' and fb[0] == '=' and fa[1] != fb[1]:
                    return True
                if fa[0] == '=' and fb[0] == '!=' and fa[1] in fb[1] or fb[0] == '=' and fa[0] == '!=' and fb[1] in fa[1]:
                    return True
    return False

def pathof(t):
    r = []
    while t[0] in ('f', '*'):
        if t[0] == 'f':
            r.append((t[2], t[3]))
        t = t[1]
    return tuple(reversed(r))

def diverge(a, b):
    """paths that branch at the two fields of one action (handle / data)"""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return x[0] == y[0] and x[1] != y[1]
    return False

def fork_only(c, P, s, o, root, ty, d, w):
    """every entry consulted lies in the fork baseline of the engine's realm"""
    ents = [t for f in list(o.facts) + [o.v] for t in subterms(f) if t[:2] == ('call', 'entry')]
    if ty == "&mut " + BASELINE or not ents:
        return
    ms = forkplaces(P, root, ty)
    for e in ents:
        okk = any(contains(e, x) for x in ms)
        c.ob("fork-only:" + d, okk, "consults %s, which is not part of the fork" % show(e)[:160], w)

KIND = "tp_client::baseline::BaselineKind"
REALM = "tp_client::realm::Realm"

def baseline_places(P, acc, name):
    """what the realm's accessor returns for the named kind, over every path"""
    k = ('a', 'A:' + KIND, P.vidx(KIND, name), ())
    m, outs = summarise(P, REALM + "::" + acc, args=[P0, k])
    return m, outs, [peel(o.v) for o in outs]

def moved(t, frm, to):
    if t == frm:
        return to
    return tuple(moved(x, frm, to) for x in t) if isinstance(t, tuple) else t

def forkplaces(P, root, ty):
    """the place of the fork baseline below a root of type engine or realm"""
    bases = [root] if ty.endswith(REALM) else [at(root, x) for x in paths(P, ENGINE, lambda u: u == REALM)]
    return [moved(v, ('*', P0), b) for b in bases for v in baseline_places(P, "baseline", "Fork")[2]]

def rollback_complete(c, d, m, outs, w):
    """some rejected path that had successes reverses them; and a path that rejects after
    a success without ever entering the reversal does not exist unless the loop itself was skipped"""
    n = [o for o in outs if o.kind == 'Ok' and is_adt(o.payload, RESULT) and o.payload[2] == 1
         and any(t[0] == 'apply' and t[2] == 0 for t in o.trace)]
    k = [o for o in n if any(t[0] == 'reverse' for t in o.trace)]
    c.ob("rollback-exists:" + d, not n or k, "successes are never reversed on rejection", w)
