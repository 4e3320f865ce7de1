"""C09: one dequeue per call; an empty queue has no effect; tick only advances time."""
from sa.spec import *
from sa import model, prims
from sa.num import Num, T, padd
from sa.interp import ok, err
from checks.c08 import ENGINE, sigs, actions_leaf, entry_points, run

META = {
 "level": "proof",
 "rule": "Abstract interpretation of every engine entry point that takes collactions off the queue: exactly one receive on "
         "every path, the receive that matches the entry point's contract (a non-blocking one without a timeout, the "
         "caller's timeout otherwise), an error of the queue returned as such without any effect, a verdict returned for "
         "every received collaction, nothing put back.  The constructor pairs the two ends of one queue, bounded exactly "
         "when a capacity is given.  tick() adds its argument, saturating, to the realm's time and writes nothing else.",
 "trusted": ["crossbeam-channel delivers each message once, in order"],
}

def check(c):
    P = c.P
    ap, rv = sigs(P)
    eps = entry_points(P)
    c.floor("entry points of the engine that apply a collaction", len(eps), 2)
    kinds = set()
    for d in eps:
        c.analysed.add(d)
        w = c.loc(d)
        m, outs = run(c, d, ap, rv)
        timed = len(P.items[d]["ins"]) > 1
        good = bad = 0
        for o in outs:
            c.count("paths")
            rec = [t[1] for t in o.trace if t[0] == 'recv']
            c.ob("one-receive:" + d, len(rec) == 1, "%d receives on a path (%s)" % (len(rec), rec), w)
            c.ob("nothing-put-back:" + d, not [t for t in o.trace if t[0] == 'queue'], "sends to a queue while applying", w)
            want = {"recv_timeout", "recv_deadline"} if timed else {"try_recv"}
            c.ob("receive-kind:" + d, set(rec) <= want, "waits with %s" % rec, w)
            kinds.update(rec)
            rt = [t for f in list(o.facts) + [o.v] for t in subterms(f) if t[0] == 'call' and "Receiver" in str(t[1]) and not str(t[1]).endswith("into_iter")]
            rt = {t for t in rt if t[1].rsplit("::", 1)[-1] in ("try_recv", "recv_timeout", "recv_deadline", "recv")}
            if timed:
                c.ob("callers-timeout:" + d, all(len(t[3]) > 1 and contains(t[3][1], P1) for t in rt) and rt, "does not wait for the caller's timeout", w)
            rt = list(rt)
            if len(rt) != 1:
                c.fail("one-result:" + d, "%d different receive results" % len(rt), w)
                continue
            got = o.fact(('d', rt[0]), 0)
            if o.kind == 'Ok':
                good += 1
                c.ob("ok-only-if-received:" + d, got, "returns a verdict although nothing was received", w)
            else:
                bad += 1
                c.ob("err-only-if-empty:" + d, o.fact(('d', rt[0]), 1), "reports an empty queue although a collaction was received (and is lost)", w)
                c.ob("err-is-the-queues:" + d, contains(o.v, rt[0]) or o.payload and o.payload[0] == 'a', "returns %s" % show(o.v)[:120], w)
                c.ob("err-no-effect:" + d, not effects(o) and not [t for t in o.trace if t[0] in ('apply', 'reverse')], "an empty queue has effects: %s" % [show(t)[:80] for t in o.trace[:3]], w)
            c.sample({"entry": d, "returns": o.kind, "receives": rec})
        c.ob("both:" + d, good >= 2 and bad >= 1, "%d verdict paths, %d empty-queue paths" % (good, bad), w)
    c.ob("both-kinds", "try_recv" in kinds and kinds & {"recv_timeout", "recv_deadline"}, "entry points receive with %s only" % sorted(kinds))
    # the two ends belong to one queue
    d = ENGINE + "::new"
    if c.need(d):
        a = P.adts[ENGINE]
        us = [P.uty(a["types"], f["t"]) for f in a["v"][0]["f"]]
        ir = [i for i, u in enumerate(us) if u.endswith("::Realm")]
        iq = [i for i, u in enumerate(us) if "Receiver<" in u]
        c.ob("anchor:engine-fields", len(ir) == 1 and len(iq) == 1, "Engine has fields %s" % us)
        seen = set()
        for o in summarise(P, d)[1]:
            v = o.v
            okk = v[0] == 'a' and len(v[3]) == 2 and is_adt(v[3][0], ENGINE)
            if okk:
                e, q = v[3]
                rx, tx = peel(e[3][iq[0]]), peel(q)
                okk = e[3][ir[0]] == P0 and rx[0] == 'f' and tx[0] == 'f' and rx[1] == tx[1] and (tx[3], rx[3]) == (0, 1)
                ch = rx[1] if okk else None
                if okk:
                    f = ch[1].rsplit("::", 1)[-1]
                    seen.add(f)
                    if f == "bounded":
                        okk = o.fact(('d', P1), 1) and peel(ch[3][0]) == ('f', P1, 1, 0)
                    elif f == "unbounded":
                        okk = not o.fact(('d', P1), 1)
                    else:
                        okk = False
            c.ob("one-queue", okk, "Engine::new builds %s" % show(v)[:200], c.loc(d))
        c.ob("both-capacities", seen == {"bounded", "unbounded"}, "queues built: %s" % sorted(seen), c.loc(d))
    # time
    d = ENGINE + "::tick"
    if c.need(d):
        m, outs = summarise(P, d)
        tp = paths(P, ENGINE, lambda u: u == "i32", depth=6)
        c.ob("anchor:time-field", len(tp) == 1, "%d tick counters in the engine" % len(tp))
        for o in outs:
            eff = effects(o)
            tgt = at(('*', P0), tp[0]) if tp else None
            c.ob("tick-only-time", eff and all(t[0] == 'write' and inside(t[2], tgt) for t in eff),
                 "tick() writes %s" % [show(t) for t in eff], c.loc(d))
            val = m.I.read(o.st, ('X', P0), [('f', 0 if False else v, i) for v, i in tp[0]]) if tp else None
            while val and val[0] == 'a' and len(val[3]) == 1:
                val = val[3][0]
            arg = ('f', P1, 0, 0)
            n = Num(o)
            if n.empty:
                continue
            okk = val and any(n.norm(val) == n.clamp(padd(n.norm(tgt), n.norm(a)), *T["i32"]) for a in (arg, P1))
            c.ob("tick-adds", okk, "the time becomes %s" % show(val)[:200], c.loc(d))
            c.sample({"tick": show(val)})
        c.ob("tick-no-panic", not m.I.panics, "tick() can panic: %s" % [p[2] for p in m.I.panics][:2], c.loc(d))

def inside(t, tgt):
    """t is the counter or a newtype around it"""
    x = tgt
    while x is not None and x[0] == 'f':
        if x == peel(t):
            return True
        x = x[1]
    return False
