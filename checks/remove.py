"""Shared by C05 (and C06): object removal with the id iterators abstracted."""
from sa.spec import *
from sa import model, prims
from sa.interp import some, NONE, cap

D = BASELINE + "::object_remove"
IDT = {"states": "DynStateId", "channels": "DynChannelId"}

def id_iters(P):
    """next() of the iterators over a contract's ids, by item type"""
    r = {}
    for d, it in P.items.items():
        if it["crate"] == "tp_client" and d.endswith("Iterator>::next") and d in P.items:
            try:
                outs = summarise(P, d, adt=OPTION)[1]
            except Exception:
                continue
            for o in outs:
                for k, n in IDT.items():
                    if o.kind == 'Some' and o.payload[0] == 'a' and o.payload[1].endswith("::" + n):
                        r[d] = k
    return r

class Remover(model.Model):
    """Typed removals are recorded as facts about the id being processed, not as
    events: the loop over ids then has a small fixpoint."""
    def __init__(self, P, store, its, tables, **kw):
        self.s, self.its, self.tables = store, its, tables
        super().__init__(P, leaf=self.next_leaf, branch=self.prune, keep_fact=self.relevant, **kw)
        self.assumed, self.seen = {}, set()
        self.adts = {}
        for d, k in its.items():
            self.adts['A:' + d[1:].split(" as ")[0].split("<")[0]] = k
        self.I.on_source, self.I.on_done, self.I.on_iter = self.source, self.done, lambda I, st, kind, it: st.tag(('iter', kind))
    def relevant(self, t):
        return not any("log::" in str(x[1]) for x in subterms(t) if x[:1] in (('call',), ('const',)))

    def next_leaf(self, m, I, st, callee, name, targs, args, site):
        k = self.its.get(name) or self.its.get(callee.get("rdef"))
        if k is None:
            if "log::" in name and name.startswith("log::"):
                return [(st, ('u', 'log'))]
            return None
        it = I.argterm(st, prims.iterval(I, st, args[0]))
        t = cap(('el', ('call', 'ids', (k,), (it,))))
        self.settle(st, k)
        s0, s1 = st.copy(), st.copy()
        s0.facts[('ended', k)] = ('=', 1)
        s1.facts[('ended', k)] = ('=', 0)
        s1.facts[('pending', k)] = ('=', 1)
        # arrivals that differ only in what the previous id was are the same from here on
        key = (k, tuple(I.stack), I.cur, s1.key())
        if key in self.seen:
            return []
        self.seen.add(key)
        return [(s0, NONE), (s1, some(t))]

    def evict(self, I, st, place):
        """entries seen so far may be gone; that they had been there stays known"""
        for t in self.entries(st, place):
            f = st.facts.get(('d', t))
            if f:
                st.facts[('was', t)] = f
            for g in list(st.facts):
                if contains(g, t) and g[0] == 'd' and g[1] == t:
                    st.facts.pop(g)

    def base(self, I, st, it):
        it = prims.iterval(I, st, it)
        while it[0] == 'it':
            it = prims.iterval(I, st, it[2])
        return it

    def source(self, I, st, it):
        """one more id, pulled by an iterator adaptor"""
        if it[0] != 'a' or it[1] not in self.adts:
            return None
        k = self.adts[it[1]]
        self.settle(st, k)
        st.facts[('ended', k)] = ('=', 0)
        st.facts[('pending', k)] = ('=', 1)
        return cap(('el', ('call', 'ids', (k,), (I.argterm(st, it),))))

    def done(self, I, st, it):
        b = self.base(I, st, it)
        if b[0] == 'a' and b[1] in self.adts:
            self.settle(st, self.adts[b[1]])
            st.facts[('ended', self.adts[b[1]])] = ('=', 1)

    def current(self, t, k=None):
        return [x for x in subterms(t) if x[:1] == ('el',) and x[1][:2] == ('call', 'ids') and (k is None or x[1][2] == (k,))]

    def settle(self, st, k):
        """Close the id processed last."""
        p = ('pending', k)
        if p in st.facts:
            gone = any(st.facts[f] == ('=', 0) and self.typed(f, k) for f in st.facts)
            if not gone:
                st.tag(('skipped', k))
            st.facts.pop(p)
        for f in list(st.facts):
            if self.current(f, k) or self.typed(f, k):
                st.facts.pop(f)
        for o in list(st.mem):
            if isinstance(o, tuple) and o[0] == 'X' and self.current(o, k):
                st.mem.pop(o)

    def typed(self, f, k):
        """a fact about the presence of a typed table or of an entry in it"""
        return f[0] == 'd' and f[1][:2] == ('call', 'entry') and contains(f, at(('*', P0), getattr(self.s, k)))

    def prune(self, I, st, v, val, site):
        if v[0] == 'un' and v[1] == 'Not':
            v = v[2]; val = 1 - val if val in (0, 1) else val
        if v[0] != 'bin' or not self.current(v):
            return None
        cur = self.current(v)[0]
        if v[1] == 'Eq':
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if self.current(a) and not self.current(b):
                    it = cur[1][3][0]
                    fs = [peel(x) for x in (it[3] if it[0] == 'a' else ())]
                    fs += [peel(self.s.index(x)) for x in fs] + [peel(x[3][self.s.ix[0][1]]) for x in fs if is_adt(x, "arena::Index")]
                    if peel(b) in fs:
                        self.assumed["ids of an iterator carry its contract (C14)"] = 1
                        return bool(val)
        if v[1] == 'Lt' and self.current(v[2]) and v[3][0] == 'len' and any(contains(v[3], t) for t in self.tables.get(cur[1][2][0], ())):
            self.assumed["an object's tables are as long as its contract's declaration (C04)"] = 1
            return bool(val)
        return None

    def arena(self, I, st, m, name, targs, args, site):
        if m == "remove":
            p = model.placeterm(I, st, args[0])
            ix = I.argterm(st, args[1])
            which = [k for k in ("states", "channels") if contains(p, at(('*', P0), getattr(self.s, k)))]
            if which:
                e, sp = self.present(I, st, p, ix)
                out = []
                for s, var, pay in sp:
                    if var == 1:
                        if self.own(ix, which[0]):
                            s.facts.pop(('pending', which[0]), None)
                            s.tag(('freed', which[0]))
                        else:
                            s.tag(('freed-other', p, ix))
                        out.append((s, some(('moved', pay))))
                    else:
                        out.append((s, NONE))
                return out
        return super().arena(I, st, m, name, targs, args, site)

    def own(self, ix, k):
        """element of the removed object's own table of that kind, at the id's own index"""
        x = peel(ix)
        if x[0] != 'el' or len(x) < 3 or not any(contains(x[1], t) for t in self.tables[k]):
            return False
        return bool(self.current(x[2], k)) and not any(y[0] == 'bin' for y in subterms(x[2]) if y)
