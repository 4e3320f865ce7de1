"""C06: contracts are registered once and unregistered with all their objects."""
from sa.spec import *
from sa import model, prims
from sa.interp import UNIT, ok
from checks.c05 import idfact
from checks.c03 import strip
from checks.c08 import LOSSY

META = {
 "level": "proof",
 "rule": "Abstract interpretation of registering and unregistering a contract, with any number of registered contracts and of "
         "objects.  Registration compares the new identifier with that of every registered contract: it fails, without effect, "
         "on a path that found one equal, and otherwise adds one contract with that identifier and no objects and returns a "
         "contract with the new handle.  Unregistration fails, without effect, when the handle is dead or the identifier "
         "differs; otherwise it hands every object recorded with the contract to object removal and then removes the contract.",
 "trusted": ["generational_arena and HashSet hand out each of their elements once"],
}

class Walk(model.Model):
    """Every element of the sources selected by `of` must be settled before the next one and before the end."""
    def __init__(self, P, of, closed, found=None, **kw):
        self.of, self.closed, self.found = of, closed, found
        super().__init__(P, keep_fact=lambda t: not any("log::" in str(x[1]) for x in subterms(t) if x[:1] in (('call',), ('const',))), **kw)
        self.I.on_item, self.I.on_elem, self.I.on_done, self.I.on_push = self.item, self.elem, self.done, self.push
        self.I.rejects = True
        self.I.on_iter = lambda I, st, kind, it: st.tag(('iter', kind)) if self.mine(it, st) else None
    def mine(self, it, st):
        it = prims.iterval(self.I, st, it) if it[0] != 'it' else it
        while it[0] == 'it':
            it = prims.iterval(self.I, st, it[2])
        if it[0] in ('vec', 'vec*'):
            return any(any(self.of(x) for x in subterms(e)) for e in it[1])
        return any(self.of(x) for x in subterms(self.I.argterm(st, it)))
    def settle(self, st):
        if ('pending',) in st.facts:
            st.facts.pop(('pending',))
            if self.found and self.found(self, st):
                st.facts[('found',)] = ('=', 1)
            if not self.closed(self, st):
                st.tag(('skipped',))
    def item(self, I, st, it, e):
        if any(self.of(x) for x in subterms(I.argterm(st, e))):
            self.settle(st)
            st.facts[('pending',)] = ('=', 1)
            st.facts[('ended',)] = ('=', 0)
    def push(self, I, st, v, x):
        if any(self.of(y) for y in subterms(I.argterm(st, x))):
            st.facts.pop(('pending',), None)
    def elem(self, I, st, kind, src, es):
        if kind == 'end' and (self.mine(src, st) or src == ('vec', ())):
            self.settle(st)
            st.facts[('ended',)] = ('=', 1)
    def done(self, I, st, it):
        if self.mine(it, st) or it == ('vec', ()):
            self.settle(st)
            st.facts[('ended',)] = ('=', 1)

def anchors(c):
    P = c.P
    ca = P.adts[CDATA]
    sets = paths(P, CDATA, lambda u: "HashSet<" in u or "BTreeSet<" in u)
    idi = [i for i, f in enumerate(ca["v"][0]["f"]) if P.uty(ca["types"], f["t"]).endswith("::ContractId")]
    if not c.ob("anchor:contract-fields", len(sets) == 1 and len(idi) == 1, "ContractData: %d sets, %d ids" % (len(sets), len(idi))):
        return None
    return sets[0], idi[0]

def check(c):
    P = c.P
    s = Store(c)
    a = anchors(c)
    if a:
        register(c, P, s, *a)
        unregister(c, P, s, *a)

def register(c, P, s, cset, idi):
    d = BASELINE + "::register_contract"
    if not c.need(d):
        return
    w = c.loc(d)
    me = ('*', P0)
    cm = s.place(me, "contracts")
    src = lambda t: t[:1] == ('call',) and str(t[1]).startswith("arena.") and t[3][:1] == (cm,)
    def cid(t):
        if t[0] != 'f' or t[3] != idi:
            return False
        x = peel(t[1])
        while x[0] == '*':
            x = peel(x[1])
        return x[0] == 'f' and x[1][0] == 'el' and any(src(y) for y in subterms(x[1]))
    known = lambda n: lambda m, st: idfact(P, model.Out(st, UNIT, None), cid) == n
    m = Walk(P, src, known(0), known(1))
    outs = [model.Out(x, v, m.I) for x, v in m.run(d)]
    good = bad = 0
    c.count("paths", len(outs))
    for o in outs:
        eff = effects(o)
        if o.kind == 'Err':
            bad += 1
            c.ob("register:refusal-has-no-effect", not eff, "fails after changing the store: %s" % [show(x)[:120] for x in eff[:3]], w)
            c.ob("register:refused-only-if-present", idfact(P, o, cid) == 1 or o.fact(('found',), 1), "refuses although no registered contract has been found to have the identifier: %s" % sfacts(o)[-3:], w)
            c.sample(outline(o, 4))
            continue
        if o.kind != 'Ok':
            c.fail("register:result", "returns %s" % show(o.v)[:120], w)
            continue
        good += 1
        c.ob("register:all-compared", o.fact(('ended',), 1) and ('skipped',) not in o.trace, "registers without having found every registered contract's identifier to differ", w)
        it = {t[1] for t in o.trace if t[0] == 'iter'} & (LOSSY - {'filter', 'filter_map'})
        c.ob("register:none-passed-over", not it, "looks at the registered contracts through %s" % sorted(it), w)
        ins = [t for t in eff if t[0] == 'insert' and t[1] == cm]
        c.ob("register:one-contract", len(ins) == 1 and eff == ins, "does %s" % [show(t)[:120] for t in eff], w)
        if len(ins) != 1:
            continue
        x = ins[0][2]
        isid = is_adt(x, CDATA) and x[3][idi][0] == 'const' and "Contract::ID" in str(x[3][idi][1])
        c.ob("register:own-identifier", isid, "registers %s" % show(x)[:160], w)
        e = x
        for _, i in cset:
            e = e[3][i] if e[0] == 'a' else ('u',)
        empty = e[0] == 'call' and not any(y[:1] == ('p',) for y in subterms(e)) and str(e[1]).rsplit("::", 1)[-1] in ("default", "new", "with_capacity", "with_hasher", "with_capacity_and_hasher")
        c.ob("register:no-objects-yet", empty, "a new contract starts with objects %s" % show(e)[:120], w)
        r = peel(o.payload)
        t = ('call', 'arena.insert', (), (cm, x))
        h = r[3][0] if r[0] == 'call' and str(r[1]).endswith("Contract::new") and len(r[3]) == 1 else ('u',)
        raw = h[3][s.ix[0][1]] if is_adt(h, "arena::Index") else h
        c.ob("register:returns-new-handle", same(strip(raw), strip(t)), "returns %s" % show(r)[:200], w)
        c.sample(outline(o, 4))
    c.ob("register:both", good >= 1 and bad >= 1, "%d registering, %d refusing paths" % (good, bad), w)
    c.ob("register:no-panic", not m.I.panics, "can panic: %s" % sorted({p[2] for p in m.I.panics})[:3], w)

def unregister(c, P, s, cset, idi):
    d = BASELINE + "::unregister_contract"
    if not c.need(d) or not c.need(BASELINE + "::object_remove"):
        return
    w = c.loc(d)
    me = ('*', P0)
    ce = s.entry(me, "contracts", P1)
    cdata = ('*', ('f', ce, 1, 0))
    cid = ('f', cdata, 0, idi)
    objs = at(cdata, cset)
    src = lambda t: t == ('place', objs) or t[:1] and isinstance(t[0], str) and peel(t) == objs
    def isel(t):
        t = peel(t)
        while t[0] == '*':
            t = peel(t[1])
        return t[0] == 'el' and any(src(x) for x in subterms(t[1]))
    def leaf(m, I, st, callee, name, targs, args, site):
        if name.endswith("Baseline::object_remove") or callee["def"].endswith("Baseline::object_remove"):
            h = I.argterm(st, args[1])
            o = model.Out(st, UNIT, None)
            own = isel(h)
            if own:
                st.facts.pop(('pending',), None)
            if present(o, ce) and idfact(P, o, cid) == 1:
                st.tag(('objrm', own))
            else:
                st.tag(('objrm-unchecked', own))
            return [(st, ok(UNIT))]
        return None
    class Un(Walk):
        def evict(self, I, st, place):
            if idfact(P, model.Out(st, UNIT, None), cid) == 1:
                st.tag(('idok',))
            super().evict(I, st, place)
    m = Un(P, src, lambda m, st: False, leaf=leaf)
    outs = [model.Out(x, v, m.I) for x, v in m.run(d)]
    c.count("paths", len(outs))
    cm = s.place(me, "contracts")
    good = bad = took = 0
    for o in outs:
        eff = effects(o) + [t for t in o.trace if str(t[0]).startswith('objrm')]
        if o.kind == 'Err':
            bad += 1
            c.ob("unregister:refusal-has-no-effect", not eff, "fails after changing the store: %s" % [show(x)[:120] for x in eff[:3]], w)
            c.ob("unregister:refusal-has-reason", absent(o, ce) or idfact(P, o, cid) == 0, "refuses a live contract of the named type: %s" % sfacts(o)[-3:], w)
            c.sample(outline(o, 4))
            continue
        if o.kind != 'Ok':
            c.fail("unregister:result", "returns %s" % show(o.v)[:120], w)
            continue
        good += 1
        tr = list(o.trace)
        rm = [i for i, t in enumerate(tr) if t[0] == 'remove']
        c.ob("unregister:type-compared", idfact(P, o, cid) == 1 or ('idok',) in o.trace, "removes a contract without having compared its identifier with the named type's", w)
        okk = len(rm) == 1 and tr[rm[0]][1] == cm and same(tr[rm[0]][2], s.index(P1))
        c.ob("unregister:contract-removed", okk, "removes %s" % [show(tr[i])[:120] for i in rm], w)
        ob = [(i, t) for i, t in enumerate(tr) if str(t[0]).startswith('objrm')]
        c.ob("unregister:objects-before-contract", all(t[0] == 'objrm' for _, t in ob) and (not rm or all(i < rm[0] for i, _ in ob)), "removes an object when its contract is already gone or not yet checked", w)
        c.ob("unregister:own-objects-only", all(t[1] for _, t in ob), "removes an object that is not one of the contract's own", w)
        c.ob("unregister:all-objects", o.fact(('ended',), 1) and ('skipped',) not in o.trace and ('pending',) not in o.facts, "leaves an object of the contract behind", w)
        it = {t[1] for t in o.trace if t[0] == 'iter'} & (LOSSY | {'filter', 'filter_map'})
        c.ob("unregister:none-passed-over", not it, "looks at the objects through %s" % sorted(it), w)
        rest = [t for t in effects(o) if t not in [tr[i] for i in rm] and not (contains(t, objs) and t[0] in ('write', 'set.drain', 'set.clear', 'set.remove', 'set.take'))]
        c.ob("unregister:nothing-else", not rest, "also does %s" % [show(t)[:160] for t in rest], w)
        took += bool(ob)
        c.sample(outline(o, 6))
    c.ob("unregister:both", good >= 2 and bad >= 2 and took >= 1, "%d succeeding, %d refusing, %d object-removing paths" % (good, bad, took), w)
    c.ob("unregister:no-panic", not m.I.panics, "can panic: %s" % sorted({p[2] for p in m.I.panics})[:3], w)
    c.notes.append("object_remove succeeds for every object recorded with a live contract of the compared type (C03, C05)")
