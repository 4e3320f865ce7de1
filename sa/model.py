"""Domain model on top of the interpreter: the containers the store is made of
(generational arenas, the type map, hash sets, vectors/slices) are given their
interface semantics, so that `get`, `contains` + indexing, `if let` and `?`
all come out as the same facts, and every mutation becomes an event."""
import re
from . import interp, prims
from .interp import (Interp, State, some, NONE, ok, err, UNIT, TRUE, FALSE, is_adt, OPTION, RESULT, contains, cap, subterms, rename)

GA = re.compile(r"^<?generational_arena::Arena(::)?<T>")
TM = re.compile(r"typemap::")
HS = re.compile(r"std::collections::(HashSet|BTreeSet|hash_set)")

def placeterm(I, st, ref):
    """Identity of the place behind a reference (not its content)."""
    n = 0
    while ref[0] == '&' and ref[1][0] in ('L', 'T', 'K') and n < 5:
        v = I.read(st, ref[1], ref[2])
        if v[0] == '&' or v[0] in ('f', 'call', 'p', '*', 'el'):
            # a reference stored in a local
            nxt = v
            if v[0] != '&':
                break
            ref = nxt
        else:
            break
        n += 1
    if ref[0] == '&':
        if ref[1][0] == 'X':
            t = ('*', ref[1][1]) if ref[1][1][0] != 'ref' else ref[1][1][1]
        else:
            v = I.read(st, ref[1], ref[2])
            return ('place', strip_mut(v))
        for e in ref[2]:
            t = ('f', t, e[1], e[2]) if e[0] == 'f' else ('el', t) + tuple(e[1:2])
        return ('place', strip_mut(t))
    if ref[0] == 'ref':
        return ('place', strip_mut(ref[1]))
    return ('place', ('*', ref))

def strip_mut(t):
    while t[0] == 'o':
        t = t[1]
    return t

NEWARENA = ('call', 'arena.new', (), ())
FILLED = ('G', 'filled')

def entry(place, idx):
    return ('call', 'entry', (), (place, idx))

class Model:
    """on_call/on_mutate hooks; `ev` tags go on the trace."""
    def __init__(self, prog, leaf=None, observe=None, branch=None, values=False, **kw):
        self.P = prog
        self.values = values    # written values are part of the trace
        self.leaf = leaf
        self.observe = observe
        self.I = Interp(prog, on_call=self.on_call, on_mutate=self.on_mutate, on_branch=branch, **kw)

    def run(self, d, args=None):
        return self.I.run(d, args)

    def present(self, I, st, place, idx):
        """Fork on presence of `idx` in the container at `place`."""
        e = entry(place, idx)
        return e, prims.split(I, st, e, OPTION)

    def evict(self, I, st, place):
        """Entries of the container seen so far may be gone."""
        old = [t for t in self.entries(st, place)]
        for t in old:
            for f in list(st.facts):
                if contains(f, t):
                    st.facts.pop(f)

    def entries(self, st, place):
        r = set()
        for f in st.facts:
            for t in subterms(f):
                if t[:2] == ('call', 'entry') and t[3][0] == place:
                    r.add(t)
        return r

    def on_mutate(self, I, st, obj, path, how, val):
        if not isinstance(how, str):
            how = 'assign'
        t = ('*', obj[1]) if obj[1][0] != 'ref' else obj[1][1]
        for e in path:
            t = ('f', t, e[1], e[2]) if e[0] == 'f' else ('el', t) + (tuple(e[1:2]) if self.values else ())
        st.tag(('write', how.rsplit('::', 1)[-1], t) + ((I.argterm(st, val) if isinstance(val, tuple) else val,) if self.values else ()))

    def on_call(self, I, st, callee, name, targs, args, site):
        if self.leaf:
            r = self.leaf(self, I, st, callee, name, targs, args, site)
            if r is not None:
                return r
        m = callee["def"].rsplit("::", 1)[-1]
        if GA.match(name):
            return self.arena(I, st, m, name, targs, args, site)
        if TM.search(name) and m in ("get", "get_mut", "entry", "or_insert_with", "or_insert", "insert", "remove", "into_mut", "contains"):
            return self.typemap(I, st, m, name, targs, args, site)
        if HS.search(name):
            if m in ("insert", "remove", "clear", "drain", "retain", "take", "extend"):
                p = placeterm(I, st, args[0])
                st.tag(('set.' + m, p, I.argterm(st, args[1]) if len(args) > 1 else UNIT))
                return [(st, ('call', 'set.' + m, (), (p, I.argterm(st, args[1]) if len(args) > 1 else UNIT)))]
        r = self.slices(I, st, m, name, targs, args, site)
        if r is not None:
            return r
        return None

    def panic(self, I, st, site, why):
        I.panics.append((st, dict(site), why))

    def arena(self, I, st, m, name, targs, args, site):
        if m in ("new", "with_capacity", "default", "from_iter"):
            return [(st, ('call', 'arena.new', (), ()))]
        p = placeterm(I, st, args[0])
        ix = I.argterm(st, args[1]) if len(args) > 1 else None
        if m in ("get", "get_mut"):
            return [(st, entry(p, ix))]
        if m in ("index", "index_mut"):
            e, sp = self.present(I, st, p, ix)
            out = []
            for s, var, pay in sp:
                if var == 1:
                    out.append((s, pay))
                else:
                    self.panic(I, s, site, "arena-index")
            return out
        if m == "contains":
            e, sp = self.present(I, st, p, ix)
            return [(s, ('i', var)) for s, var, _ in sp]
        if m == "remove":
            e, sp = self.present(I, st, p, ix)
            out = []
            for s, var, pay in sp:
                if var == 1:
                    s.tag(('remove', p, ix))
                    self.evict(I, s, p)
                    out.append((s, some(('moved', pay))))
                else:
                    out.append((s, NONE))
            return out
        if m in ("insert", "insert_with", "try_insert"):
            v = I.argterm(st, args[1])
            if p == ('place', NEWARENA):
                # filled before it is stored: counted when it is stored
                st.mem[FILLED] = ('vec', st.mem.get(FILLED, ('vec', ()))[1] + (v,))
            else:
                st.tag(('insert', p, v))
            t = cap(('call', 'arena.insert', (), (p, v)))
            I.fresh(st, t)
            return [(st, t)]
        if m in ("clear", "drain", "retain"):
            st.tag((m, p))
            self.evict(I, st, p)
            return [(st, ('call', m, (), (p,)))]
        if m in ("iter", "iter_mut", "len", "capacity", "is_empty", "into_iter", "clone"):
            return [(st, ('call', 'arena.' + m, (), (p,)))]
        return None

    def typemap(self, I, st, m, name, targs, args, site):
        key = ('ty', next((t for t in reversed(targs) if 'ArenaHandle' in str(t) or 'Key' in str(t)), str(targs[-1:] or '')))
        if m in ("get", "get_mut"):
            return [(st, entry(placeterm(I, st, args[0]), key))]
        if m == "contains":
            return [(s, ('i', var)) for s, var, _ in prims.split(I, st, entry(placeterm(I, st, args[0]), key), OPTION)]
        if m == "entry":
            p = placeterm(I, st, args[0])
            return [(s, ('a', 'A:typemap::Entry', 1 - var, (('tmslot', p, key),)))
                    for s, var, _ in prims.split(I, st, entry(p, key), OPTION)]
        slot = args[0]
        if slot[0] == '&':
            slot = I.load(st, slot)
        if m in ("or_insert_with", "or_insert") and is_adt(slot, "typemap::Entry"):
            vacant, slot = slot[2] == 1, slot[3][0]
            en = entry(slot[1], slot[2])
            if not vacant:
                return [(st, ('f', en, 1, 0))]
            if m == "or_insert":
                return [(self.store_arena(I, st, slot[1], slot[2], args[1]), ('f', en, 1, 0))]
            r = I.call_value(st, args[1], [], None, site)
            return [(self.store_arena(I, s, slot[1], slot[2], v), ('f', en, 1, 0)) for s, v in r or [(st, NEWARENA)]]
        if slot[0] == 'tmslot':
            if m in ("get", "get_mut", "into_mut"):
                return [(st, ('f', entry(slot[1], slot[2]), 1, 0))]
            if m == "insert" and ("Vacant" in name):
                return [(self.store_arena(I, st, slot[1], slot[2], args[1]), ('f', entry(slot[1], slot[2]), 1, 0))]
        if m == "insert":
            p = placeterm(I, st, args[0])
            out = []
            for s, var, pay in prims.split(I, st, entry(p, key), OPTION):
                if var == 0:
                    out.append((self.store_arena(I, s, p, key, args[1]), NONE))
                else:
                    s.mem.pop(FILLED, None)
                    s.tag(('tm.insert', p, key))
                    out.append((s, some(('call', 'tm.insert', (), ()))))
            return out
        if m == "remove":
            st.tag(('tm.remove', placeterm(I, st, args[0]), key))
            return [(st, ('call', 'tm.remove', (), ()))]
        return None

    def store_arena(self, I, st, place, key, v):
        """a table of a type that had none is stored, with what has been put in it"""
        en = entry(place, key)
        v = I.argterm(st, v)
        at = ('f', en, 1, 0)
        if v[0] == 'a' and NEWARENA in v[3]:
            at = ('&', ('X', at), (('f', 0, v[3].index(NEWARENA)),), True)
            v = NEWARENA
        if v == NEWARENA:
            st.tag(('tm.init', place, key))
            I.assume(st, ('d', en), 1)
            items = st.mem.pop(FILLED, ('vec', ()))[1]
            for x in items:
                st.tag(('insert', placeterm(I, st, at), x))
                old = cap(('call', 'arena.insert', (), (('place', NEWARENA), x)))
                new = cap(('call', 'arena.insert', (), (placeterm(I, st, at), x)))
                for k in list(st.mem):
                    if contains(st.mem[k], old):
                        st.mem[k] = rename(st.mem[k], old, new)
        else:
            st.tag(('tm.insert', place, key))
        return st

    def slices(self, I, st, m, name, targs, args, site):
        if re.search(r"std::slice::<impl \[T\]>::(get|get_mut)$", name) and len(args) == 2:
            ref = args[0]
            idx = args[1]
            if len(targs) > 1 and targs[-1] != 'usize':
                return None
            return self.slice_get(I, st, ref, idx, lambda s, r: some(r), lambda s: NONE)
        if re.search(r"(std::vec::Vec<|\[T\]).* as std::ops::Index(Mut)?<", name) and 'usize' in targs:
            def bad(s):
                self.panic(I, s, site, "slice-index")
                return None
            return self.slice_get(I, st, args[0], args[1], lambda s, r: r, bad)
        if re.search(r"(std::slice::<impl \[T\]>|std::vec::Vec::<T, A>|std::vec::Vec::<T>)::len$", name):
            v = I.load(st, args[0])
            if v[0] == 'vec':
                return None
            if v[0] == 'a' and v[1] == 'R':
                return [(st, ('i', len(v[3])))]
            return [(st, ('len', placeterm(I, st, args[0])))]
        return None

    def slice_get(self, I, st, ref, idx, good, bad):
        o, p = I.deref(ref)
        v = I.read(st, o, p)
        if v[0] in ('vec', 'vec*', 'u'):
            return None
        if v[0] == 'a' and v[1] == 'R':
            n = ('i', len(v[3]))
        else:
            n = ('len', placeterm(I, st, ref))
        c = I.binop("Lt", idx, n)
        out = []
        if v[0] in ('f', '*', 'p') and idx[0] == 'el' and len(idx) == 2 and idx[1][0] == 'a' and idx[1][1] == 'A:std::ops::Range' and idx[1][3][1] == n:
            c = ('i', 1)        # counting up to the length of a list that has not changed
        for s, b in prims.truth(I, st, c):
            if b:
                out.append((s, good(s, I.mkref(o, list(p) + [('ix', idx)], True))))
            else:
                r = bad(s)
                if r is not None:
                    out.append((s, r))
        return out

# ------------------------------------------------------------------ summaries
class Out:
    """One terminal state of a root."""
    def __init__(self, st, v, I):
        self.st, self.v, self.I = st, v, I
        self.facts, self.trace = st.facts, st.trace
    @property
    def kind(self):
        v = self.v
        if is_adt(v, RESULT):
            return 'Ok' if v[2] == 0 else 'Err'
        if is_adt(v, OPTION):
            return 'Some' if v[2] == 1 else 'None'
        return '?'
    @property
    def payload(self):
        return self.v[3][0] if self.v[0] == 'a' and self.v[3] else None
    def fact(self, t, n):
        f = self.facts.get(t)
        return f is not None and ((f[0] == '=' and f[1] == n))
    def notfact(self, t, n):
        f = self.facts.get(t)
        return f is not None and ((f[0] == '=' and f[1] != n) or (f[0] == '!=' and n in f[1]))

def split_ret(m, outs):
    """Resolve uninterpreted Option/Result returns into their two variants."""
    return [Out(s, v, m.I) for s, v in outs]

def summarise(prog, d, args=None, adt=None, keep=True, **kw):
    """All terminal states of a root.  `adt` splits an uninterpreted return."""
    kw.setdefault("keep_fact", (lambda t: True) if keep else None)
    m = Model(prog, **kw)
    outs = m.run(d, args)
    res = []
    for s, v in outs:
        if adt == 'bool':
            res += [Out(s2, ('i', int(b)), m.I) for s2, b in prims.truth(m.I, s, v)]
        elif adt and not is_adt(v, adt):
            for s2, var, p in prims.split(m.I, s, v, adt):
                if adt == OPTION:
                    res.append(Out(s2, some(p) if var else NONE, m.I))
                else:
                    res.append(Out(s2, ok(p) if var == 0 else err(p), m.I))
        else:
            res.append(Out(s, v, m.I))
    return m, res
