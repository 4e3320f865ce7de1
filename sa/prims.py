"""Models of the std / third-party calls that have no MIR in the facts.

Every model over-approximates: what is not modelled stays an uninterpreted call,
and mutable references handed to it are havocked by the interpreter."""
import re
from .interp import (State, some, NONE, ok, err, UNIT, TRUE, FALSE, is_adt, OPTION, RESULT, CF, contains, cap, subterms, rename)

WORKSPACE = re.compile(r"^<?(&(mut )?)?(tp_client|arena|better_borrow|rsharp|tp_contract_example|unity_states|circle_game|cs_codegen|crate)\b")

def norm(name):
    n = name
    n = n.replace("safer_ffi::core::", "std::").replace("arena::generational_arena", "generational_arena")
    n = re.sub(r"\b(core|alloc)::", "std::", n)
    n = n.replace("keyframe::num_traits", "num_traits")
    return n

def short(name):
    return name.rsplit("::", 1)[-1]

def split(I, st, v, adt):
    """[(state, variant, payload)] of an Option/Result value, forking when unknown."""
    if v[0] == 'o':
        v = v[1]
    if v[0] == 'a' and v[1] == 'A:' + adt:
        return [(st, v[2], v[3][0] if v[3] else None)]
    d = ('d', v)
    I.discrs[d] = frozenset((0, 1))
    f = st.facts.get(d)
    out = []
    for var in (0, 1):
        if f and ((f[0] == '=' and f[1] != var) or (f[0] == '!=' and var in f[1])):
            continue
        s = st.copy()
        I.assume(s, d, var)
        if I.on_branch and I.on_branch(I, s, d, var, {"fn": "?", "sp": None, "stack": list(I.stack)}) is False:
            continue
        out.append((s, var, I.proj(v, ('f', var, 0))))
    return out

def iterval(I, st, v):
    n = 0
    while n < 5:
        if v[0] == '&':
            v = I.read(st, v[1], v[2])
        elif v[0] == 'ref':
            v = v[1]
        else:
            break
        n += 1
    return v

def elems(I, st, it, body, site, gone=None):
    """States and values for one more element of iterator `it`.  `gone`, if given, receives the
    states in which a filter turned the element away."""
    it = iterval(I, st, it)
    if it[0] == 'it':
        kind, inner, f = it[1], it[2], it[3]
        if kind == 'map':
            out = []
            for s, e in elems(I, st, inner, body, site, gone):
                r = I.call_value(s, f, [e], body, site)
                if r is None:
                    r = [(s, ('call', 'mapfn', (), (I.argterm(s, e),)))]
                out += r
            return out
        if kind == 'enumerate':
            out = []
            for s, e in elems(I, st, inner, body, site, gone):
                t = ('idx', I.argterm(s, inner))
                I.fresh(s, t)
                out.append((s, ('a', 'T', 0, (t, e))))
            return out
        if kind == 'take' and getattr(I, 'on_source', None):
            t = I.on_source(I, st, it)
            if t is not None:
                return [(st.copy(), t)]
        if kind in ('rev', 'skip', 'take', 'step_by', 'peekable', 'fuse', 'by_ref', 'skip_while', 'take_while', 'into', 'cycle'):
            return elems(I, st, inner, body, site, gone)
        if kind in ('cloned', 'copied'):
            return [(s, I.load(s, e)) for s, e in elems(I, st, inner, body, site, gone)]
        if kind == 'inspect':
            out = []
            for s, e in elems(I, st, inner, body, site, gone):
                r = I.call_value(s, f, [e], body, site)
                out += [(s2, e) for s2, _ in (r or [(s, None)])]
            return out
        if kind == 'chain':
            return elems(I, st.copy(), inner, body, site, gone) + elems(I, st.copy(), f, body, site, gone)
        if kind == 'zip':
            out = []
            for s, e in elems(I, st, inner, body, site, gone):
                for s2, e2 in elems(I, s, f, body, site, gone):
                    out.append((s2, ('a', 'T', 0, (e, e2))))
            return out
        if kind == 'zip_longest':
            out = []
            A = 'A:itertools::EitherOrBoth'
            for s, e in elems(I, st, inner, body, site, gone):
                s1 = s.copy()
                for s2, e2 in elems(I, s, f, body, site, gone):
                    elem(I, s2, 'both', it, (e, e2))
                    out.append((s2, ('a', A, 0, (e, e2))))
                elem(I, s1, 'left', it, (e,))
                out.append((s1, ('a', A, 1, (e,))))
            for s, e in elems(I, st.copy(), f, body, site, gone):
                elem(I, s, 'right', it, (e,))
                out.append((s, ('a', A, 2, (e,))))
            return out
        if kind in ('filter', 'filter_map'):
            out = []
            for s, e in elems(I, st, inner, body, site, gone):
                if kind == 'filter':
                    obj = ('T', len(I.stack), 'filter')
                    s.mem[obj] = e
                    r = I.call_value(s, f, [('&', obj, (), False)], body, site)
                    if r is None:
                        out.append((s, e)); continue
                    for s2, b in r:
                        for s3, t in truth(I, s2, b):
                            if t:
                                out.append((s3, e))
                            elif gone is not None:
                                gone.append(s3)
                else:
                    r = I.call_value(s, f, [e], body, site)
                    if r is None:
                        out.append((s, ('u', 'filter_map'))); continue
                    for s2, o in r:
                        for s3, var, p in split(I, s2, o, OPTION):
                            if var == 1:
                                out.append((s3, p))
                            elif gone is not None:
                                gone.append(s3)
            return out
        if kind == 'flat_map':
            out = []
            for s, e in elems(I, st, inner, body, site, gone):
                r = I.call_value(s, f, [e], body, site) if f else [(s, e)]
                for s2, it2 in r or [(s, ('u', 'flat_map'))]:
                    out += elems(I, s2, it2, body, site, gone)
            return out
    if it[0] == 'vec':
        return [(item(I, st.copy(), it, x), x) for x in it[1]]
    if it[0] == 'vec*':
        return [(item(I, st.copy(), it, x), x) for x in sorted(it[1], key=repr)]
    if it[0] == 'a' and it[1] == 'R':
        return [(item(I, st.copy(), it, x), x) for x in it[3]]
    if it[0] == 'call' and short(it[1]) in ('iter', 'into_iter', 'iter_mut') and len(it[3]) == 1 and it[3][0][0] == 'ref':
        x = it[3][0][1]
        if x[0] in ('vec', 'vec*') or (x[0] == 'a' and x[1] == 'R'):
            items = x[1] if x[0] in ('vec', 'vec*') else x[3]
            return [(item(I, st.copy(), it, y), ('ref', y)) for y in sorted(items, key=repr)]
    if is_adt(it, OPTION):
        return [(st, it[3][0])] if it[2] == 1 else []
    s = st.copy()
    if getattr(I, 'on_source', None):
        t = I.on_source(I, s, it)
        if t is not None:
            return [(s, t)]
    t = cap(('el', I.argterm(st, it)))
    I.item_site = site
    item(I, s, it, t)
    I.fresh(s, t)
    return [(s, t)]

def item(I, st, it, e):
    """one more element of a source (not of an adaptor) is handed out"""
    if getattr(I, 'on_item', None):
        I.on_item(I, st, it, e)
    return st

def truth(I, st, v):
    """[(state, bool)]"""
    flip = False
    while v[0] == 'un' and v[1] == 'Not':
        v = v[2]; flip = not flip
    if v[0] == 'i':
        return [(st, bool(v[1]) != flip)]
    f = I.known(st, v)
    out = []
    for val in (0, 1):
        if f and ((f[0] == '=' and f[1] != val) or (f[0] == '!=' and val in f[1])):
            continue
        s = st.copy()
        I.assume(s, v, val)
        if I.on_branch and I.on_branch(I, s, v, val, {"fn": "?", "sp": None, "stack": list(I.stack)}) is False:
            continue
        out.append((s, bool(val) != flip))
    return out

def widen(I, st, first):
    """forget counters that the closures of an iterator loop keep in captured variables"""
    w = ('L', len(I.stack))
    for k in list(st.mem):
        if k in first and st.mem[k] != first[k] and k[0] != 'G':
            v = I.wjoin(st.mem[k], first[k], (k, w))
            if v != st.mem[k]:
                st.mem[k] = v
                for t in list(st.facts):
                    if any(x[:1] == ('w',) and x[2] == w for x in subterms(t)):
                        del st.facts[t]

MAXROUND = 6
def loop(I, st, it, init, step, body, site):
    """Run `step(state, acc, elem) -> [(state, acc, stop)]` 0..n times.
    -> (exhausted [(state, acc)], stopped [(state, val)])"""
    seen = {}
    work = [(st, init, 0)]
    done, stopped = [], []
    skeys, started = set(), set()
    first = dict(st.mem)
    while work:
        s, acc, n = work.pop()
        if n > 3:
            widen(I, s, first)
        if n > MAXROUND and acc is not None and acc[0] not in ('i', 'a') and acc[:2] != ('call', 'count'):
            acc = ('u', 'fold')
        elif n > 40:
            acc = ('u', 'fold')
        k = (s.key(), acc)
        if k in seen:
            continue
        seen[k] = 1
        if len(seen) > 4000:
            from .interp import Limit
            raise Limit("iterator loop")
        done.append((s, acc))
        gone = [] if getattr(I, 'rejects', None) else None
        some_ = elems(I, s.copy(), it, body, site, gone)
        work += [(s2, acc, n + 1) for s2 in gone or ()]
        for s2, e in some_:
            # elements after which nothing differs any more are the same
            k = (s2.key(), acc, e)
            if k in started:
                continue
            started.add(k)
            for s3, a3, stop in step(s2, acc, e):
                if stop:
                    kk = (s3.key(), a3)
                    if kk not in skeys:
                        skeys.add(kk)
                        stopped.append((s3, a3))
                else:
                    work.append((s3, a3, n + 1))
    done = [(s.copy(), a) for s, a in done]
    if getattr(I, 'on_done', None):
        uniq = {}
        I.item_site = site
        for s, a in done:
            I.on_done(I, s, it)
            uniq.setdefault((s.key(), a), (s, a))
        done = list(uniq.values())
    return done, stopped

def elem(I, st, kind, src, es):
    if getattr(I, 'on_elem', None):
        I.on_elem(I, st, kind, src, es)

def pushed(I, st, v, x):
    if getattr(I, 'on_push', None):
        y = I.on_push(I, st, v, x)
        if y is not None:
            x = y
    return vecpush(v, x)

def older(x):
    """`x` with the element it comes from counted among the earlier ones"""
    for e in subterms(x):
        if e[:1] == ('el',):
            x = rename(x, e, ('old', e))
    return x

EXACT_VEC = [False]     # straight-line code only: every push is kept
def vecpush(v, x):
    if EXACT_VEC[0] and v[0] == 'vec' and len(v[1]) < (2000 if EXACT_VEC[0] is True else EXACT_VEC[0]):
        return ('vec', v[1] + (x,))
    if v[0] in ('vec', 'vec*') and v[1] and x not in v[1]:
        y = older(x)
        if y in v[1]:
            # another one like those already there
            return ('vec*', frozenset(v[1]))
    if v[0] == 'vec':
        if len(v[1]) < 3 and x not in v[1]:
            return ('vec', v[1] + (x,))
        return ('vec*', frozenset(v[1]) | {x})
    if v[0] == 'vec*':
        if len(v[1]) >= 64:
            return ('u', 'bigvec')
        return ('vec*', v[1] | {x})
    return None

ADAPT1 = {'rev', 'peekable', 'fuse', 'by_ref', 'cloned', 'copied', 'cycle', 'enumerate', 'flatten'}
ADAPT2 = {'map', 'filter', 'filter_map', 'inspect', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'chain', 'zip', 'zip_longest', 'flat_map'}
CONSUME = {'for_each', 'fold', 'try_fold', 'try_for_each', 'collect', 'any', 'all', 'find', 'position', 'count', 'last', 'find_map'}

def exact(I, st, it, body, site):
    """(state, items) when the iterator hands out items known one by one, else None"""
    it = iterval(I, st, it)
    if it[0] == 'it':
        kind, inner, f = it[1], it[2], it[3]
        if kind not in ('map', 'chain', 'cloned', 'copied', 'enumerate', 'fuse', 'peekable', 'into', 'rev'):
            return None
        r = exact(I, st, inner, body, site)
        if r is None:
            return None
        st, xs = r
        if kind == 'map':
            ys = []
            for x in xs:
                q = I.call_value(st, f, [x], body, site)
                if not q or len(q) != 1:
                    return None
                st, y = q[0]
                ys.append(y)
            return st, ys
        if kind == 'chain':
            r = exact(I, st, f, body, site)
            return r and (r[0], xs + r[1])
        if kind in ('cloned', 'copied'):
            return st, [I.load(st, x) for x in xs]
        if kind == 'enumerate':
            return st, [('a', 'T', 0, (('i', k), x)) for k, x in enumerate(xs)]
        return st, xs[::-1] if kind == 'rev' else xs
    if it[0] == 'a' and it[1] == 'R':
        return st, list(it[3])
    if it[0] == 'vec' and EXACT_VEC[0]:
        return st, list(it[1])
    if it[0] == 'call' and len(it[3]) == 1:
        if short(it[1]) in ('iter', 'into_iter', 'iter_mut') and it[3][0][0] == 'ref':
            r = exact(I, st, it[3][0][1], body, site)
            return r and (r[0], [('ref', x) for x in r[1]])
        if re.search(r"iter::(sources::)?(once::)?once$", str(it[1])):
            return st, [it[3][0]]
        if short(it[1]) == 'into_iter':
            return exact(I, st, it[3][0], body, site)
    if is_adt(it, OPTION):
        return st, list(it[3]) if it[2] == 1 else []
    return None

def iterator(I, st, m, targs, args, body, site):
    it = args[0]
    if getattr(I, 'on_iter', None) and (m in ADAPT1 or m in ADAPT2 or m in ('next_back', 'nth', 'skip', 'rfold', 'last')):
        I.iter_arg = args[1] if len(args) == 2 else None
        I.on_iter(I, st, m, iterval(I, st, it))
    if it[0] == '&' and m in ('next', 'any', 'all', 'find', 'position', 'try_fold', 'try_for_each', 'nth', 'next_back', 'find_map', 'by_ref', 'size_hint', 'len'):
        if m == 'by_ref':
            return [(st, it)]
    if m in ADAPT1:
        k = 'flat_map' if m == 'flatten' else m
        return [(st, ('it', k, it, ()))]
    if m in ADAPT2 and len(args) == 2:
        return [(st, ('it', m, it, args[1]))]
    if m == 'next' and it[0] == '&':
        # a loop over the items of an array, one after the other
        v = I.load(st, it)
        ar = v if v[0] == 'a' else v[3][0][1] if v[0] == 'call' and short(v[1]) in ('iter', 'into_iter') and len(v[3]) == 1 and v[3][0][0] == 'ref' else UNIT
        if ar[:2] == ('a', 'R') and len(ar[3]) <= 8:
            src = iterval(I, st, it) if getattr(I, 'on_elem', None) else None
            I.item_site = site
            if not ar[3]:
                elem(I, st, 'end', src, ())
                return [(st, NONE)]
            s, x = st.copy(), ar[3][0]
            rest = ('a', 'R', ar[2], ar[3][1:])
            I.store(s, it, rest if v is ar else v[:3] + ((('ref', rest),),), 'next')
            item(I, s, v, x)
            x = x if v is ar else ('ref', x)
            elem(I, s, 'next', src, (x,))
            return [(s, some(x))]
    if m in ('next', 'next_back', 'nth'):
        s0 = st.copy()
        out = [(s0, NONE)]
        src = iterval(I, st, it) if getattr(I, 'on_elem', None) else None
        I.item_site = site
        elem(I, s0, 'end', src, ())
        gone = [] if getattr(I, 'on_gone', None) else None
        for s, e in elems(I, st, it, body, site, gone):
            elem(I, s, 'next', src, (e,))
            out.append((s, some(e)))
        for s in gone or ():
            I.on_gone(I, s)
        return out
    if m not in CONSUME:
        return None
    if m == 'for_each':
        f = args[1]
        def step(s, a, e):
            r = I.call_value(s, f, [e], body, site)
            return [(x, a, False) for x, _ in (r if r is not None else [(s, None)])]
        d, _ = loop(I, st, it, UNIT, step, body, site)
        return d
    if m == 'fold':
        f = args[2]
        def step(s, a, e):
            r = I.call_value(s, f, [a, e], body, site)
            return [(x, v, False) for x, v in (r if r is not None else [(s, ('u', 'fold'))])]
        d, _ = loop(I, st, it, args[1], step, body, site)
        return d
    if m in ('try_fold', 'try_for_each'):
        f = args[-1]
        init = args[1] if m == 'try_fold' else UNIT
        full = ' '.join(str(t) for t in targs)
        adt = RESULT
        def step(s, a, e):
            out = []
            r = I.call_value(s, f, [a, e] if m == 'try_fold' else [e], body, site)
            for x, v in (r if r is not None else [(s, ('u', 'try'))]):
                if is_adt(v, OPTION) or (v[0] != 'a' and 'Option<' in full):
                    for y, var, p in split(I, x, v, OPTION):
                        out.append((y, p if var == 1 else NONE, var == 0))
                elif is_adt(v, CF):
                    out.append((x, v[3][0] if v[2] == 0 else v, v[2] == 1))
                else:
                    for y, var, p in split(I, x, v, RESULT):
                        out.append((y, p if var == 0 else err(p), var == 1))
            return out
        d, stp = loop(I, st, it, init, step, body, site)
        kind = None
        for _, v in stp:
            kind = v[1]
        if kind == 'A:' + OPTION or (kind is None and 'Option<' in full):
            return [(s, some(a)) for s, a in d] + stp
        if kind == 'A:' + CF:
            return [(s, ('a', 'A:' + CF, 0, (a,))) for s, a in d] + stp
        return [(s, ok(a)) for s, a in d] + stp
    if m in ('any', 'all'):
        f = args[1]
        def step(s, a, e):
            out = []
            r = I.call_value(s, f, [e], body, site)
            for x, v in (r if r is not None else [(s, ('u', 'any'))]):
                for y, b in truth(I, x, v):
                    if m == 'any':
                        out.append((y, TRUE if b else a, b))
                    else:
                        out.append((y, FALSE if not b else a, not b))
            return out
        d, stp = loop(I, st, it, FALSE if m == 'any' else TRUE, step, body, site)
        return d + stp
    if m in ('find', 'position', 'find_map'):
        f = args[1]
        def step(s, a, e):
            out = []
            if m == 'find':
                obj = ('T', len(I.stack), 'find')
                s.mem[obj] = e
                r = I.call_value(s, f, [('&', obj, (), False)], body, site)
            else:
                r = I.call_value(s, f, [e], body, site)
            for x, v in (r if r is not None else [(s, ('u', 'find'))]):
                if m == 'find_map':
                    for y, var, p in split(I, x, v, OPTION):
                        out.append((y, some(p) if var else a, var == 1))
                    continue
                for y, b in truth(I, x, v):
                    val = some(e) if m == 'find' else some(('idx', I.argterm(y, iterval(I, y, it))))
                    out.append((y, val if b else a, b))
            return out
        d, stp = loop(I, st, it, NONE, step, body, site)
        return d + stp
    if m in ('count', 'last'):
        def step(s, a, e):
            if m == 'last':
                return [(s, some(e), False)]
            n = ('call', 'count', (), (I.argterm(s, it),))
            for op, x, y, val in (('Gt', n, ('i', 0), 1), ('Lt', ('i', 0), n, 1), ('Ge', n, ('i', 1), 1), ('Le', ('i', 1), n, 1), ('Lt', n, ('i', 1), 0),
                                  ('Gt', ('i', 1), n, 0), ('Eq', n, ('i', 0), 0), ('Eq', ('i', 0), n, 0), ('Ne', n, ('i', 0), 1), ('Ne', ('i', 0), n, 1),
                                  ('Le', n, ('i', 0), 0), ('Ge', ('i', 0), n, 0)):
                s.facts[('bin', op, x, y)] = ('=', val)
            return [(s, n, False)]
        d, _ = loop(I, st, it, NONE if m == 'last' else ('i', 0), step, body, site)
        return d
    if m == 'collect':
        target = str(targs[-1]) if targs else ''
        if re.match(r"(std::)?result::Result<|std::result::Result<|eyre::Result|std::option::Option<|Result<|Option<", target):
            adt = OPTION if 'Option<' in target.split('<')[0] + '<' else RESULT
            good = 1 if adt == OPTION else 0
            def step(s, a, e):
                out = []
                for y, var, p in split(I, s, e, adt):
                    if var == good:
                        out.append((y, pushed(I, y, a, p) or ('u', 'vec'), False))
                    else:
                        out.append((y, NONE if adt == OPTION else err(p), True))
                return out
            d, stp = loop(I, st, it, ('vec', ()), step, body, site)
            return [(s, some(a) if adt == OPTION else ok(a)) for s, a in d] + stp
        if 'Vec<' in target or 'Box<[' in target or 'HashSet<' in target or 'BTree' in target:
            r = exact(I, st.copy(), it, body, site) if EXACT_VEC[0] and ('Vec<' in target or 'Box<[' in target) else None
            if r:
                v = ('vec', ())
                for x in r[1]:
                    v = pushed(I, r[0], v, x) or ('u', 'vec')
                return [(r[0], v)]
            def step(s, a, e):
                return [(s, pushed(I, s, a, e) or ('u', 'vec'), False)]
            d, _ = loop(I, st, it, ('vec', ()), step, body, site)
            return d
        return None
    return None

def primitive(I, st, callee, name, targs, args, body, site):
    if re.search(r"lazy_static::lazy::Lazy.*::get$", name) or re.search(r"::(LazyLock|OnceLock|OnceCell|Lazy)(::|<).*(get_or_init|force)$", name):
        r = I.call_value(st, args[1], [], body, site) if len(args) == 2 else None
        if r is not None:
            return [(s, ('ref', v)) for s, v in r]
    if WORKSPACE.match(name) and not name.startswith("arena::generational_arena"):
        return None
    tr = callee.get("trait") or ""
    trn = norm(tr)
    n = norm(name)
    m = short(callee["def"])
    has = callee.get("inst") in I.P.bodies

    # iterators
    if trn == "std::iter::Iterator" or trn.endswith("Itertools") or trn in ("std::iter::DoubleEndedIterator",):
        r = iterator(I, st, m, targs, args, body, site)
        if r is not None:
            return r
    if trn == "std::iter::IntoIterator":
        v = args[0]
        if v[0] == 'it':
            return [(st, v)]
        if v[0] in ('vec', 'vec*') or (v[0] == 'a' and v[1] in ('R', 'A:std::ops::Range', 'A:std::ops::RangeInclusive')):
            return [(st, v)]
        if name.startswith("<I as ") or 'iter' in ' '.join(str(t) for t in targs[:1]).lower() and 'Iter' in str(targs[0]):
            return [(st, v)]
        return None

    if m in ("checked_add", "saturating_add", "wrapping_add") and re.search(r"num::<impl [ui](\d+|size)>", n) and ('i', 0) in args:
        v = args[1] if args[0] == ('i', 0) else args[0]
        return [(st, some(v) if m == "checked_add" else v)]
    # memory
    if n == "std::mem::take" or n.endswith("Option::<T>::take"):
        old = I.load(st, args[0])
        new = NONE if n.endswith("Option::<T>::take") else ('call', 'default', targs, ())
        I.store(st, args[0], new, 'take')
        return [(st, old)]
    if n == "std::mem::replace" or n.endswith("Option::<T>::replace"):
        old = I.load(st, args[0])
        I.store(st, args[0], some(args[1]) if 'Option' in n else args[1], 'replace')
        return [(st, old)]
    if n == "std::mem::swap":
        a, b = I.load(st, args[0]), I.load(st, args[1])
        I.store(st, args[0], b, 'swap'); I.store(st, args[1], a, 'swap')
        return [(st, UNIT)]
    if n in ("std::mem::drop", "std::mem::forget", "std::hint::black_box"):
        return [(st, args[0] if n.endswith("black_box") else UNIT)]
    if n == "std::intrinsics::discriminant_value":
        return [(st, ('d', I.load(st, args[0])))] if I.load(st, args[0])[0] != 'a' else None
    # identities and copies
    if trn == "std::clone::Clone" and m == "clone" and not has:
        return [(st, I.load(st, args[0]))]
    if trn in ("std::ops::Deref", "std::ops::DerefMut") and not has and re.search(r"Vec<|String|Box<", n):
        return [(st, args[0])]
    if n.endswith("Vec::<T, A>::as_slice") or n.endswith("Vec::<T, A>::as_mut_slice") or n.endswith("String::as_str"):
        return [(st, args[0])]
    if trn in ("std::ops::Index", "std::ops::IndexMut") and 'std::ops::RangeFull' in targs and not has:
        return [(st, args[0])]
    if trn in ("std::convert::AsRef", "std::borrow::Borrow", "std::convert::AsMut") and not has:
        return [(st, args[0])]
    if trn in ("std::convert::From", "std::convert::Into") and len(targs) >= 2 and targs[0] == targs[1] and not has:
        return [(st, args[0])]
    if (trn == "std::cmp::PartialEq" and (not has or re.search(r"\[|Vec<|str\b|String|PhantomData", n))) or "SlicePartialEq" in n:
        a, b = I.load(st, args[0]), I.load(st, args[1])
        n2 = 0
        while n2 < 3 and a[0] in ('&', 'ref') and b[0] in ('&', 'ref'):
            a, b = I.load(st, a), I.load(st, b); n2 += 1
        r = I.binop("Eq", a, b)
        if m == "ne":
            r = ('i', 1 - r[1]) if r[0] == 'i' else (r[2] if r[0] == 'un' else ('un', 'Not', r))
        return [(st, r)]
    # vectors
    if re.search(r"Vec::<T(, A)?>::(new|with_capacity)$", n):
        return [(st, ('vec', ()))]
    if n == "std::slice::<impl [T]>::reverse":
        old = I.load(st, args[0])
        if old[0] in ('vec', 'vec*'):
            if getattr(I, 'on_iter', None):
                I.on_iter(I, st, 'rev', old)
            if old[0] == 'vec':
                I.store(st, args[0], ('vec', old[1][::-1]), 'reverse')
            return [(st, UNIT)]
        return None
    if re.search(r"Vec::<T(, A)?>::pop$", n):
        old = I.load(st, args[0])
        if getattr(I, 'on_iter', None):
            I.on_iter(I, st, 'pop', old)
        if old[0] == 'vec':
            if not old[1]:
                return [(st, NONE)]
            I.store(st, args[0], ('vec', old[1][:-1]), 'pop')
            return [(st, some(old[1][-1]))]
        if old[0] == 'vec*':
            return [(st.copy(), NONE)] + [(st.copy(), some(x)) for x in sorted(old[1], key=repr)]
        return None
    if re.search(r"Vec::<T(, A)?>::push$", n):
        old = I.load(st, args[0])
        new = pushed(I, st, old, args[1]) if old[0] in ('vec', 'vec*') else None
        if new is not None:
            I.store(st, args[0], new, 'push')
            return [(st, UNIT)]
        return None
    if re.search(r"Vec<T(, A)?> as (std::iter::|iter::)?Extend<T>>::extend$", n):
        old = I.load(st, args[0])
        r = exact(I, st.copy(), args[1], body, site) if EXACT_VEC[0] and old[0] == 'vec' else None
        if r:
            for x in r[1]:
                old = pushed(I, r[0], old, x) or ('u', 'vec')
            I.store(r[0], args[0], old, 'push')
            return [(r[0], UNIT)]
        if old[0] in ('vec', 'vec*'):
            def step(s, a, e):
                return [(s, pushed(I, s, a, e) or ('u', 'vec'), False)]
            d, _ = loop(I, st, args[1], old, step, body, site)
            for s, a in d:
                I.store(s, args[0], a, 'push')
            return [(s, UNIT) for s, a in d]
        return None
    if re.search(r"array::<impl \[T; N\]>::map$", n) and args[0][0] == 'a' and args[0][1] == 'R':
        ys = exact(I, st.copy(), ('it', 'map', args[0], args[1]), body, site)
        return [(ys[0], ('a', 'R', 0, tuple(ys[1])))] if ys else None
    if re.search(r"Vec::<T(, A)?>::(reserve|shrink_to_fit)$", n):
        return [(st, UNIT)]
    if n.endswith("::is_empty") or n.endswith("::len"):
        v = I.load(st, args[0])
        if v[0] == 'vec':
            k = len(v[1])
            if n.endswith("::len"):
                return [(st, ('i', k))]
            return [(st, TRUE if k == 0 else FALSE)]
        return None
    # vec![a, b, ..]: a fresh box is filled through its pointer
    if n.endswith("Box::<T>::new_uninit"):
        obj = ('B', next(i for i in range(10 ** 6) if ('B', i) not in st.mem))
        st.mem[obj] = ('a', 'T', 0, (UNIT, ('a', 'T', 0, (UNIT,))))
        return [(st, ('a', 'T', 0, (('&', obj, (), True),)))]
    if n.endswith("box_assume_init_into_vec_unsafe") and args[0][0] == 'a' and args[0][3] and args[0][3][0][0] == '&':
        v = I.read(st, args[0][3][0][1], [('f', 0, 1), ('f', 0, 0)])
        if v[0] == 'a' and v[1] == 'R':
            return [(st, ('vec', v[3]))]
    if n.endswith("Box::<T>::new"):
        return [(st, ('call', 'box', (), (args[0],)))]
    # safer_ffi's boxes and vectors are the standard ones in a C layout
    if "safer_ffi" in n:
        if re.search(r"safer_ffi::(boxed::Box|Vec|vec::Vec)\w*(<.*>)? as (std::)?convert::From<", n) and len(args) == 1:
            return [(st, args[0])]
        if re.search(r"safer_ffi::(boxed::)?Box\w*::<T>::into$", n) and len(args) == 1:
            return [(st, args[0])]
        if n.endswith("Vec::<T>::with_rust_mut") and len(args) == 2:
            return I.call_value(st, args[1], [args[0]], body, site)
    # results
    if m in ("wrap_err", "wrap_err_with", "context", "with_context") or m == "into_diagnostic" and "miette" in n:
        out = []
        adt = OPTION if 'Option' in n else RESULT
        for s, var, p in split(I, st, args[0], adt):
            if adt == RESULT and var == 0:
                out.append((s, ok(p)))
            elif adt == OPTION and var == 1:
                out.append((s, ok(p)))
            else:
                out.append((s, err(('call', 'wrap_err', (), (I.argterm(s, p) if p else UNIT,)))))
        return out
    if n.endswith("unchecked_add::precondition_check") or n.endswith("precondition_check"):
        return [(st, UNIT)]
    return None
