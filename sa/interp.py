"""Path-sensitive dataflow over MIR: an abstract interpreter to a fixpoint.

Abstract values are *provenance terms*: where a value came from (a parameter, a
field of it, the result of a call on given arguments), plus known constants and
known enum variants.  Functions of the workspace (and the small std combinators
whose MIR the driver dumps) are inlined, so a helper extracted or an `if let`
turned into `?` gives the same terms.  Calls that leave the program are
uninterpreted.  States are kept apart per (block, facts); loops reach a fixpoint
because terms are bounded and accumulators are widened.  No solver, no execution.

value ::= ('i',n) | ('s',str) | ('fn',key) | ('a',kind,variant,(v..))   aggregates
        | ('&',obj,path,mut)                                            reference to a place
        | ('vec',(v..)) | ('vec*',frozenset)                            pushed-to vector
        | ('o',base,((key,v)..))                                        base with overridden fields
        | term
term  ::= ('p',i) | ('f',t,variant,i) | ('*',t) | ('el',t[,idx]) | ('call',name,targs,args)
        | ('bin',op,a,b) | ('un',op,a) | ('cast',from,to,a) | ('d',t) | ('mut',t) | ('u',why)
"""
import re

MAXDEPTH = 60

GAVE_UP = []     # roots whose exploration ran out of budget

class Limit(Exception):
    pass

_depth = {}
def depth(t):
    if not isinstance(t, (tuple, frozenset)):
        return 0
    d = _depth.get(t)
    if d is None:
        d = 1 + max((depth(x) for x in t), default=0)
        if len(_depth) > 2000000:
            _depth.clear()
        _depth[t] = d
    return d

_sub = {}
def subterms(t):
    """All tuple subterms of t."""
    if not isinstance(t, (tuple, frozenset)):
        return frozenset()
    r = _sub.get(t)
    if r is None:
        acc = set()
        if isinstance(t, tuple):
            acc.add(t)
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                acc |= subterms(x)
        r = frozenset(acc)
        if len(_sub) > 400000:
            _sub.clear()
        _sub[t] = r
    return r

def contains(t, x):
    return x in subterms(t)

def rename(t, old, new):
    if t == old:
        return new
    if t == new:
        return t
    if isinstance(t, tuple):
        if old not in subterms(t):
            return t
        return tuple(rename(x, old, new) for x in t)
    if isinstance(t, frozenset):
        return frozenset(rename(x, old, new) for x in t)
    return t

def cap(t, limit=MAXDEPTH):
    """Bound a term's depth."""
    if depth(t) <= limit:
        return t
    if not isinstance(t, tuple):
        return t
    if limit <= 1:
        return ('u', 'deep')
    return tuple(cap(x, limit - 1) if isinstance(x, tuple) else x for x in t)

def strip_lt(s):
    s = re.sub(r"'\{?\w+\}? ?", "", s)
    return s

_norm = {}
def norm_name(n):
    r = _norm.get(n)
    if r is None:
        r = n.replace("safer_ffi::core::", "std::").replace("arena::generational_arena", "generational_arena")
        r = re.sub(r"\b(core|alloc)::", "std::", r).replace("keyframe::num_traits", "num_traits")
        _norm[n] = r
    return r

def float_const(bits, ts):
    import struct
    n = 4 if ts == "f32" else 8
    v = struct.unpack("<f" if n == 4 else "<d", (bits & (1 << 8 * n) - 1).to_bytes(n, "little"))[0]
    return ('fc', v if v == v else "nan", ts)

class State:
    __slots__ = ("mem", "facts", "trace")
    canon = None        # tag -> (tag, how often to keep it): the trace is then an unordered collection
    def __init__(self, mem=None, facts=None, trace=()):
        self.mem = {} if mem is None else mem
        self.facts = {} if facts is None else facts
        self.trace = trace
    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.trace)
    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.trace)
    def tag(self, t):
        tr = self.trace
        if State.canon:
            t, n = State.canon(t)
            if n and tr.count(t) < n:
                self.trace = tuple(sorted(tr + (t,), key=repr))
            return
        if tr and tr[-1] == t:
            return
        if tr.count(t) >= 2:
            return
        self.trace = tr + (t,)

OPTION = "std::option::Option"
RESULT = "std::result::Result"
CF = "std::ops::ControlFlow"

def some(v): return ('a', 'A:' + OPTION, 1, (v,))
NONE = ('a', 'A:' + OPTION, 0, ())
def ok(v): return ('a', 'A:' + RESULT, 0, (v,))
def err(v): return ('a', 'A:' + RESULT, 1, (v,))
UNIT = ('a', 'T', 0, ())
TRUE, FALSE = ('i', 1), ('i', 0)
def is_adt(v, path): return v[0] == 'a' and v[1] == 'A:' + path

IMPURE = re.compile(r"recv|::now$|random|::gen$|fetch_|::lock$|::load$")

class Interp:
    def __init__(self, prog, on_call=None, on_branch=None, on_mutate=None, keep_fact=None,
                 inline=None, max_states=400000, opaque=None, on_enter=None, on_assert=None, fold=True):
        self.P = prog
        self.on_call = on_call
        self.on_branch = on_branch
        self.discrs = {}
        self._prov = {}
        self.on_mutate = on_mutate
        self.on_enter = on_enter
        self.on_assert = on_assert
        self.keep_fact, self.keep_value = keep_fact, None
        self.inline = inline
        self.opaque = opaque
        self.panics = []
        self.steps = 0
        self.max_states = max_states
        self.fns = {}
        self.consts = {}
        self.visited = set()     # defs of inlined functions
        self.opaque_calls = {}   # name -> count
        self.callsites = 0
        self.folded = 0
        self.fold = fold
        self.cur = 0
        self.tmp = 0
        self.stack = []

    # ---------------------------------------------------------------- memory
    def read_obj(self, st, obj):
        v = st.mem.get(obj)
        if v is not None:
            return v
        if obj[0] == 'X':
            if obj[1][0] == 'ref':
                return obj[1][1]
            return ('*', obj[1])
        if obj[0] == 'K' and obj in self.kmem:
            return self.kmem[obj]
        return ('u', 'uninit')

    def proj(self, v, el):
        k = v[0]
        if k == 'o':
            for kk, vv in v[2]:
                if kk == el:
                    return vv
            return self.proj(v[1], el)
        if el[0] == 'f':
            if k == 'a':
                if v[2] is not None and v[2] != el[1] and v[1].startswith('A:'):
                    return ('u', 'badvariant')
                if el[2] < len(v[3]):
                    return v[3][el[2]]
                return ('u', 'badfield')
            if k == 'u':
                return ('u', v[1])
            return cap(('f', v, el[1], el[2]))
        if el[0] == 'ix':
            if k == 'a' and v[1] == 'R' and el[1][0] == 'i' and el[1][1] < len(v[3]):
                return v[3][el[1][1]]
            if k == 'vec' and el[1][0] == 'i' and el[1][1] < len(v[1]):
                return v[1][el[1][1]]
            return cap(('el', v, el[1]))
        if el[0] == 'ci':
            if k == 'a' and v[1] == 'R':
                i = len(v[3]) - el[1] if el[2] else el[1]
                if 0 <= i < len(v[3]):
                    return v[3][i]
            return cap(('el', v, ('i', -el[1] if el[2] else el[1])))
        return cap(('sub', v, el[1:]))

    def read(self, st, obj, path):
        v = self.read_obj(st, obj)
        for el in path:
            v = self.proj(v, el)
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        el = path[0]
        sub = self.upd(self.proj(v, el), path[1:], new)
        if v[0] == 'a' and el[0] == 'f' and el[2] < len(v[3]):
            fs = list(v[3]); fs[el[2]] = sub
            return ('a', v[1], v[2], tuple(fs))
        if v[0] == 'a' and v[1] == 'R' and el[0] == 'ix' and el[1][0] == 'i' and el[1][1] < len(v[3]):
            fs = list(v[3]); fs[el[1][1]] = sub
            return ('a', v[1], v[2], tuple(fs))
        if v[0] == 'o':
            d = dict(v[2]); d[el] = sub
            return ('o', v[1], tuple(sorted(d.items(), key=repr)))
        return ('o', v, ((el, sub),))

    def write(self, st, obj, path, val, how='assign', notify=True):
        st.mem[obj] = cap(self.upd(self.read_obj(st, obj), path, val), MAXDEPTH + 20)
        if notify and obj[0] == 'X' and self.on_mutate:
            self.on_mutate(self, st, obj, path, how, val)

    def place(self, st, fr, pl):
        obj = (fr[0], fr[1], pl[0])
        path = []
        var = 0
        for e in pl[1]:
            if e == '*':
                v = self.read(st, obj, path)
                obj, path = self.deref(v)
                var = 0
            elif e[0] == 'f':
                path.append(('f', var, e[1]))
                var = 0
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'i':
                path.append(('ix', self.read(st, (fr[0], fr[1], e[1]), ())))
            elif e[0] == 'ci':
                path.append(('ci', e[1], e[2]))
            elif e[0] == 'sub':
                path.append(('sub', e[1], e[2], e[3]))
            else:
                path.append(('f', 0, 0))
        return obj, path

    def deref(self, v):
        if v[0] == '&':
            return v[1], list(v[2])
        return ('X', v), []

    def mkref(self, obj, path, mut):
        if obj[0] == 'X' and not path:
            return obj[1]
        return ('&', obj, tuple(path), bool(mut))

    def load(self, st, v):
        """The value behind a reference value."""
        o, p = self.deref(v)
        return self.read(st, o, p)

    def store(self, st, v, val, how='assign'):
        o, p = self.deref(v)
        self.write(st, o, p, val, how)

    def argterm(self, st, v, n=0):
        k = v[0]
        if n > 6:
            return v
        if k == '&':
            if v[1][0] == 'X':
                cur = self.read(st, v[1], v[2])
                init = ('*', v[1][1])
                for el in v[2]:
                    init = self.proj(init, el)
                if cur == init:
                    return ('&', v[1], v[2])
                return ('&', v[1], v[2], self.argterm(st, cur, n + 1))
            return ('ref', self.argterm(st, self.read(st, v[1], v[2]), n + 1))
        if k == 'a':
            return ('a', v[1], v[2], tuple(self.argterm(st, x, n + 1) for x in v[3]))
        if k == 'o':
            return ('o', self.argterm(st, v[1], n + 1), tuple((a, self.argterm(st, b, n + 1)) for a, b in v[2]))
        if ('X', v) in st.mem:
            return ('&', ('X', v), (), self.argterm(st, st.mem[('X', v)], n + 1) if n < 3 else ('u', 'deep'))
        return v

    # -------------------------------------------------------------- operands
    def const(self, st, fr, c, body):
        if "fn" in c:
            return self.fnval(c["fn"])
        if "promoted" in c:
            return self.constbody(c["promoted"])
        b = c.get("body")
        if b and b in self.P.bodies:
            return self.constbody(b)
        if "static" in c and c["static"] in self.P.bodies:
            return ('ref', self.constbody(c["static"]))
        if "int" in c:
            ts = body["types"][c["ty"]]["s"]
            if ts in ("f32", "f64"):
                return float_const(c["int"], ts)
            return ('i', c["int"])
        if "str" in c:
            return ('s', c["str"])
        if "uneval" in c:
            return ('const', c["uneval"], tuple(self.targ(body, a) for a in c.get("args", [])))
        if c.get("zst"):
            t = body["types"][c["ty"]]
            if t["k"] == "adt":
                return ('a', 'A:' + t["d"], 0, ())
            if t["k"] == "closure":
                return ('a', 'C:' + t["d"], 0, ())
            return UNIT
        if "tyconst" in c:
            return ('const', c["tyconst"], ())
        if "adtbits" in c:
            t = body["types"][c["ty"]]
            a = self.P.adts.get(t.get("d"))
            if a and a["enum"] and not any(v["f"] for v in a["v"]):
                for i, v in enumerate(a["v"]):
                    if v["d"] == c["adtbits"] or v["d"] % 256 == c["adtbits"]:
                        return ("a", "A:" + t["d"], i, ())
        if "bytes" in c:
            return ('const', 'b:' + c["bytes"], (body["types"][c["ty"]]["s"],))
        return ('const', c.get("opaque") or c.get("adtbits") or '?', (body["types"][c["ty"]]["s"],))

    def targ(self, body, a):
        return strip_lt(body["types"][a]["s"]) if isinstance(a, int) else a

    def fnval(self, callee):
        key = callee.get("inst") or (callee["def"] + str(callee["args"]))
        self.fns[key] = callee
        return ('fn', key)

    def constbody(self, bid):
        if bid in self.consts:
            return self.consts[bid]
        b = self.P.bodies.get(bid)
        if b is None:
            return ('const', bid, ())
        self.consts[bid] = ('const', bid, ())
        saved = (self.on_call, self.on_branch, self.on_mutate, self.on_enter)
        self.on_call = self.on_branch = self.on_mutate = self.on_enter = None
        st = State()
        try:
            outs = self.run_body(b, [], st, frame=('K', bid), keep=True)
        finally:
            self.on_call, self.on_branch, self.on_mutate, self.on_enter = saved
        if len(outs) == 1:
            st2, v = outs[0]
            v = self.inline_consts(st2, v)
            self.consts[bid] = v
            for k, val in st2.mem.items():
                if k[0] == 'K':
                    self.kmem[k] = val
        return self.consts[bid]
    kmem = {}

    def inline_consts(self, st, v):
        return v

    def operand(self, st, fr, op, body):
        if op[0] == 'k':
            return self.const(st, fr, op[1], body)
        if op[0] == 'rc':
            return FALSE
        obj, path = self.place(st, fr, op[1])
        return self.readk(st, obj, path)

    def readk(self, st, obj, path):
        if obj[0] == 'K' and obj not in st.mem and obj in self.kmem:
            st.mem[obj] = self.kmem[obj]
        return self.read(st, obj, path)

    def discr_of(self, st, v, tid, body):
        if v[0] == 'o':
            v = v[1]
        if v[0] == 'a' and v[1].startswith('A:'):
            a = self.P.adts.get(v[1][2:])
            if a and a["enum"]:
                return ('i', a["v"][v[2]]["d"])
            return ('i', v[2] or 0)
        a = self.P.adts.get(body["types"][tid].get("d")) if body else None
        if a and a["enum"] and len(a["v"]) <= 4:
            self.discrs[('d', v)] = frozenset(x["d"] for x in a["v"])
        return ('d', v)

    def ints(self, name, t):
        return t

    def binop(self, op, a, b):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        w = op.endswith("WithOverflow")
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y),
                     "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y),
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y,
                     "Div": lambda: int(x / y) if y else None, "Rem": lambda: x % y if y and x >= 0 and y > 0 else None}[base]()
                if r is not None:
                    return ('a', 'T', 0, (('i', r), FALSE)) if w else ('i', r)
            except KeyError:
                pass
        if base in ("Eq", "Ne") and a == b and a[0] != 'u':
            return ('i', int(base == "Eq"))
        if base in ("Lt", "Gt") and a == b and a[0] != 'u':
            return FALSE
        if base in ("BitAnd", "BitOr"):
            for p, q in ((a, b), (b, a)):
                if p == FALSE and base == "BitAnd":
                    return FALSE
                if p == TRUE and base == "BitAnd":
                    return q
                if p == FALSE and base == "BitOr":
                    return q
        if base == "Ne":
            return ('un', 'Not', self.binop("Eq", a, b))
        if base == "Gt":
            return ('bin', 'Lt', b, a)
        if base == "Ge":
            return ('un', 'Not', ('bin', 'Lt', a, b))
        if base == "Le":
            return ('un', 'Not', ('bin', 'Lt', b, a))
        if base in ("Eq", "Add", "Mul", "BitAnd", "BitOr", "BitXor") and repr(b) < repr(a):
            a, b = b, a
        t = cap(('bin', base, a, b))
        if w:
            return ('a', 'T', 0, (t, cap(('ovf', base, a, b))))
        return t

    def rvalue(self, st, fr, rv, body):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1], body)
        if k == "ref":
            obj, path = self.place(st, fr, rv[2])
            return self.mkref(obj, path, rv[1])
        if k == "ptr":
            obj, path = self.place(st, fr, rv[2])
            return self.mkref(obj, path, rv[1] == "Mut")
        if k == "agg":
            ks = rv[1]
            ops = tuple(self.operand(st, fr, o, body) for o in rv[2])
            if ks[0] == "adt":
                if ks[3] is not None:
                    return ('a', 'A:' + ks[1], ks[2], ops)
                return ('a', 'A:' + ks[1], ks[2], ops)
            if ks[0] == "tuple":
                return ('a', 'T', 0, ops)
            if ks[0] == "array":
                return ('a', 'R', 0, ops)
            if ks[0] == "closure":
                return ('a', 'C:' + ks[2], 0, ops)
            if ks[0] == "rawptr":
                return ops[0] if ops else ('u', 'rawptr')
            return ('u', 'agg')
        if k == "discr":
            obj, path = self.place(st, fr, rv[1])
            return self.discr_of(st, self.readk(st, obj, path), rv[2], body)
        if k == "bin":
            a = self.operand(st, fr, rv[2], body)
            b = self.operand(st, fr, rv[3], body)
            return self.binop(rv[1], a, b)
        if k == "un":
            v = self.operand(st, fr, rv[2], body)
            if rv[1] == "Not":
                if v in (TRUE, FALSE):
                    return ('i', 1 - v[1])
                if v[0] == 'un' and v[1] == 'Not':
                    return v[2]
                return ('un', 'Not', v)
            if rv[1] == "Neg" and v[0] == 'i':
                return ('i', -v[1])
            if rv[1] == "PtrMetadata":
                return ('len', self.argterm(st, v))
            return cap(('un', rv[1], v))
        if k == "cast":
            v = self.operand(st, fr, rv[2], body)
            kind = rv[1]
            f, t = body["types"][rv[3]]["s"], body["types"][rv[4]]["s"]
            if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind == "BoxDerefTransmute" or kind.startswith("FnPtr"):
                return v
            if v[0] == 'i' and kind == "IntToInt":
                return ('i', wrap(v[1], t))
            if f == t:
                return v
            if kind == "Transmute" and (v[0] == '&' or t.startswith("*") or t.startswith("&") or 'NonNull' in t):
                return v
            if v[0] == 'd':
                return v
            return cap(('cast', strip_lt(f), strip_lt(t), v))
        if k == "repeat":
            v = self.operand(st, fr, rv[1], body)
            if rv[2] is not None and rv[2] <= 8:
                return ('a', 'R', 0, (v,) * rv[2])
            return ('rep', v, rv[2])
        if k == "tls":
            return ('const', rv[1], ())
        return ('u', k)

    # --------------------------------------------------------------- control
    def liveness(self, body):
        if "live" in body:
            return body["live"]
        n = len(body["blocks"])
        use, deff, succ = [set() for _ in range(n)], [set() for _ in range(n)], [[] for _ in range(n)]
        taken = set()
        def pl(p, u, d):
            u.add(p[0]) if p[0] not in d else None
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])
        def op(o, u, d):
            if o[0] in ('c', 'm'):
                pl(o[1], u, d)
        def dst(p, u, d):
            if p[1]:
                pl(p, u, d)
            else:
                d.add(p[0])
        for i, (sts, t) in enumerate(body["blocks"]):
            u, d = use[i], deff[i]
            for s in sts:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] in ("use", "repeat"):
                        op(rv[1], u, d)
                    elif rv[0] in ("ref", "ptr"):
                        pl(rv[2], u, d)
                        if not (rv[2][1] and rv[2][1][0] == '*'):
                            taken.add(rv[2][0])
                    elif rv[0] == "agg":
                        for o in rv[2]:
                            op(o, u, d)
                    elif rv[0] == "discr":
                        pl(rv[1], u, d)
                    elif rv[0] == "bin":
                        op(rv[2], u, d); op(rv[3], u, d)
                    elif rv[0] == "un":
                        op(rv[2], u, d)
                    elif rv[0] == "cast":
                        op(rv[2], u, d)
                    dst(s[1], u, d)
                elif s[0] == 'setd':
                    pl(s[1], u, d)
            k = t["k"]
            if k == "switch":
                op(t["op"], u, d)
                succ[i] = [x[1] for x in t["v"]] + [t["o"]]
            elif k in ("goto", "drop"):
                succ[i] = [t["t"]]
                if k == "drop":
                    pass
            elif k == "call":
                op(t["f"], u, d)
                for a in t["a"]:
                    op(a, u, d)
                dst(t["d"], u, d)
                if t["t"] is not None:
                    succ[i] = [t["t"]]
            elif k == "assert":
                op(t["c"], u, d)
                succ[i] = [t["t"]]
            elif k == "return":
                u.add(0) if 0 not in d else None
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in succ[i]:
                    out |= live[s]
                new = use[i] | (out - deff[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        preds = [0] * n
        for i in range(n):
            for s in succ[i]:
                preds[s] += 1
        body["live"] = (live, taken, preds)
        return body["live"]

    def clean(self, st, fr, body, bb):
        live, taken, preds = self.liveness(body)
        lv = live[bb]
        for k in [k for k in st.mem if k[0] == fr[0] and k[1] == fr[1]]:
            if k[2] not in lv and k[2] not in taken:
                del st.mem[k]
        self.gc(st)

    def gc(self, st):
        """Drop facts (and external objects) about terms nothing refers to."""
        xs = [k for k in st.mem if k[0] == 'X' and any(t[:1] == ('call',) for t in subterms(k[1]))]
        if xs:
            alive = set()
            for k, v in st.mem.items():
                if k not in xs:
                    alive |= subterms(v)
                    alive |= subterms(k)
            work = True
            rest = set(xs)
            while work:
                work = False
                for k in list(rest):
                    if k[1] in alive:
                        alive |= subterms(st.mem[k])
                        alive |= subterms(k[1])
                        rest.discard(k)
                        work = True
            for k in rest:
                del st.mem[k]
        bs = [k for k in st.mem if k[0] == 'B']
        if len(bs) > 1:
            # boxes that nothing points to any more
            alive, rest, work = set(), set(bs), True
            for k, v in st.mem.items():
                if k not in rest:
                    alive |= subterms(v)
            while work:
                work = False
                for k in list(rest):
                    if k in alive:
                        alive |= subterms(st.mem[k])
                        rest.discard(k)
                        work = True
            for k in rest:
                del st.mem[k]
        if st.facts:
            alive = set()
            for k, v in st.mem.items():
                alive |= subterms(v)
                alive |= subterms(k)
            for t in list(st.facts):
                if t in alive:
                    continue
                x = t[1] if t[0] == 'd' else t
                if x in alive or x[0] == 'p':
                    continue
                if self.keep_fact and self.keep_fact(t) or self.keep_value and self.keep_value(t, st.facts[t]):
                    continue
                # a fact about a term built from live non-parameter terms may be asked again
                if x[0] in ('f', '*') and any(s[:1] == ('p',) for s in subterms(x)) and depth(x) < 8 and not any(s[:1] == ('call',) for s in subterms(x)):
                    continue
                del st.facts[t]

    def run_body(self, body, args, st, frame=None, keep=False):
        d = len(self.stack)
        if d > 80:
            raise Limit("call depth")
        fr = frame or ('L', d)
        self.stack.append(body["id"])
        self.visited.add(body["def"])
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fr[0], fr[1], i + 1)] = a
        out = []
        outkeys = set()
        seen = {}
        first = {}
        work = [(0, st)]
        try:
            self.explore(body, fr, work, d, seen, first, out, outkeys, keep)
        except Limit as e:
            if d:
                raise
            # the paths that did come to an end are still paths of the function
            GAVE_UP.append(str(e))
            del self.stack[1:]
        self.stack.pop()
        return out

    def explore(self, body, fr, work, d, seen, first, out, outkeys, keep):
        while work:
            bb, s = work.pop()
            self.steps += 1
            if self.steps > self.max_states:
                raise Limit("state budget exceeded in %s" % body["def"])
            blk = body["blocks"][bb]
            self.cur = bb
            self.clean(s, fr, body, bb)
            if self.liveness(body)[2][bb] > 1:
                k = s.key()
                ss = seen.setdefault(bb, set())
                if k in ss:
                    continue
                if len(ss) >= 4 and self.widen(s, fr, bb, first[bb]):
                    k = s.key()
                    if k in ss:
                        continue
                ss.add(k)
                first.setdefault(bb, dict(s.mem))
            for x in self.block(body, fr, bb, blk, s):
                if x[0] == 'ret':
                    _, s2, v = x
                    if not keep:
                        for k in [k for k in s2.mem if k[0] == fr[0] and k[1] == fr[1]]:
                            del s2.mem[k]
                        for k in [k for k in s2.mem if k[0] == 'T' and k[1] >= d]:
                            if not any(contains(v, k) for _ in (0,)):
                                del s2.mem[k]
                    kk = (s2.key(), v)
                    if kk not in outkeys:
                        outkeys.add(kk)
                        out.append((s2, v))
                else:
                    work.append(x)

    def widen(self, st, fr, bb, first):
        """Too many states at a join: forget counters and growing terms."""
        hit = False
        for k in list(st.mem):
            if k[0] != fr[0] or k[1] != fr[1] or k not in first:
                continue
            v, v0 = st.mem[k], first[k]
            if v == v0:
                continue
            n = self.wjoin(v, v0, (k[2], bb))
            if n != v:
                st.mem[k] = n
                hit = True
        if hit:
            for t in list(st.facts):
                if any(x[:1] == ('w',) and x[2] == bb for x in subterms(t)):
                    del st.facts[t]
        return hit

    def wjoin(self, v, v0, w):
        if v == v0 or v[0] == 'w':
            return v
        if v[0] == 'a' and v0[0] == 'a' and v[:3] == v0[:3] and len(v[3]) == len(v0[3]):
            return ('a', v[1], v[2], tuple(self.wjoin(x, y, w + (i,)) for i, (x, y) in enumerate(zip(v[3], v0[3]))))
        if (v[0] == 'i' and v[1] >= 3) or (v[0] == 'bin' and v[1] in ('Add', 'Sub', 'Mul') and
                                           (depth(v) > 3 or any(x[:1] == ('w',) for x in subterms(v)))):
            return ('w', w, w[1])
        return v

    def site(self, body, t):
        return {"fn": body["def"], "sp": t.get("sp"), "stack": list(self.stack)}

    def block(self, body, fr, bb, blk, st):
        for s in blk[0]:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2], body)
                pl = s[1]
                if not pl[1]:
                    st.mem[(fr[0], fr[1], pl[0])] = v
                else:
                    obj, path = self.place(st, fr, pl)
                    self.write(st, obj, path, v)
            elif s[0] == 'dead':
                st.mem.pop((fr[0], fr[1], s[1]), None)
            elif s[0] == 'setd':
                pass
        t = blk[1]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "drop":
            return [(t["t"], st)]
        if k == "return":
            v = st.mem.get((fr[0], fr[1], 0), UNIT)
            return [('ret', st, v)]
        if k == "switch":
            return self.switch(body, fr, t, st)
        if k == "assert":
            c = self.operand(st, fr, t["c"], body)
            if self.on_assert:
                self.on_assert(self, st, t["m"], c, self.site(body, t))
            if c[0] == 'i' and bool(c[1]) != t["e"]:
                self.panics.append((st, self.site(body, t), "assert:" + t["m"]))
                return []
            return [(t["t"], st)]
        if k == "call":
            return self.call_term(body, fr, t, st)
        return []

    # Wide dispatch: arms that are the same code up to their payload type and
    # variant number form one class; one representative per class is explored.
    def prims(self):
        p = getattr(self.P, "_prims", None)
        if p is None:
            p = {}
            for n, a in self.P.adts.items():
                if n.endswith("::DynTpPrimitive") and a["enum"]:
                    for v in a["v"]:
                        if v["f"]:
                            p[v["n"]] = strip_lt(a["types"][v["f"][0]["t"]]["s"])
            self.P._prims = p
        return p

    def arm_classes(self, body, bb, t):
        cache = body.setdefault("arms", {})
        if bb in cache:
            return cache[bb]
        names = self.variant_names(body, bb, t)
        prims = self.prims()
        blocks = body["blocks"]
        def succs(b):
            x = blocks[b][1]
            k = x["k"]
            if k == "switch":
                return [y[1] for y in x["v"]] + [x["o"]]
            if x.get("t") is not None:
                return [x["t"]]
            return []
        reach = {}
        tgts = [y[1] for y in t["v"]]
        for tg in set(tgts):
            seen, w = set(), [tg]
            while w:
                b = w.pop()
                if b in seen:
                    continue
                seen.add(b)
                w += succs(b)
            reach[tg] = seen
        doms = {}
        for tg in set(tgts):
            seen, w = set(), [0]
            while w:
                b = w.pop()
                if b in seen or b == tg:
                    continue
                seen.add(b)
                w += succs(b)
            doms[tg] = reach[tg] - seen
        classes, rep = {}, {}
        for val, tg in t["v"]:
            own = doms[tg]
            ty = prims.get(names.get(val, ""))
            key = self.canon_arm(body, tg, own, ty, val)
            classes.setdefault(key, val)
            rep[val] = classes[key]
        cache[bb] = rep
        return rep

    def variant_names(self, body, bb, t):
        # the adt whose discriminant is switched on
        op = t["op"]
        if op[0] in ('c', 'm') and not op[1][1]:
            for s in reversed(body["blocks"][bb][0]):
                if s[0] == '=' and s[1] == [op[1][0], []] and s[2][0] == 'discr':
                    ty = body["types"][s[2][2]]
                    a = self.P.adts.get(ty.get("d"))
                    if a:
                        return {v["d"]: v["n"] for v in a["v"]}
        return {}

    def variant_counts(self, body, pl):
        """Variant counts of the enums a place passes through."""
        tid = body["locals"][pl[0]]
        for e in pl[1]:
            ty = body["types"][tid]
            if e == '*':
                if ty["k"] in ("ref", "ptr"):
                    tid = ty["a"][0]
                    continue
                return
            if isinstance(e, list) and e[0] == 'f':
                tid = e[2]
            elif isinstance(e, list) and e[0] == 'v':
                a = self.P.adts.get(ty.get("d"))
                if a:
                    yield len(a["v"])
            else:
                return

    def canon_arm(self, body, tg, own, ty, val):
        types = body["types"]
        lid, bid = {}, {}
        out = []
        esc = re.escape(ty) if ty else None
        def ct(s):
            s = strip_lt(s)
            while "{closure" in s:
                s2 = re.sub(r"\{closure[#@][^{}]*\}", "<closure>", s)
                s2 = re.sub(r"(<closure>[^{}]*)\{([^{}]*)\}", r"\1\2", s2)
                if s2 == s:
                    break
                s = s2
            return re.sub(r"(?<![\w:])" + esc + r"(?![\w])", "\u03c4", s) if esc else s
        def loc(l):
            if l not in lid:
                lid[l] = len(lid)
                lt = types[body["locals"][l]]["s"]
                return ("n", lid[l], "#" if lt in BITS or (ty and strip_lt(lt) == ty) else ct(lt), l if l <= body["argc"] else -1)
            return lid[l]
        def blk(b):
            if b is None:
                return None
            if b not in own:
                return ("join", b)
            if b not in bid:
                bid[b] = len(bid)
                todo.append(b)
            return bid[b]
        skip = {"sp", "inst", "span"}
        def walk(x, key=None):
            if isinstance(x, dict):
                if x.get("closure"):
                    return ("closure-call", x.get("trait"))
                return tuple((k, walk(v, k)) for k, v in sorted(x.items()) if k not in skip)
            if isinstance(x, list):
                if key in ("args", "rargs"):
                    return tuple(ct(types[a]["s"]) if isinstance(a, int) and not isinstance(a, bool) else a for a in x)
                return tuple(walk(v) for v in x)
            if isinstance(x, str):
                return ct(x)
            if key == "ty":
                return ct(types[x]["s"])
            return x
        def wide(pl):
            return any(n > 6 for n in self.variant_counts(body, pl))
        def place(pl):
            r = []
            for e in pl[1]:
                if isinstance(e, list) and e[0] == 'f':
                    r.append(('f', e[1]))
                elif isinstance(e, list) and e[0] == 'v':
                    r.append(('v', '\u03ba' if e[1] == val and wide(pl) else e[1]))
                elif isinstance(e, list) and e[0] == 'i':
                    r.append(('i', loc(e[1])))
                else:
                    r.append(walk(e))
            return (loc(pl[0]), tuple(r))
        def oper(o):
            if o[0] in ('c', 'm'):
                return (o[0], place(o[1]))
            return walk(o)
        def rval(rv):
            k = rv[0]
            if k in ("ref", "ptr"):
                return (k, rv[1], place(rv[2]))
            if k == "use":
                return (k, oper(rv[1]))
            if k == "agg":
                ks = rv[1]
                if ks[0] == "adt":
                    a = self.P.adts.get(ks[1])
                    kk = ("adt", ks[1], '\u03ba' if a and len(a["v"]) > 6 and ks[2] == val else ks[2])
                elif ks[0] == "closure" and ks[2] in self.P.bodies:
                    cb = self.P.bodies[ks[2]]
                    kk = ("closure", self.canon_arm(cb, 0, set(range(len(cb["blocks"]))), ty, val))
                else:
                    kk = walk(ks)
                return (k, kk, tuple(oper(o) for o in rv[2]))
            if k == "discr":
                return (k, place(rv[1]))
            if k == "bin":
                return (k, rv[1], oper(rv[2]), oper(rv[3]))
            if k == "un":
                return (k, rv[1], oper(rv[2]))
            if k == "cast":
                return (k, rv[1], oper(rv[2]), ct(types[rv[3]]["s"]), ct(types[rv[4]]["s"]))
            if k == "repeat":
                return (k, oper(rv[1]), rv[2])
            return walk(rv)
        todo = []
        first = blk(tg)
        out.append(first)
        while todo:
            b = todo.pop(0)
            sts, t = body["blocks"][b]
            for s in sts:
                if s[0] == '=':
                    out.append(("=", place(s[1]), rval(s[2])))
            k = t["k"]
            if k == "goto":
                out.append((k, blk(t["t"])))
            elif k == "drop":
                out.append((k, blk(t["t"])))
            elif k == "switch":
                out.append((k, oper(t["op"]), tuple(('\u03ba' if x[0] == val and len(t["v"]) == 1 and len(self.variant_names(body, b, t)) > 6 else x[0], blk(x[1])) for x in t["v"]), blk(t["o"])))
            elif k == "call":
                out.append((k, oper(t["f"]), tuple(oper(a) for a in t["a"]), place(t["d"]), blk(t["t"])))
            elif k == "assert":
                out.append((k, t["m"], oper(t["c"]), t["e"], blk(t["t"])))
            else:
                out.append((k,))
        return tuple(out)

    def is_dead(self, body, bb):
        sts, t = body["blocks"][bb]
        return not [s for s in sts if s[0] != 'dead'] and t["k"] == "unreachable"

    def switch(self, body, fr, t, st):
        v = self.operand(st, fr, t["op"], body)
        flip = False
        tk = body["types"][t["ty"]]["s"]
        if tk == "bool":
            while v[0] == 'un' and v[1] == 'Not':
                v = v[2]
                flip = not flip
        if v[0] == 'i':
            n = v[1] if not flip else 1 - v[1]
            for val, tgt in t["v"]:
                if val == n:
                    return [(tgt, st)]
            return [(t["o"], st)]
        cases = []   # (value, target)
        vals = [x[0] for x in t["v"]]
        f = self.known(st, v)
        outs = []
        if tk == "bool":
            arms = {0: None, 1: None}
            for val, tgt in t["v"]:
                arms[val] = tgt
            for val in (0, 1):
                if arms[val] is None:
                    arms[val] = t["o"]
            for val in (0, 1):
                real = 1 - val if flip else val
                if f and ((f[0] == '=' and f[1] != real) or (f[0] == '!=' and real in f[1])):
                    continue
                outs.append((real, arms[val]))
        else:
            rep = self.arm_classes(body, self.cur, t) if len(vals) >= 6 and self.fold else None
            for val, tgt in t["v"]:
                if f and ((f[0] == '=' and f[1] != val) or (f[0] == '!=' and val in f[1])):
                    continue
                if rep and rep[val] != val and not (f and f[0] == '='):
                    self.folded += 1
                    continue
                outs.append((val, tgt))
            if not (f and f[0] == '=' and f[1] in vals) and not self.is_dead(body, t["o"]):
                if f and f[0] == '=':
                    outs.append((f[1], t["o"]))
                else:
                    outs.append((('!=', frozenset(vals) | (f[1] if f else frozenset())), t["o"]))
        res = []
        for val, tgt in outs:
            s = st.copy() if len(outs) > 1 else st
            self.assume(s, v, val)
            if s.trace is None:
                continue
            if self.on_branch:
                if self.on_branch(self, s, v, val, self.site(body, t)) is False:
                    continue
            res.append((tgt, s))
        return res

    def known(self, s, v):
        """what is known of a value that is branched on"""
        f = s.facts.get(v)
        if f is None and v[0] == 'bin' and v[1] == 'Eq':
            for p, q in ((v[2], v[3]), (v[3], v[2])):
                if q[0] == 'i' and p[0] != 'i':
                    g = s.facts.get(p)
                    if g and g[0] == '=' and not isinstance(g[1], (tuple, frozenset)):
                        return ('=', int(g[1] == q[1]))
                    if g and g[0] == '!=' and q[1] in g[1]:
                        return ('=', 0)
        return f

    def assume(self, s, v, val):
        if isinstance(val, tuple):
            all_ = self.discrs.get(v)
            rest = all_ - val[1] if all_ and val[0] == '!=' else ()
            s.facts[v] = ('=', next(iter(rest))) if len(rest) == 1 else val
        else:
            s.facts[v] = ('=', val)
        # (in)equality with a known discriminant or constant
        if v[0] == 'bin' and v[1] == 'Eq' and val in (0, 1):
            for p, q in ((v[2], v[3]), (v[3], v[2])):
                if q[0] == 'i' and p[0] != 'i':
                    if val == 1:
                        s.facts[p] = ('=', q[1])
                    elif p[0] == 'd':
                        g = s.facts.get(p)
                        if not g or g[0] == '!=':
                            self.assume(s, p, ('!=', frozenset([q[1]]) | (g[1] if g else frozenset())))

    # ----------------------------------------------------------------- calls
    def call_term(self, body, fr, t, st):
        self.callsites += 1
        f = t["f"]
        args = [self.operand(st, fr, a, body) for a in t["a"]]
        atys = [self.optype(body, a) for a in t["a"]]
        site = self.site(body, t)
        site["diverges"] = t["t"] is None
        if f[0] == 'k' and "fn" in f[1]:
            callee = f[1]["fn"]
            outs = self.call(st, callee, args, body, site, atys, t)
        else:
            fv = self.operand(st, fr, f, body)
            outs = self.call_value(st, fv, args, body, site)
            if outs is None:
                outs = [(st, ('call', 'dyn', (), tuple(self.argterm(st, x) for x in [fv] + args)))]
        if t["t"] is None:
            for s, v in outs:
                self.panics.append((s, site, self.callee_name(callee) if f[0] == 'k' and "fn" in f[1] else "dyn"))
            return []
        res = []
        for s, v in outs:
            obj, path = self.place(s, fr, t["d"])
            if path:
                self.write(s, obj, path, v)
            else:
                s.mem[obj] = v
            res.append((t["t"], s))
        return res

    def optype(self, body, op):
        if op[0] == 'k':
            return body["types"][op[1]["ty"]]
        if op[0] == 'rc':
            return {"k": "prim", "s": "bool"}
        tid = body["locals"][op[1][0]]
        for e in op[1][1]:
            if isinstance(e, list) and e[0] == 'f':
                tid = e[2]
            elif e == '*':
                ty = body["types"][tid]
                if ty["k"] in ("ref", "ptr"):
                    tid = ty["a"][0]
                else:
                    return {"k": "other", "s": "?"}
            elif isinstance(e, list) and e[0] in ('i', 'ci'):
                ty = body["types"][tid]
                if ty["k"] in ("array", "slice"):
                    tid = ty["a"][0]
                else:
                    return {"k": "other", "s": "?"}
        return body["types"][tid]

    def callee_name(self, callee):
        return norm_name(callee.get("rdef") or callee["def"])

    def call(self, st, callee, args, body, site, atys=None, t=None):
        """-> list of (state, value)"""
        name = self.callee_name(callee)
        targs = tuple(self.targ(body, a) for a in callee.get("rargs", callee["args"]))
        site["callee"] = name
        if self.on_call:
            r = self.on_call(self, st, callee, name, targs, args, site)
            if r is not None:
                return r
        tr = callee.get("trait", "")
        if tr in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce", "std::ops::function::Fn"):
            tup = args[1] if len(args) > 1 else UNIT
            fargs = list(tup[3]) if tup[0] == 'a' else [tup]
            outs = self.call_value(st, args[0], fargs, body, site)
            if outs is not None:
                return outs
        p = self.primitive(st, callee, name, targs, args, body, site)
        if p is not None:
            return p
        inst = callee.get("inst")
        b = self.P.bodies.get(inst) if inst else None
        if b is None and not inst and tr:
            # a provided method that no implementation in the workspace overrides
            b = self.provided(callee, tr)
            inst = b and b["id"]
        if b is not None and not callee.get("shim") and self.stack.count(inst) < 2 \
                and not (self.opaque and self.opaque(name)):
            if b["argc"] == len(args):
                if self.on_enter:
                    self.on_enter(self, st, callee, name, targs, args, site)
                return self.run_body(b, args, st)
        return self.opaque_call(st, callee, name, targs, args, atys, site)

    def provided(self, callee, tr):
        d = callee["def"]
        if d not in self._prov:
            b = self.P.body(d) if d in self.P.items and tr.startswith("tp_client::") else None
            m = d.rsplit("::", 1)[-1]
            if b is not None and any((im.get("trait") or "").rsplit("::", 1)[-1] == tr.rsplit("::", 1)[-1] and
                                     any(x["n"] == m for x in im["items"]) for im in self.P.impls):
                b = None
            self._prov[d] = b
        return self._prov[d]

    def opaque_call(self, st, callee, name, targs, args, atys, site):
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        outs = [st]
        # closures handed to unknown code may run, any number of times
        clos = [a for a in args if self.has_closure(st, a)]
        if clos:
            outs = self.maybe_run(st, clos, args, site)
        res = []
        for s in outs:
            terms = tuple(self.argterm(s, a) for a in args)
            if name == callee["def"] and callee.get("unresolved"):
                nm = name
            else:
                nm = name
            v = cap(('call', nm, targs, terms))
            mut = False
            for i, a in enumerate(args):
                ty = atys[i] if atys and i < len(atys) else None
                if ty is not None and ty["k"] in ("ref", "ptr"):
                    if ty.get("m"):
                        mut = True
                        self.havoc(s, a, name)
                else:
                    for r in self.mutrefs(a):
                        mut = True
                        self.havoc(s, r, name)
            if mut or IMPURE.search(name):
                self.fresh(s, v)
            res.append((s, v))
        return res

    def mutrefs(self, v):
        if v[0] == '&':
            return [v] if v[3] else []
        if v[0] in ('a',):
            return [r for x in v[3] for r in self.mutrefs(x)]
        if v[0] == 'call':
            return [r for x in v[3] if isinstance(x, tuple) and x and x[0] == 'a' for r in self.mutrefs(x)]
        return []

    def havoc(self, st, ref, name):
        o, p = self.deref(ref)
        old = self.read(st, o, p)
        short = name.rsplit("::", 1)[-1]
        if old[0] == 'mut':
            new = old
        else:
            new = ('mut', old)
        self.write(st, o, p, new, how=name)

    def fresh(self, st, term):
        """`term` is produced again: earlier occurrences are a different value."""
        hit = False
        old = ('old', term)
        for k in list(st.mem):
            v = st.mem[k]
            if contains(v, term):
                st.mem[k] = rename(v, term, old)
                hit = True
            if contains(k, term):
                val = st.mem.pop(k)
                k2 = rename(k, term, old)
                st.mem[k2] = rename(val, term, old)
        for t in list(st.facts):
            if contains(t, term):
                del st.facts[t]

    def has_closure(self, st, v, n=0):
        if v[0] == 'a':
            if v[1].startswith('C:'):
                return True
            return any(self.has_closure(st, x, n + 1) for x in v[3]) if n < 5 else False
        if v[0] == 'call' and n < 8:
            return any(self.has_closure(st, x, n + 1) for x in v[3])
        return False

    def maybe_run(self, st, clos, args, site):
        """States after running each closure 0..n times on unknown arguments."""
        done = {}
        work = [st]
        while work:
            s = work.pop()
            k = s.key()
            if k in done:
                continue
            done[k] = s
            for c in self.closures_in(s, clos):
                b = self.closure_body(c)
                if b is None:
                    continue
                fargs = [('u', 'closure-arg%d' % i) for i in range(b["argc"] - 1)]
                outs = self.call_value(s.copy(), c, fargs, None, site)
                for s2, _ in outs or []:
                    work.append(s2)
        return [s.copy() for s in done.values()]

    def closures_in(self, st, vs):
        r = []
        for v in vs:
            if v[0] == 'a' and v[1].startswith('C:'):
                r.append(v)
            elif v[0] == 'a':
                r += self.closures_in(st, v[3])
            elif v[0] == 'call':
                r += self.closures_in(st, [x for x in v[3] if isinstance(x, tuple)])
        return r

    def closure_body(self, c):
        return self.P.bodies.get(c[1][2:])

    def call_value(self, st, f, args, body, site):
        """Call a closure or fn-item value; None when unknown."""
        ref = None
        v = f
        n = 0
        while n < 6:
            if v[0] == '&':
                ref = v
                v = self.read(st, v[1], v[2])
            elif ('X', v) in st.mem and v[0] != 'a':
                ref = v
                v = st.mem[('X', v)]
            elif v[0] == 'ref':
                v = v[1]
                ref = None
            elif v[0] == 'call' and v[1] == 'box':
                v = v[3][0]
            else:
                break
            n += 1
        if v[0] == 'fn':
            callee = self.fns[v[1]]
            b = self.P.bodies.get(callee.get("inst")) if callee.get("inst") else None
            return self.call(st, callee, args, b or body, site)
        if v[0] == 'a' and v[1].startswith('C:'):
            b = self.closure_body(v)
            if b is None or self.stack.count(b["id"]) >= 2:
                return None
            selfty = b["types"][b["locals"][1]]
            if selfty["k"] == "ref":
                if ref is None:
                    self.tmp += 1
                    obj = ('T', len(self.stack), v[1])
                    st = st.copy()
                    st.mem[obj] = v
                    ref = ('&', obj, (), True)
                a0 = ref
            else:
                a0 = v
            if b["argc"] != 1 + len(args):
                if b["argc"] == 2 and len(args) != 1:
                    args = [('a', 'T', 0, tuple(args))]
                else:
                    return None
            return self.run_body(b, [a0] + list(args), st)
        return None

    # ------------------------------------------------------------ primitives
    def primitive(self, st, callee, name, targs, args, body, site):
        from . import prims
        return prims.primitive(self, st, callee, name, targs, args, body, site)

    def run(self, defpath_or_body, args=None, st=None):
        b = defpath_or_body if isinstance(defpath_or_body, dict) else self.P.body(defpath_or_body)
        if b is None:
            raise KeyError(defpath_or_body)
        if args is None:
            args = [('p', i) for i in range(b["argc"])]
        self.stack = []
        return self.run_body(b, args, st or State())

BITS = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0), "i64": (64, 1),
        "u64": (64, 0), "isize": (64, 1), "usize": (64, 0), "i128": (128, 1), "u128": (128, 0), "bool": (1, 0), "char": (32, 0)}
def wrap(n, t):
    if t not in BITS:
        return n
    b, s = BITS[t]
    n &= (1 << b) - 1
    if s and n >> (b - 1):
        n -= 1 << b
    return n
