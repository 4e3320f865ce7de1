"""C22: the circle game shows every circle where its object's states say."""
import re, struct, itertools
from sa.spec import *
from sa import model, prims
from sa.interp import UNIT, OPTION
from sa.show import show

META = {
 "level": "proof",
 "rule": "The game's systems are found by their signatures and interpreted for an arbitrary world: the set-up system for every cell of its loops, the "
         "walking and the drawing system for an arbitrary entity of their query, with everything the workspace defines inlined down to the "
         "operations of the baseline.  Each loop iteration is judged when the next element is taken: which states and which parts of the picture "
         "it has written, with which values.  The places of the grid are computed by evaluating the coordinate expressions for all cells; the "
         "size of a step by interval arithmetic.  The app is interpreted as the list of resources and systems it registers.",
 "trusted": ["bevy runs a registered system on every entity that has the queried components", "rand::random::<f32>() lies in [0, 1)",
             "lyon draws a shape at the transform it is built with"],
}
G = "circle_game::"
KIND = "tp_client::baseline::BaselineKind"
ENG, CIRCLE = "tp_client::engine::Engine", G + "circle::Circle"
POS, WKIND, WOBJ = G + "components::PosHandle", G + "components::BaselineKind", G + "components::ObjectHandle"
BUNDLE = G + "circle_bundle::CircleBundle"
TRANSFORM, VEC3 = "bevy_transform::components::transform::Transform", "glam::vec3::Vec3"
API = re.compile(r"^tp_client::(baseline::Baseline|realm::Realm|engine::Engine)::(\w+)$")

def N(t):
    """up to references"""
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        t = peel(t)
        while t[0] == '*' or t[0] == 'moved':
            t = peel(t[1])
    return tuple(N(x) for x in t)

def eq(a, b):
    return N(a) == N(b)

def split(s):
    """top-level parts of a comma list"""
    out, n, cur = [], 0, ""
    for ch in s:
        if ch == "," and n == 0:
            out.append(cur.strip()); cur = ""
            continue
        n += ch in "(<[" and 1 or ch in ")>]" and -1 or 0
        cur += ch
    return out + [cur.strip()] if cur.strip() else out

def query(u):
    """([component types], filter) of a bevy query type"""
    m = re.match(r".*::Query<(.*)>$", u)
    if not m:
        return None
    a = split(m.group(1))
    q = a[0]
    return split(q[1:-1]) if q.startswith("(") else [q], a[1] if len(a) > 1 else "()"

class Sys:
    """What the checks of all systems share."""
    def __init__(self, c):
        self.c, self.P = c, c.P
        P = c.P
        self.vs = {v["n"]: i for i, v in enumerate(P.adts[KIND]["v"])} if KIND in P.adts else {}
        sf = lambda a, n: [i for i, f in enumerate(P.adts[a]["v"][0]["f"]) if f["n"] == n][0]
        try:
            self.fork = ('a', 'A:' + KIND, self.vs["Fork"], ())
            self.px, self.py = sf(POS, "x"), sf(POS, "y")
            self.tr = sf(TRANSFORM, "translation")
            self.nt = len(P.adts[TRANSFORM]["v"][0]["f"])
            self.bk, self.bo, self.bp, self.bs = (sf(BUNDLE, n) for n in ("baseline_kind", "object_handle", "pos_handle", "shape"))
            sadt = G + "circle::States"
            self.si = [i for i, f in enumerate(P.adts[CIRCLE]["v"][0]["f"]) if P.uty(P.adts[CIRCLE]["types"], f["t"]) == sadt][0]
            self.sx, self.sy = sf(sadt, "x"), sf(sadt, "y")
            self.sv = [i for i, f in enumerate(P.adts["tp_client::contract::properties::states::State"]["v"][0]["f"]) if f["n"] == "value"][0]
            self.ok = True
        except (KeyError, IndexError) as e:
            self.ok = False
            c.fail("anchor:components", "the components of the game are not there (%s)" % e)

    def leaf(self, mm, I, st, callee, name, targs, args, site):
        d = callee["def"]
        m = d.rsplit("::", 1)[-1]
        if m in ("deref", "deref_mut") and "bevy_ecs::" in name:
            return [(st, ('f', I.load(st, args[0]), 0, 0))]
        if m in ("into_inner", "as_mut", "as_ref") and "bevy_ecs::" in name:
            v = args[0] if m == "into_inner" else I.load(st, args[0])
            return [(st, ('f', v, 0, 0))]
        if m in ("deref", "deref_mut") and "glam::" in name:
            return [(st, args[0])]
        if re.search(r"glam::(vec3::)?Vec3::new$|glam::(vec3::)?vec3$", d):
            return [(st, ('a', 'A:' + VEC3, 0, tuple(args)))]
        if d.startswith("bevy_transform::") and m == "from_xyz":
            return [(st, ('call', 'transform', (), tuple(I.argterm(st, a) for a in args)))]
        if d.startswith("bevy_transform::") and m == "from_translation" and args[0][0] == 'a':
            return [(st, ('call', 'transform', (), tuple(I.argterm(st, a) for a in args[0][3])))]
        if re.match(r"rand::(random|Rng::gen|rng::Rng::gen|Rng::gen_range|rng::Rng::gen_range)$", d) or re.search(r"rand::.*Rng>?::gen(_range)?$", name):
            lim = UNIT
            if m == "gen_range":
                lim = I.argterm(st, args[1])
            n = min(8, sum(1 for f in st.facts if f[0] == 'rnd'))
            st.facts[('rnd', n)] = ('=', 1)
            return [(st, ('call', 'rnd', (), (lim, ('i', n))))]
        if re.search(r"::Query::<.*>::(for_each|for_each_mut)$", name):
            it = ('call', 'query.iter', (), (I.argterm(st, args[0]),))
            return prims.iterator(I, st, 'for_each', targs, [it, args[1]], None, site)
        x = API.search(d)
        if x:
            t = ('call', 'api.' + x.group(2), tuple(str(y) for y in targs), tuple(I.argterm(st, a) for a in args))
            self.api(I, st, x.group(2), t, args, site)
            return [(st, t)]
        return self.extra(mm, I, st, d, m, name, args, site)

    def api(self, I, st, m, t, args, site):
        if m not in ("realm", "realm_mut", "baseline", "baseline_mut", "state", "state_mut"):
            self.c.ob("no-other-operation:" + self.d, False, "also does %s" % show(t)[:120], self.w)

    def extra(self, *a):
        return None

    def base(self, t, eng):
        """kind term of a baseline of the engine in argument `eng`, or None"""
        t = N(t)
        if t[0] == 'call' and t[1] in ('api.baseline', 'api.baseline_mut'):
            r = t[3][0]
            if r[0] == 'call' and r[1] in ('api.realm', 'api.realm_mut') and eq(r[3][0], ('f', eng, 0, 0)):
                return t[3][1]
        return None

    def cell(self, t, eng):
        """(kind, handle) of the state whose value `t` is"""
        t = N(t)
        if t[0] == 'f' and t[3] == self.sv:
            s = t[1]
            if s[0] == 'f' and s[1][0] == 'call' and s[1][1] in ('api.state', 'api.state_mut'):
                k = self.base(s[1][3][0], eng)
                return k and (k, s[1][3][1])
        return None

class Loop(Sys):
    """A system that treats each entity of its query."""
    def start(self, d, ins):
        self.d, self.w = d, self.c.loc(d)
        self.qi = [i for i, u in enumerate(ins) if query(u)][0]
        self.ei = [i for i, u in enumerate(ins) if ENG in u and not query(u)][0]
        comps, flt = query(ins[self.qi])
        self.comps = [re.sub(r"^&(mut )?", "", x) for x in comps]
        self.eng = ('p', self.ei)
        self.c.ob("every-circle:" + d, flt == "()", "treats only entities with %s" % flt, self.w)
        m = model.Model(self.P, leaf=self.leaf, keep_fact=lambda t: not any(x[:1] == ('old',) for x in subterms(t)))
        m.I.on_mutate = self.mutate
        m.I.on_item = self.item
        m.I.rejects = True
        m.I.on_gone = self.close
        m.I.on_elem = lambda I, st, kind, src, es: self.end(I, st, src) if kind == 'end' else None
        m.I.on_done = self.end
        kinds = []
        m.I.on_iter = lambda I, st, kind, it: kinds.append(kind)
        self.el = None
        outs = [model.Out(s, v, m.I) for s, v in m.run(d)]
        self.c.ob("returns:" + d, outs, "never returns", self.w)
        self.c.ob("every-circle:" + d, self.el is not None and set(kinds) <= {'map', 'filter', 'filter_map', 'inspect', 'by_ref', 'fuse', 'enumerate'},
                  "circles pass through %s" % sorted(set(kinds)), self.w)
        for o in outs:
            self.c.count("paths")
            self.close(m.I, o.st)
            self.c.ob("every-circle:" + d, ('over', 0) in o.facts, "stops before all circles are treated", self.w)
            self.c.ob("no-failure:" + d, o.kind != 'Err', "fails with %s" % show(o.v)[:100], self.w)
        self.c.count("functions")
        return outs

    def end(self, I, st, src):
        if src is not None and any(x == ('p', self.qi) for x in subterms(I.argterm(st, src))):
            st.facts[('over', 0)] = ('=', 1)

    def mine(self, e):
        return e[0] == 'el' and any(x == ('p', self.qi) for x in subterms(e)) and any(x[:1] == ('call',) and ("Query" in str(x[1]) or x[1] == 'query.iter') for x in subterms(e))

    def part(self, comp):
        """the reference to a component of the current entity"""
        i = self.comps.index(comp)
        return ('f', self.el, 0, i) if len(self.comps) > 1 else self.el

    def item(self, I, st, it, e):
        e = I.argterm(st, e)
        if not self.mine(e):
            return
        self.close(I, st)
        self.el = e
        for f in [f for f in st.facts if f[0] in ('set', 'rnd')]:
            del st.facts[f]
        st.facts[('open', 0)] = ('=', 1)

    def done(self, st, what, good):
        st.facts.pop(('set', what, not good), None)
        st.facts[('set', what, good)] = ('=', 1)

    def place(self, obj, path):
        t = ('*', obj[1]) if obj[1][0] != 'ref' else obj[1][1]
        for e in path:
            t = ('f', t, e[1], e[2]) if e[0] == 'f' else ('el', t)
        return t

class Walk(Loop):
    title = "walk"
    def kind(self):
        return N(('f', self.part(WKIND), 0, 0))

    def handle(self, k):
        return N(('f', self.part(POS), 0, k))

    def mutate(self, I, st, obj, path, how, val):
        t = self.place(obj, path)
        if not any(x in (self.eng, ('p', self.qi)) for x in subterms(t)):
            return
        c, w = self.c, self.w
        cell = self.cell(t, self.eng)
        if cell is None and isinstance(val, tuple) and val[0] == 'a' and self.cell(('f', t, 0, self.sv), self.eng):
            cell, t, val = self.cell(('f', t, 0, self.sv), self.eng), ('f', t, 0, self.sv), val[3][self.sv]
        own = cell and self.el and [n for n, k in (("x", self.px), ("y", self.py)) if eq(cell[1], self.handle(k))]
        if not c.ob("only-positions:" + self.d, own and isinstance(val, tuple), "changes %s" % show(t)[:160], w):
            return
        fork = eq(cell[0], self.fork) or eq(cell[0], self.kind()) and self.isfork(I, st)
        c.ob("only-the-fork:" + self.d, fork, "changes a state of %s" % show(cell[0])[:80], w)
        if eq(cell[0], self.fork):
            c.ob("only-fork-circles:" + self.d, self.isfork(I, st), "moves circles that are not known to be of the fork", w)
        v = I.argterm(st, val)
        r = interval(v, lambda x: self.cell(x, self.eng) and eq(self.cell(x, self.eng), cell))
        rn = frozenset(x for x in subterms(v) if x[:2] == ('call', 'rnd'))
        used = {f[2] for f in st.facts if f[0] == 'set' and len(f) == 4 and f[1] == 'used' and f[3] != own[0]}
        c.ob("fresh-step:" + self.d, not (rn & set().union(*used) if used else ()), "x and y move by the same random number", w)
        st.facts[('set', 'used', rn, own[0])] = ('=', 1)
        c.ob("step:" + self.d, r is not None and r[0] == 1 and -1 <= r[1] < 0 < r[2] <= 1,
             "%s becomes %s" % (own[0], show(v)[-160:] if r is None else "itself times %s plus [%s, %s]" % r), w)
        if ('set', own[0], True) in st.facts:
            c.ob("one-step:" + self.d, False, "%s is moved twice" % own[0], w)
        self.done(st, own[0], True)

    def isfork(self, I, st):
        o = model.Out(st, UNIT, I)
        k = ('f', ('*', self.part(WKIND)), 0, 0)
        return any(o.fact(('d', x), self.vs["Fork"]) for x in (k, self.kind()))

    def isother(self, I, st):
        o = model.Out(st, UNIT, I)
        k = ('f', ('*', self.part(WKIND)), 0, 0)
        return any(o.notfact(('d', x), self.vs["Fork"]) or any(o.fact(('d', x), i) for n, i in self.vs.items() if n != "Fork") for x in (k, self.kind()))

    def close(self, I, st):
        if ('open', 0) not in st.facts:
            return
        both = all(('set', n, True) in st.facts for n in "xy")
        self.c.ob("every-circle:" + self.d, both or self.isother(I, st), "a circle of the fork is not moved in x and y", self.w)
        st.facts.pop(('open', 0), None)

class Draw(Loop):
    title = "draw"
    def mutate(self, I, st, obj, path, how, val):
        c, w = self.c, self.w
        t = N(self.place(obj, path))
        if not any(x in (self.eng, ('p', self.qi)) for x in subterms(t)):
            return
        top = N(('f', self.part(TRANSFORM), 0, 0)) if self.el else UNIT
        p, x = (), t
        while x != top and x[0] == 'f':
            p, x = (x[3],) + p, x[1]
        if not c.ob("only-pictures:" + self.d, x == top and isinstance(val, tuple), "changes %s" % show(t)[:160], w):
            return
        v = I.argterm(st, val)
        full = [(self.tr, 0), (self.tr, 1), (self.tr, 2)] + [(i,) for i in range(self.nt) if i != self.tr]
        for q in full:
            if q[:len(p)] == p:
                y = v
                for i in q[len(p):]:
                    y = y[3][i] if y[0] == 'a' and i < len(y[3]) else ('f', y, 0, i)
                n = {(self.tr, 0): "x", (self.tr, 1): "y"}.get(q)
                if n is None:
                    z = top
                    for i in q:
                        z = ('f', z, 0, i)
                    c.ob("only-x-and-y:" + self.d, eq(y, z), "changes component %s of the picture's transform" % (q,), w)
                    continue
                cell = self.cell(y, self.eng)
                good = cell is not None and eq(cell[1], ('f', self.part(POS), 0, {"x": self.px, "y": self.py}[n]))
                c.ob("own-state:" + self.d, good, "%s becomes %s" % (n, show(N(y))[-160:]), w)
                k = ('f', self.part(WKIND), 0, 0)
                kn = cell and cell[0][0] == 'a' and model.Out(st, UNIT, I).fact(('d', ('f', ('*', self.part(WKIND)), 0, 0)), cell[0][2])
                c.ob("own-baseline:" + self.d, cell is None or eq(cell[0], k) or kn, "%s is read from baseline %s" % (n, cell and show(cell[0])[:80]), w)
                self.done(st, n, True)
            elif p[:len(q)] == q:
                c.ob("only-x-and-y:" + self.d, False, "changes a part of component %s of the picture" % (q,), w)

    def close(self, I, st):
        if ('open', 0) not in st.facts:
            return
        self.c.ob("every-circle:" + self.d, all(('set', n, True) in st.facts for n in "xy"), "a circle's picture is not moved to x and y", self.w)
        st.facts.pop(('open', 0), None)

def interval(t, old):
    """t = a * old + [lo, hi] -> (a, lo, hi)"""
    if old(t):
        return (1, 0, 0)
    k = t[0]
    if k == 'fc':
        return (0, t[1], t[1]) if isinstance(t[1], float) else None
    if k == 'i':
        return (0, t[1], t[1])
    if k == 'cast':
        return interval(t[3], old)
    if t[:2] == ('call', 'rnd'):
        lim = t[3][0]
        if lim == UNIT:
            return (0, 0, 1)
        if lim[0] == 'a' and len(lim[3]) == 2:
            a, b = interval(lim[3][0], old), interval(lim[3][1], old)
            return (0, a[1], b[2]) if a and b and not a[0] and not b[0] else None
        if lim[0] == 'call' and "RangeInclusive" in lim[1] and len(lim[3]) == 2:
            a, b = interval(lim[3][0], old), interval(lim[3][1], old)
            return (0, a[1], b[2]) if a and b and not a[0] and not b[0] else None
        return None
    if k == 'un' and t[1] == 'Neg':
        a = interval(t[2], old)
        return a and (-a[0], -a[2], -a[1])
    if k == 'bin':
        a, b = interval(t[2], old), interval(t[3], old)
        if not a or not b:
            return None
        if t[1] == 'Add':
            return (a[0] + b[0], a[1] + b[1], a[2] + b[2])
        if t[1] == 'Sub':
            return (a[0] - b[0], a[1] - b[2], a[2] - b[1])
        if t[1] == 'Mul' and a[0] and b[1] == b[2] and not b[0]:
            return (a[0] * b[1],) + tuple(sorted((a[1] * b[1], a[2] * b[1])))
        if t[1] == 'Mul' and not a[0]:
            if b[0] and a[1] == a[2]:
                return (b[0] * a[1],) + tuple(sorted((b[1] * a[1], b[2] * a[1])))
            if not b[0]:
                z = [x * y for x in a[1:] for y in b[1:]]
                return (0, min(z), max(z))
        if t[1] == 'Div' and not b[0] and b[1] == b[2] != 0:
            return (a[0] / b[1],) + tuple(sorted((a[1] / b[1], a[2] / b[1])))
    return None

def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]

def evaluate(t, env):
    if t in env:
        return env[t]
    k = t[0]
    if k == 'i':
        return t[1]
    if k == 'fc':
        return t[1]
    if k == 'cast':
        v = evaluate(t[3], env)
        return f32(v) if t[2] == 'f32' else float(v) if t[2] == 'f64' else int(v)
    if k == 'un' and t[1] == 'Neg':
        return -evaluate(t[2], env)
    if k == 'f' and t[1][0] == 'bin' and t[3] == 0:
        return evaluate(t[1], env)
    if k == 'bin':
        a, b = evaluate(t[2], env), evaluate(t[3], env)
        op = t[1].replace("Checked", "").replace("WithOverflow", "").replace("Unchecked", "")
        fl = isinstance(a, float) or isinstance(b, float)
        r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a / b if fl else int(a / b),
             "Rem": lambda: a % b}[op]()
        return f32(r) if fl else r
    raise KeyError(show(t)[:60])

def ranges(t):
    """loop variables in t: term -> values"""
    r = {}
    def go(x):
        if not isinstance(x, tuple):
            return
        y = x
        while len(y) == 2 and y[0] == 'old':
            y = y[1]
        if y[:1] == ('el',):
            s = peel(y[1])
            if s[0] == 'call' and re.search(r"IntoIterator|::into_iter", str(s[1])):
                s = peel(s[3][0])
            if s[0] == 'a' and s[1].endswith("ops::Range") and all(z[0] == 'i' for z in s[3]):
                r[x] = range(s[3][0][1], s[3][1][1])
            elif s[0] == 'call' and "RangeInclusive" in s[1] and all(z[0] == 'i' for z in s[3][:2]):
                r[x] = range(s[3][0][1], s[3][1][1] + 1)
            else:
                r[x] = None
            return
        for z in x:
            go(z)
    go(t)
    return r

GRID = {(float((i - 5) * 50), float((j - 5) * 50)) for i in range(10) for j in range(10)}

class Setup(Sys):
    def start(self, d, ins):
        self.d, self.w = d, self.c.loc(d)
        self.ei = [i for i, u in enumerate(ins) if ENG in u][0]
        self.ci = [i for i, u in enumerate(ins) if CIRCLE in u][0]
        self.eng = ('p', self.ei)
        self.creating, self.missed = set(), set()
        self.nspawn = self.ncreate = 0
        self.places, self.bounds = [], set()
        c = self.c
        m = model.Model(self.P, leaf=self.leaf, branch=self.branch, keep_fact=lambda t: t[0] in ('made', 'cell', 'latest', 'begun') or not any(x[:1] == ('old',) for x in subterms(t)))
        m.I.on_item = self.item
        m.I.on_elem = lambda I, st, kind, src, es: self.end(I, st) if kind == 'end' else None
        m.I.on_done = lambda I, st, it: self.end(I, st)
        kinds = []
        m.I.on_iter = lambda I, st, kind, it: self.adaptor(kinds, kind, I.argterm(st, it))
        outs = [model.Out(s, v, m.I) for s, v in m.run(d)]
        for o in outs:
            c.count("paths")
            if o.kind == 'Ok':
                self.between(o.st)
                c.ob("every-cell:" + d, not [f for f in o.facts if f[0] == 'begun'], "leaves the loop over the cells early", self.w)
            for f in o.facts:
                if f[0] == 'cell':
                    self.missed.add((f[1], o.kind)) if o.kind == 'Ok' else None
        self.whole()
        c.ob("returns:" + d, any(o.kind == 'Ok' for o in outs), "never succeeds", self.w)
        c.ob("every-cell:" + d, not kinds, "the cells pass through %s" % sorted(set(kinds)), self.w)
        c.ob("every-cell:" + d, self.ncreate and not [k for k, _ in self.missed if k in self.creating], "a cell is left without an object", self.w)
        c.ob("every-entity:" + d, self.nspawn, "spawns no circle", self.w)
        c.count("functions")

    def adaptor(self, kinds, kind, it):
        if kind not in ('map', 'inspect', 'by_ref', 'fuse', 'rev', 'flat_map', 'flatten', 'enumerate') and any(x[:1] == ('a',) and x[1].endswith("ops::Range") for x in subterms(it)):
            kinds.append(kind)

    def branch(self, I, st, v, val, site):
        if v[:2] in (('bin', 'Lt'), ('bin', 'Le')) and any(x[:1] == ('w',) for x in subterms(v[2])) and v[3][0] == 'i':
            self.bounds.add(v[3][1] + (v[1] == 'Le'))
        if any(x[:1] == ('el',) for x in subterms(v)) and v[0] != 'd' and not any(x[:1] == ('call',) and str(x[1]).startswith("api.") for x in subterms(v)):
            self.c.ob("same-for-all:" + self.d, False, "treats some cells differently (%s)" % show(v)[:80], self.w)
        return None

    def item(self, I, st, it, e):
        e = I.argterm(st, e)
        if e[0] != 'el' or None in ranges(e).values() or not ranges(e):
            return
        s = getattr(I, 'item_site', None) or {}
        key = (str(s.get("sp")), e)
        self.between(st)
        if ('cell', key) in st.facts:
            self.missed.add((key, 'next'))
        for f in [f for f in st.facts if f[0] == 'latest']:
            del st.facts[f]
        st.facts[('latest', key)] = ('=', 1)
        st.facts[('cell', key)] = ('=', 1)
        st.facts[('begun', key[0])] = ('=', 1)

    def between(self, st):
        self.c.ob("entity-for-object:" + self.d, not [f for f in st.facts if f[0] == 'made' and f[1] == 'Ok'], "an object is left without its entity", self.w)

    def end(self, I, st):
        s = getattr(I, 'item_site', None) or {}
        st.facts.pop(('begun', str(s.get("sp"))), None)

    def mybase(self, t):
        k = self.base(t, self.eng)
        return k is not None and eq(k, self.fork)

    def api(self, I, st, m, t, args, site):
        c, w, d = self.c, self.w, self.d
        if m in ("realm_mut", "baseline_mut", "realm", "baseline"):
            return
        if m == "object_create":
            self.ncreate += 1
            for f in list(st.facts):
                if f[0] == 'latest':
                    self.creating.add(f[1])
                if f[0] == 'cell':
                    del st.facts[f]
            c.ob("on-the-fork:" + d, self.mybase(t[3][0]), "creates on %s" % show(t[3][0])[:100], w)
            c.ob("own-contract:" + d, eq(t[3][1], ('f', ('p', self.ci), 0, 0)), "creates for contract %s" % show(t[3][1])[:80], w)
            xy = self.listed(I, st, args[2], site)
            ch = self.listed(I, st, args[3], site)
            c.ob("no-channels:" + d, ch == [], "channels %s" % show(t[3][3])[:80], w)
            if not c.ob("two-states:" + d, xy is not None and len(xy) == 2, "creates with states %s" % show(t[3][2])[:160], w):
                return
            xy = [prim(v) for v in xy]
            if not c.ob("state-values:" + d, None not in xy, "creates with states %s" % show(t[3][2])[:160], w):
                return
            order = {self.sx: xy[self.sx], self.sy: xy[self.sy]}
            x, y = order[self.sx], order[self.sy]
            self.grid(st, x, y)
            st.facts[('made', 'Ok', t, x, y)] = ('=', 1)
            return
        if m in ("bind_state", "state", "state_mut", "object"):
            return
        c.ob("no-other-operation:" + d, False, "also does %s" % show(t)[:120], w)

    def listed(self, I, st, it, site):
        v = peel(prims.iterval(I, st, it))
        if v[0] == 'call' and not v[3] and re.search(r"(^|::)(empty|new)(::<.*)?$", str(v[1])):
            return []
        try:
            return [I.inline_consts(s, v) if hasattr(I, "inline_consts") else v for s, v in prims.elems(I, st.copy(), it, None, site)]
        except (TypeError, KeyError):
            return None

    def grid(self, st, x, y):
        """the places of the objects made here, for all values of the loop variables"""
        c, w, d = self.c, self.w, self.d
        vs = ranges(('xy', x, y))
        for k in [u for u in subterms(('xy', x, y)) if u[:1] == ('w',)]:
            # the counter of a while loop
            up = [f[3][1] for f, v in st.facts.items() if f[:3] == ('bin', 'Lt', k) and f[3][0] == 'i' and v == ('=', 1)]
            up += [f[3][1] + 1 for f, v in st.facts.items() if f[:3] == ('bin', 'Le', k) and f[3][0] == 'i' and v == ('=', 1)]
            up = up or (list(self.bounds) if len(self.bounds) == 1 else [])
            vs[k] = range(0, min(up)) if up and min(up) <= 1000 else None
            self.counted = True
        if not c.ob("cells:" + d, None not in vs.values(), "the places depend on %s" % [show(v)[:60] for v in vs], w):
            return
        names = sorted(vs, key=repr)
        n = 1
        for k in names:
            n *= len(vs[k])
        if not c.ob("cells:" + d, n <= 100, "%d cells" % n, w):
            return
        got = []
        try:
            for vals in itertools.product(*(vs[k] for k in names)):
                env = dict(zip(names, vals))
                got.append((evaluate(x, env), evaluate(y, env)))
        except (KeyError, ZeroDivisionError) as e:
            c.fail("cells:" + d, "cannot evaluate the places (%s)" % e, w)
            return
        c.ob("grid:" + d, set(got) <= GRID and len(got) == len(set(got)), "%d places for %d objects, e.g. %s" % (len(set(got)), len(got), sorted(set(got) - GRID)[:2]), w)
        self.places.append((got, [not ranges(('v', v)) and not any(u[:1] == ('w',) for u in subterms(('v', v))) for v in (x, y)]))

    def whole(self):
        c, w, d = self.c, self.w, self.d
        full = [set(g) for g, _ in self.places]
        c.sample({"places": len(set().union(*full)) if full else 0})
        if not getattr(self, 'counted', False):
            c.ob("all-places:" + d, all(g == GRID for g in full), "only %s places are used" % [len(g) for g in full], w)
            return
        c.ob("all-places:" + d, full and set().union(*full) == GRID, "only some of the places are used", w)
        for k in (0, 1):
            # the first turns of a counting loop show where it starts and by how much it counts
            first = sorted({p[k] for g, cst in self.places if cst[k] for p in g})
            c.ob("counts:" + d, not first or first == sorted({p[k] for p in GRID})[:len(first)], "starts with the places %s" % first, w)

    def extra(self, mm, I, st, d, m, name, args, site):
        if m in ("spawn_bundle", "insert_bundle", "spawn_batch") and "Commands" in d + name:
            b = I.argterm(st, args[1])
            if is_adt(b, BUNDLE):
                self.spawned(st, b)
                return [(st, ('call', 'spawned', (), ()))]
            self.c.ob("no-other-entity:" + self.d, not any(x[:1] == ('a',) and str(x[1]).startswith("A:" + G) for x in subterms(b)),
                      "spawns %s" % show(b)[:100], self.w)
        return None

    def spawned(self, st, b):
        c, w, d = self.c, self.w, self.d
        self.nspawn += 1
        made = [f for f in st.facts if f[0] == 'made' and f[1] == 'Ok']
        if not c.ob("object-for-entity:" + d, len(made) == 1, "an entity is spawned for %d new objects" % len(made), w):
            return
        _, _, t, x, y = made[0]
        del st.facts[made[0]]
        st.facts[('made', 'done')] = ('=', 1)
        obj = ('f', t, 0, 0)
        inner = lambda v: v[3][0] if v[0] == 'a' and len(v[3]) == 1 else ('f', v, 0, 0)
        c.ob("own-object:" + d, eq(inner(b[3][self.bo]), obj), "the entity carries object %s" % show(inner(b[3][self.bo]))[:100], w)
        c.ob("own-kind:" + d, eq(inner(b[3][self.bk]), self.fork), "the entity is marked %s" % show(inner(b[3][self.bk]))[:60], w)
        pos = b[3][self.bp]
        for n, k, s in (("x", self.px, self.sx), ("y", self.py, self.sy)):
            h = N(pos[3][k] if pos[0] == 'a' else ('f', pos, 0, k))
            r = h[1] if h[0] == 'f' and h[1][0] == 'call' else UNIT
            ident = ('f', ('f', ('f', ('p', self.ci), 0, 0), 0, self.si), 0, s)
            good = r[:2] == ('call', 'api.bind_state') and self.mybase(r[3][0]) and eq(r[3][1], ident) and eq(r[3][2], obj)
            c.ob("own-%s:" % n + d, good, "the entity's %s is %s" % (n, show(h)[-160:]), w)
        drawn = [u for u in subterms(b[3][self.bs]) if u[:1] == ('call',) and str(u[1]).rsplit("::", 1)[-1].startswith("build")]
        at_ = N(drawn[0][3][-1]) if len(drawn) == 1 else UNIT
        if is_adt(at_, TRANSFORM):
            at_ = at_[3][self.tr]
        at_ = at_[3] if at_[:2] == ('call', 'transform') or is_adt(at_, VEC3) else ()
        c.ob("own-place:" + d, len(at_) == 3 and eq(at_[0], x) and eq(at_[1], y), "the entity is put at %s" % [show(u)[:80] for u in at_], w)

def prim(v):
    """the f32 inside a DynTpProperty"""
    v = peel(v)
    for last in ("DynTpProperty", "DynTpPrimitive"):
        if v[0] != 'a' or last not in str(v[1]) or len(v[3]) != 1:
            return None
        v = peel(v[3][0])
    return v

def app(c, S, d, roles, handler):
    """the resources and systems the app is made of"""
    w = c.loc(d)
    P = c.P
    def leaf(mm, I, st, callee, name, targs, args, site):
        q = callee["def"]
        m = q.rsplit("::", 1)[-1]
        if re.match(r"bevy_app::app::App::", q) and args:
            st.tag(('app', m, tuple(I.argterm(st, a) for a in args[1:])))
            return [(st, args[0])]
        x = API.search(q)
        if x:
            t = ('call', 'api.' + q.rsplit("::", 2)[-2] + "." + x.group(2), tuple(str(y) for y in targs), tuple(I.argterm(st, a) for a in args))
            return [(st, t)]
        return None
    m = model.Model(P, leaf=leaf)
    outs = [model.Out(s, v, m.I) for s, v in m.run(d)]
    c.ob("returns:" + d, outs, "never returns", w)
    for o in outs:
        c.count("paths")
        res = [a[0] for t in o.trace if t[0] == 'app' and t[1] in ("insert_resource", "insert_non_send_resource") for a in [t[2]]]
        news = {x for r in res for x in subterms(r) if x[:2] == ('call', 'api.Engine.new')}
        if not c.ob("one-engine:" + d, len(news) == 1, "%d engines are made" % len(news), w):
            continue
        new = min(news, key=repr)
        e = ('f', new, 0, 0)
        c.ob("engine-resource:" + d, sum(eq(r, e) or eq(strip(r), e) for r in res) == 1, "the engine is not a resource of the app", w)
        c.ob("sender-resource:" + d, any(eq(r, ('f', new, 0, 1)) for r in res), "the engine's sender is not a resource of the app", w)
        reg = [r[1] for r in map(N, res) if r[0] == 'f' and r[1][:2] == ('call', 'api.Baseline.register_contract')]
        good = len(reg) == 1
        if good:
            b = reg[0][3][0]
            good = b[:2] == ('call', 'api.Realm.baseline_mut') and eq(b[3][1], S.fork) and b[3][0][:2] == ('call', 'api.Engine.realm_mut') and eq(strip(b[3][0][3][0]), e) \
                and any(CIRCLE in x for x in reg[0][2])
        c.ob("contract-resource:" + d, good, "the Circle contract of the engine's fork is not a resource of the app", w)
        def added(method, who):
            n = 0
            for t in o.trace:
                if t[0] == 'app' and t[1].startswith(method):
                    for a in t[2]:
                        fns = [x for x in subterms(a) if x[:1] == ('fn',) and fnname(m.I, x) == who]
                        if fns:
                            n += 1
                            res_ = "Result" in P.uty(P.items[who]["types"], P.items[who]["ret"]) if P.items[who].get("ret") is not None else False
                            h = [fnname(m.I, x) for x in subterms(a) if x[:1] == ('fn',)]
                            if res_:
                                c.ob("errors-handled:" + who, any(y in handler for y in h), "the errors of %s go nowhere" % who, w)
            return n
        c.ob("set-up-once:" + d, added("add_startup_system", roles["setup"]) == 1 and not added("add_system", roles["setup"]), "the set-up system does not run once at startup", w)
        for r in ("walk", "draw"):
            c.ob("runs-%s:" % r + d, added("add_system", roles[r]) == 1 and not added("add_startup_system", roles[r]), "%s does not run once in every frame" % roles[r], w)
        extra = [fnname(m.I, x) for t in o.trace if t[0] == 'app' and "system" in t[1] for a in t[2] for x in subterms(a) if x[:1] == ('fn',)]
        extra = [x for x in extra if x.startswith(G) and x not in list(roles.values()) + list(handler)]
        c.ob("known-systems:" + d, not extra, "also runs %s" % extra, w)
    c.count("functions")

def strip(t):
    t = N(t)
    while t[0] in ('mut', 'ref'):
        t = N(t[1])
    while t[0] == 'call' and t[1] == 'mut':
        t = N(t[3][0])
    return t

def fnname(I, x):
    f = I.fns.get(x[1]) if isinstance(I.fns, dict) else None
    return (f or {}).get("def", str(x[1]))

def check(c):
    P = c.P
    S = Sys(c)
    if not S.ok:
        return
    roles, handler = {}, []
    appfn = []
    for d, it in sorted(P.items.items()):
        if not d.startswith(G) or d not in P.by_def or it.get("ins") is None or "::{closure" in d:
            continue
        ins = [P.uty(it["types"], t) for t in it["ins"]]
        ret = P.uty(it["types"], it["ret"]) if it.get("ret") is not None else ""
        q = [query(u) for u in ins if query(u)]
        eng = [u for u in ins if re.search(r"::(Res|ResMut)<%s>$" % re.escape(ENG), u)]
        if q and eng:
            r = "draw" if "&mut " + TRANSFORM in q[0][0] else "walk"
        elif eng and any("commands::Commands" in u for u in ins):
            r = "setup"
        elif len(ins) == 1 and re.search(r"::In<.*Result<", ins[0]):
            handler.append(d)
            continue
        elif ret.endswith("bevy_app::app::App") and not ins:
            appfn.append(d)
            continue
        else:
            continue
        if not c.ob("one-system:" + r, r not in roles, "%s and %s both %s" % (roles.get(r), d, r), c.loc(d)):
            continue
        roles[r] = d
        c.analysed.add(d)
        if r == "setup":
            Setup(c).start(d, ins)
        else:
            (Draw if r == "draw" else Walk)(c).start(d, ins)
    for r in ("setup", "walk", "draw"):
        c.ob("anchor:" + r, r in roles, "no system of the game does this")
    for d in handler:
        c.analysed.add(d)
        w = c.loc(d)
        m, outs = summarise(P, d)
        for o in outs:
            c.count("paths")
            c.ob("errors-stop:" + d, o.fact(('d', ('f', P0, 0, 0)), 0), "an error of a system is ignored", w)
        c.ob("errors-only:" + d, outs and all(model.Out(st, UNIT, m.I).fact(('d', ('f', P0, 0, 0)), 1) for st, _, _ in m.I.panics), "stops the game without an error", w)
    c.ob("anchor:app", len(appfn) == 1, "%d functions make the app" % len(appfn))
    if len(appfn) == 1 and len(roles) == 3:
        c.analysed.add(appfn[0])
        app(c, S, appfn[0], roles, handler)
    # colours tell the kinds apart
    news = [d for d, it in P.items.items() if d.startswith(BUNDLE + "::") and d in P.by_def and len(it.get("ins") or ()) >= 3 and it.get("ret") is not None and P.uty(it["types"], it["ret"]).endswith("CircleBundle")]
    for d in news:
        c.analysed.add(d)
        it = P.items[d]
        ki = [i for i, t in enumerate(it["ins"]) if P.uty(it["types"], t) == WKIND]
        if len(ki) != 1:
            continue
        looks = {}
        for o in summarise(P, d)[1]:
            if not c.ob("bundle:" + d, is_adt(o.v, BUNDLE), "makes %s" % show(o.v)[:80], c.loc(d)):
                continue
            for n, i in S.vs.items():
                k = ('d', ('f', ('p', ki[0]), 0, 0))
                if not o.notfact(k, i) and not any(o.fact(k, j) for j in S.vs.values() if j != i):
                    looks.setdefault(n, set()).add(o.v[3][S.bs])
        c.ob("kinds-differ:" + d, len(looks) == len(S.vs) and not set.intersection(*looks.values()), "circles of different baselines look the same", c.loc(d))
