"""One-in-one-out: every element that a source hands out is put into a list before the next one is taken, stage by stage."""
from sa.spec import *

def counted(t):
    """the collection whose indices the range t counts through, all of them in order"""
    if t[0] == 'a' and t[1] == 'A:std::ops::Range' and t[3][0] == ('i', 0):
        n = t[3][1]
        if n[0] == 'len' and n[1][0] == 'place':
            return n[1][1]
        if n[0] == 'call' and len(n[3]) == 1 and str(n[1]).endswith("::len"):
            return n[3][0]
    return None

def core(t):
    t = peel(t)
    while t[0] == '*':
        t = peel(t[1])
    return t

def byindex(t):
    """v[i] with i counting through v's indices is v's next element"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('&',) and t[1][0] == 'X' and t[2]:
        p = ('*', t[1][1])
        for e in t[2]:
            p = ('f', p, e[1], e[2]) if e[0] == 'f' else ('el', p) + tuple(e[1:2])
        t = p
    if len(t) == 3 and t[0] == 'el' and isinstance(t[2], tuple) and t[2][:1] == ('el',):
        v = counted(t[2][1])
        if v is not None and core(byindex(t[1])) == core(v):
            return ('el', byindex(t[1]))
    return tuple(byindex(x) for x in t)

def fresh(t):
    """without the marks of earlier iterations"""
    if not isinstance(t, tuple):
        return frozenset(fresh(x) for x in t) if isinstance(t, frozenset) else t
    if len(t) == 2 and t[0] == 'old':
        return fresh(t[1])
    return tuple(fresh(x) for x in t)

def root(src):
    """(the source below all adaptors, adaptors)"""
    ad = []
    while True:
        if src[0] == 'it':
            ad.append(src[1])
            src = src[2]
        elif src[0] == 'ref':
            src = src[1]
        else:
            return src, ad

def keep(t):
    return t[0] in ('pending', 'lost', 'ended', 'begun', 'inserted', 'appended', 'unordered')

class Tally:
    """own(t): t is an element of the collection (as handed out, or as it is to be listed)"""
    def __init__(self, m, own):
        self.own, self.inserting = own, False
        I = m.I
        I.on_item, I.on_push, I.on_done, I.on_elem = self.item, self.push, self.done, self.elem
        I.on_iter = lambda I, st, kind, it: st.tag(('iter', kind))

    def mine(self, t):
        return self.own(byindex(fresh(t)))


    def stage(self, src):
        s = root(src)[0]
        return 1 if s[0] in ('vec', 'vec*') else 0

    def item(self, I, st, src, e):
        x = I.argterm(st, e)
        if x[0] == 'el' and len(x) == 2 and counted(x[1]) is not None:
            x = ('el', counted(x[1]))
        if self.mine(x):
            if ('pending', 0) in st.facts:
                st.facts[('lost', 0)] = ('=', 1)
            st.facts[('pending', 0)] = ('=', 1)
            st.facts[('begun', self.stage(src))] = ('=', 1)

    def push(self, I, st, v, x):
        if self.mine(I.argterm(st, x)):
            if ('pending', 0) not in st.facts:
                st.facts[('lost', 1)] = ('=', 1)
            st.facts.pop(('pending', 0), None)
        else:
            st.facts[('lost', 2)] = ('=', 1)
        if not self.inserting:
            st.facts[('appended', 0)] = ('=', 1)
        return None

    def end(self, st, src):
        st.facts[('ended', self.stage(src))] = ('=', 1)

    def done(self, I, st, it):
        self.end(st, it)

    def elem(self, I, st, kind, src, es):
        if kind == 'end':
            self.end(st, src)

    def judge(self, c, d, o, what, w, allow):
        bad = [t[1] for t in o.trace if t[0] == 'iter' and t[1] not in allow]
        c.ob("no-adaptors:" + d, not bad, "%ss pass through %s" % (what, bad), w)
        lost = [f[1] for f in o.facts if f[0] == 'lost']
        c.ob("all-kept:" + d, not lost and ('pending', 0) not in o.facts,
             "one of the %ss is %s" % (what, ["left out", "put in twice", "made up"][max(lost + [0])]), w)
        c.ob("to-the-end:" + d, ('ended', 0) in o.facts and (('begun', 1) not in o.facts or ('ended', 1) in o.facts), "not all %ss are taken" % what, w)
