"""Exact integer arithmetic over interpreter terms.

norm(t) gives the mathematical integer a term denotes, as a polynomial over atoms
(leaves, floor/trunc divisions, clamps, and - where an operation may leave its
type - explicit wraps), using intervals: operand types, and what the path's
comparisons establish.  Equal polynomials denote equal integers."""
import re
from math import floor
from .interp import subterms
from .spec import peel

T = {("i" if s else "u") + str(b): ((-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)) for s in (0, 1) for b in (8, 16, 32, 64, 128)}
T["usize"], T["isize"] = T["u64"], T["i64"]
INF = float("inf")

class Num:
    def __init__(self, o, leaf="i32"):
        self.o, self.leaf = o, leaf
        self.R = {}             # polynomial -> interval the path established
        self.out = []           # (polynomial, lo, hi): known to lie outside
        self.memo = {}
        self.rems = {}          # remainder polynomial -> the division it belongs to
        self.empty = False      # no arguments take this path
        for _ in range(6):
            before = (dict(self.R), len(self.out))
            self.learn()
            self.memo = {}
            if before == (self.R, len(self.out)):
                break

    # -- facts
    def learn(self):
        self.out = []
        for t, f in self.o.facts.items():
            if t[0] == 'bin' and len(t) == 4 and t[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                v = 1 if self.o.fact(t, 1) else 0 if self.o.fact(t, 0) else None
                if v is None or not self.isint(t[2]) or not self.isint(t[3]):
                    continue
                a, b, op = self.norm(t[2]), self.norm(t[3]), t[1]
                if op in ('Gt', 'Ge'):
                    a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[op]
                if op == 'Ne':
                    op, v = 'Eq', 1 - v
                if op == 'Eq':
                    if v:
                        self.le(a, b, 0); self.le(b, a, 0)
                    else:       # unequal: an end of the interval falls away
                        lo, hi = self.range(padd(a, b, -1))
                        if lo == 0:
                            self.le(b, a, 1)
                        if hi == 0:
                            self.le(a, b, 1)
                    continue
                if v:
                    self.le(a, b, 1 if op == 'Lt' else 0)
                else:
                    self.le(b, a, 0 if op == 'Lt' else 1)
            call = t[1] if t[0] == 'd' else t[1] if t[0] == 'f' and t[3] == 1 else None
            ar = re.search(r"::(checked|overflowing)_(add|sub|mul)$", str(call[1])) if call and call[0] == 'call' else None
            if ar and self.ty(call):
                over = self.o.fact(t, 0 if ar.group(1) == 'checked' else 1)
                fine = self.o.fact(t, 1 if ar.group(1) == 'checked' else 0)
                x, y = self.norm(call[3][0]), self.norm(call[3][1])
                p = ARITH[ar.group(2)](x, y)
                if fine:
                    self.cut(p, *T[self.ty(call)])
                elif over:
                    self.out.append((p,) + T[self.ty(call)])
            if t[0] == 'd' and t[1][0] == 'call' and re.search(r"::(try_from|try_into)$", str(t[1][1])):
                to = self.target(t[1])
                if not to:
                    continue
                p = self.norm(t[1][3][0])
                if self.o.fact(t, 0):
                    self.cut(p, *T[to])
                elif self.o.fact(t, 1):
                    self.out.append((p,) + T[to])
        for p, lo, hi in self.out:
            a, b = self.range(p)
            if a >= lo:
                self.cut(p, hi + 1, INF)
            if b <= hi:
                self.cut(p, -INF, lo - 1)

    def le(self, a, b, k):
        """a + k <= b"""
        d = padd(a, b, -1)
        self.cut(d, -INF, -k)
        self.cut(padd({}, d, -1), k, INF)
        alo, ahi = self.range(a)
        blo, bhi = self.range(b)
        self.cut(a, -INF, bhi - k)
        self.cut(b, alo + k, INF)

    def cut(self, p, lo, hi):
        if self.const(p) is not None:
            return
        c = p.get((), 0)        # remember intervals for the part without the constant
        q = self.key({k: v for k, v in p.items() if k != ()})
        a, b = self.R.get(q, (-INF, INF))
        self.R[q] = (max(a, lo - c), min(b, hi - c))
        lo, hi = self.range(p)
        if lo > hi:
            self.empty = True

    # -- intervals
    def const(self, p):
        return p.get((), 0) if not [k for k in p if k != ()] else None

    def key(self, p):
        return tuple(sorted(((tuple(sorted(map(repr, k))), v) for k, v in p.items())))

    def range(self, p):
        lo = hi = 0
        for m, c in p.items():
            a = b = 1
            for x in m:
                l, h = self.arange(x)
                q = [mul(a, l), mul(a, h), mul(b, l), mul(b, h)]
                a, b = min(q), max(q)
            q = mul(c, a), mul(c, b)
            lo, hi = lo + min(q), hi + max(q)
        c = p.get((), 0)
        q = self.key({k: v for k, v in p.items() if k != ()})
        a, b = self.R.get(q, (-INF, INF))
        if q in self.rems:
            x, n = self.rems[q]
            l, h = self.remainder(x)
            a, b = max(a, l * n if n > 0 else h * n), min(b, h * n if n > 0 else l * n)
        return max(lo, a + c), min(hi, b + c)

    def remainder(self, x):
        """what the dividend of x can exceed x's divisor times x by"""
        k = x[2]
        if x[0] == 'fdiv':
            return 0, k - 1
        l, h = self.range(dict(x[1]))
        return (0 if l >= 0 else 1 - k), (0 if h <= 0 else k - 1)

    def rem(self, x):
        """dividend - divisor * quotient, registered so that its range is known"""
        r = padd(dict(x[1]), {(x,): x[2]}, -1)
        for n in (1, -1):
            q = self.key({k: n * v for k, v in r.items() if k != ()})
            self.rems[q] = (x, n) if not r.get((), 0) else self.rems.get(q, (x, n))
        if r.get((), 0):        # keyed without the constant: the range would be off by it
            for n in (1, -1):
                self.rems.pop(self.key({k: n * v for k, v in r.items() if k != ()}), None)
        return r

    def same(self, a, b):
        """the two integers are equal: as polynomials, or because their difference, with every
        quotient written as (dividend - remainder) / divisor, is smaller than its unit"""
        if a == b:
            return True
        if len(a) == len(b) == 1:
            (m, v), (n, w) = list(a.items()) + list(b.items())
            if v == w and len(m) == len(n) == 1 and m[0][0] == n[0][0] == 'clamp' and m[0][2:] == n[0][2:]:
                return self.same(dict(m[0][1]), dict(n[0][1]))
        d = padd(a, b, -1)
        unit = 1
        while True:
            m = next((m for m in d if len(m) == 1 and m[0][0] in ('fdiv', 'tdiv')), None)
            if m is None:
                break
            x, cf = m[0], d[m]
            k = x[2]
            rest = {q: v * k for q, v in d.items() if q != m}
            # cf*k*x = cf*(dividend - remainder)
            r = (('rem', x),)
            d = padd(padd(rest, {q: v * cf for q, v in x[1]}), {r: cf}, -1)
            unit *= k
            if unit > 1 << 200:
                return False
        lo = hi = 0
        plain = {}
        for m, cf in d.items():
            if len(m) == 1 and m[0][0] == 'rem':
                x = m[0][1]
                l, h = self.range(self.rem(x))
                q = cf * l, cf * h
                lo, hi = lo + min(q), hi + max(q)
            else:
                plain[m] = cf
        l, h = self.range(plain)
        return -unit < lo + l and hi + h < unit

    def arange(self, x):
        k = x[0]
        if k == 'leaf':
            r = T[x[2]]
        elif k in ('fdiv', 'tdiv'):
            l, h = self.range(dict(x[1]))
            f = (lambda v: v if abs(v) == INF else v // x[2] if k == 'fdiv' else (abs(v) // x[2]) * (1 if v >= 0 else -1))
            r = f(l), f(h)
        elif k == 'clamp':
            l, h = self.range(dict(x[1]))
            r = min(max(l, x[2]), x[3]), max(min(h, x[3]), x[2])
        else:
            r = T[x[2]]
        a, b = self.R.get(self.key({(x,): 1}), (-INF, INF))
        return max(r[0], a), min(r[1], b)

    # -- types
    def ty(self, t):
        t = peel(t)
        if t[0] == 'cast' and t[2] in T:
            return t[2]
        if t[0] == 'bin' and t[1] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shr', 'Shl', 'BitAnd', 'BitOr', 'BitXor'):
            return self.ty(t[2]) or (self.ty(t[3]) if t[1] not in ('Shr', 'Shl') else None)
        if t[0] == 'f' and t[2] == 0 and t[1][0] == 'bin':
            return self.ty(t[1])
        if t[0] == 'un':
            return self.ty(t[2])
        if t[0] == 'i':
            return None
        if t[0] == 'call':
            m = re.search(r"<impl (\w+)>", str(t[1])) or re.search(r"<(\w+) as ", str(t[1])) or re.search(r"\bi(\d+)\b", str(t[1]))
            if m and m.group(1) in T:
                return m.group(1)
            if str(t[1]).rsplit("::", 1)[-1] in ('min', 'max', 'clamp', 'integer_min', 'integer_max') and t[3]:
                r = [self.ty(x) for x in t[3]]
                return next((x for x in r if x), None)
            if str(t[1]).rsplit("::", 1)[-1] in ("from", "into"):
                return self.target(t) or self.leaf
        if t[0] == 'f' and t[1][0] == 'call' and re.search(r"::(try_from|try_into)$", str(t[1][1])):
            return self.target(t[1])
        return self.leaf

    def isint(self, t):
        return not any(s[0] == 'cast' and s[2] in ('f32', 'f64') for s in subterms(t) if len(s) == 4)

    def target(self, call):
        m = re.search(r"<(\w+) as (?:\w+::)*(?:Try)?From<(\w+)>", str(call[1])) or re.search(r"impl (?:\w+::)*(?:Try)?From<\w+> for (\w+)", str(call[1]))
        if m and m.group(1) in T:
            return m.group(1)
        for s in call:
            if isinstance(s, str):
                m = re.search(r"<(\w+) as (?:\w+::)*(?:Try)?Into<(\w+)>", s)
                if m and m.group(2) in T:
                    return m.group(2)
        return None

    # -- terms
    def norm(self, t):
        t = peel(t)
        if t not in self.memo:
            self.memo[t] = self.norm0(t)
        return self.memo[t]

    def fit(self, p, ty):
        """p, brought into type `ty` by wrapping"""
        lo, hi = self.range(p)
        if ty is None or (T[ty][0] <= lo and hi <= T[ty][1]):
            return p
        return {(('wrap', freeze(p), ty),): 1}

    def clamp(self, p, lo, hi):
        a, b = self.range(p)
        if lo <= a and b <= hi:
            return p
        if b <= lo:
            return con(lo)
        if a >= hi:
            return con(hi)
        # clamps nest
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][0] == 'clamp' and max(lo, m[0][2]) <= min(hi, m[0][3]):
                # the nested clamp is the identity on the other side of its bounds
                return self.clamp(dict(m[0][1]), max(lo, m[0][2]), min(hi, m[0][3]))
        return {(('clamp', freeze(p), -INF if a >= lo else lo, INF if b <= hi else hi),): 1}

    def fdiv(self, p, k):
        if k == 1:
            return p
        if self.const(p) is not None:
            return con(self.const(p) // k)
        if all(c % k == 0 for c in p.values()):
            return {m: c // k for m, c in p.items()}
        return {(('fdiv', freeze(p), k),): 1}

    def tdiv(self, p, k):
        if self.range(p)[0] >= 0 or all(c % k == 0 for c in p.values()):
            return self.fdiv(p, k)
        # rounding toward zero is rounding down, or one more, when the remainder's sign is known
        if self.const(p) is None:
            n = padd({}, p, -1)
            l, h = self.range(self.rem(('tdiv', freeze(p), k)))
            if self.range(p)[1] <= 0 and not all(c % k == 0 for c in n.values()):
                a, b = self.range(self.rem(('fdiv', freeze(n), k)))
                l, h = max(l, -b), min(h, -a)
            if l >= 0:
                return self.fdiv(p, k)
            if h < 0:
                return padd(self.fdiv(p, k), con(1))
        if self.range(p)[1] <= 0:
            return padd({}, self.fdiv(padd({}, p, -1), k), -1)
        if self.const(p) is not None:
            v = self.const(p)
            return con((abs(v) // k) * (1 if v >= 0 else -1))
        return {(('tdiv', freeze(p), k),): 1}

    def left(self, p, q, k):
        r = padd(p, pmul(con(k), q), -1)
        for m in q:
            if len(m) == 1 and m[0][0] in ('fdiv', 'tdiv') and m[0][2] == k:
                self.rem(m[0])
        return r

    def norm0(self, t):
        if t[0] == 'i' and isinstance(t[1], int):
            return con(t[1])
        if t[0] == 'cast' and t[1] in T and t[2] in T:
            return self.fit(self.norm(t[3]), t[2])
        if t[0] == 'f' and t[2] == 0 and t[1][0] == 'bin':
            return self.norm(t[1])
        if t[0] == 'bin' and len(t) == 4:
            op = t[1].replace("WithOverflow", "").replace("Unchecked", "")
            ty = self.ty(t)
            if op in ('Add', 'Sub', 'Mul'):
                a, b = self.norm(t[2]), self.norm(t[3])
                return self.fit(padd(a, b) if op == 'Add' else padd(a, b, -1) if op == 'Sub' else pmul(a, b), ty)
            k = self.const(self.norm(t[3])) if op in ('Div', 'Rem', 'BitAnd', 'Shr', 'Shl') else None
            if k is not None:
                a = self.norm(t[2])
                if op == 'Div' and k > 0:
                    return self.tdiv(a, k)
                if op == 'Rem' and k > 0:
                    return self.left(a, self.tdiv(a, k), k)
                if op == 'BitAnd' and k > 0 and k & (k + 1) == 0:
                    return self.left(a, self.fdiv(a, k + 1), k + 1)
                if op == 'Shr' and 0 <= k < 128:
                    return self.fdiv(a, 1 << k)
                if op == 'Shl' and 0 <= k < 128:
                    return self.fit(pmul(a, con(1 << k)), ty)
        if t[0] == 'un' and t[1] == 'Neg':
            return self.fit(padd({}, self.norm(t[2]), -1), self.ty(t[2]))
        if t[0] == 'call':
            n = str(t[1]).rsplit("::", 1)[-1]
            a = t[3]
            ty = self.ty(t)
            if n == 'default' and not a:
                return con(0)
            if n in ('from', 'into', 'clone', 'wrapping_neg') and len(a) == 1:
                p = self.norm(a[0])
                if n == 'wrapping_neg':
                    return self.fit(padd({}, p, -1), ty)
                return self.fit(p, ty) if n != 'clone' else p
            if n in ('saturating_add', 'saturating_sub', 'saturating_mul') and ty:
                x, y = self.norm(a[0]), self.norm(a[1])
                return self.clamp(padd(x, y) if 'add' in n else padd(x, y, -1) if 'sub' in n else pmul(x, y), *T[ty])
            if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul') and ty:
                x, y = self.norm(a[0]), self.norm(a[1])
                return self.fit(padd(x, y) if 'add' in n else padd(x, y, -1) if 'sub' in n else pmul(x, y), ty)
            if n in ('div_euclid', 'div_floor') and (self.const(self.norm(a[1])) or 0) > 0:
                return self.fdiv(self.norm(a[0]), self.const(self.norm(a[1])))
            if n == 'rem_euclid' and (self.const(self.norm(a[1])) or 0) > 0:
                k = self.const(self.norm(a[1])); p = self.norm(a[0])
                return self.left(p, self.fdiv(p, k), k)
            if n in ('abs', 'unsigned_abs', 'wrapping_abs') and len(a) == 1 and ty:
                p = self.norm(a[0]); l, h = self.range(p)
                r = p if l >= 0 else padd({}, p, -1) if h <= 0 else None
                if r is not None:
                    return self.fit(r, ty) if n != 'unsigned_abs' else r
            if n == 'signum' and len(a) == 1:
                l, h = self.range(self.norm(a[0]))
                if l > 0 or h < 0 or l == h == 0:
                    return con((l > 0) - (h < 0))
            if n in ('min', 'max', 'integer_min', 'integer_max') and len(a) == 2:
                x, y = self.norm(a[0]), self.norm(a[1])
                for u, v in ((x, y), (y, x)):
                    if self.const(v) is not None:
                        return self.clamp(u, *((-INF, self.const(v)) if 'min' in n else (self.const(v), INF)))
            if n == 'clamp' and len(a) == 3:
                l, h = self.const(self.norm(a[1])), self.const(self.norm(a[2]))
                if l is not None and h is not None:
                    return self.clamp(self.norm(a[0]), l, h)
            if n == 'unwrap_or' or n == 'unwrap':
                pass
        if t[0] == 'f' and t[1][0] == 'call' and t[3] == 0 and re.search(r"::overflowing_(add|sub|mul)$", str(t[1][1])):
            return self.fit(ARITH[str(t[1][1])[-3:]](self.norm(t[1][3][0]), self.norm(t[1][3][1])), self.ty(t[1]))
        if t[0] == 'f' and t[1][0] == 'call':
            n = str(t[1][1]).rsplit("::", 1)[-1]
            if n in ('try_from', 'try_into') and t[2] == 0:
                return self.norm(t[1][3][0])
            if n in ('checked_add', 'checked_sub', 'checked_mul') and t[2] == 1:
                x, y = self.norm(t[1][3][0]), self.norm(t[1][3][1])
                return padd(x, y) if 'add' in n else padd(x, y, -1) if 'sub' in n else pmul(x, y)
        return {(('leaf', t, self.leaf),): 1}

    # -- floating point: the value of `p`, rounded to type f, times 2^-k or divided by d
    def fl(self, t):
        t = peel(t)
        if t[0] == 'cast' and t[2] in ('f32', 'f64'):
            if t[1] in T:
                p = self.norm(t[3])
                c = self.const(p)
                if c is not None:
                    return ('c', float(c))
                return ('v', t[2], freeze(p), 1.0, 1.0)
            v = self.fl(t[3])
            if v and v[0] == 'c':
                return v
            # i32 is exact in f64, so is any power-of-two scaling of it
            if v and v[0] == 'v' and v[1] == 'f64' and v[4] == 1.0:
                lo, hi = self.range(dict(v[2]))
                if abs(lo) <= 2**53 and abs(hi) <= 2**53:
                    return ('v', t[2]) + v[2:]
            return v if v and v[1] == t[2] else None
        if t[0] == 'fc':
            return ('c', t[1])
        if t[0] == 'call' and str(t[1]).rsplit("::", 1)[-1] in ('from', 'into') and t[3]:
            m = re.search(r"<(f32|f64) as ", str(t[1]))
            if m:
                return self.fl(('cast', self.ty(t[3][0]), m.group(1), t[3][0]))
        if t[0] == 'bin' and t[1] in ('Div', 'Mul'):
            a, b = self.fl(t[2]), self.fl(t[3])
            if not a or not b:
                return None
            if t[1] == 'Mul' and a[0] == 'c':
                a, b = b, a
            if a[0] == 'v' and b[0] == 'c' and b[1] and a[4] == 1.0:
                s = b[1] if t[1] == 'Mul' else 1.0 / b[1]
                if pow2(abs(b[1])):
                    return ('v', a[1], a[2], a[3] * s, 1.0)
                if t[1] == 'Div' and a[3] == 1.0:
                    return ('v', a[1], a[2], 1.0, b[1])
            if a[0] == 'c' and b[0] == 'c' and b[1]:
                return ('c', a[1] / b[1] if t[1] == 'Div' else a[1] * b[1])
        return None

ARITH = {"add": lambda a, b: padd(a, b), "sub": lambda a, b: padd(a, b, -1), "mul": lambda a, b: pmul(a, b)}

def pow2(x):
    import math
    return x > 0 and math.frexp(x)[0] == 0.5

def mul(a, b):
    return 0 if a == 0 or b == 0 else a * b

def con(v):
    return {(): v} if v else {}

def freeze(p):
    return tuple(sorted(p.items(), key=repr))

def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r

def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=repr))
            r[m] = r.get(m, 0) + v * w
            if not r[m]:
                del r[m]
    return r
