"""Interval domain over value-flow terms. Every term denotes the set of
non-NaN values any of its elements can take. A span carries the enclosing
interval [lo, hi] and, where known, an interval [alo, ahi] whose ends are
attained (or approached) by some run, so that an excess can be told from
imprecision. Two terms in a structural order (minimum/maximum of the same
arguments, a leg and its hypotenuse) keep their ratio in [0, 1]."""
import math
from .terms import *

INF = math.inf
HALF = math.pi / 2
PASS = {'np.flip': 0, 'np.repeat': 0, 'np.delete': 0, 'np.copy': 0,
        'np.fliplr': 0, 'np.flipud': 0, 'np.array': 0, 'np.asarray': 0,
        'np.ravel': 0, 'np.reshape': 0, 'np.transpose': 0, 'np.tile': 0,
        'np.roll': 0, 'np.squeeze': 0, 'float': 0, 'tofloat': 0, 'tonum': 0,
        'np.flatten': 0, 'flatten': 0, 'fresh': 0, 'copy': 0, 'dcopy': 1,
        'full': 1, 'np.full': 1, 'full_like': 1, 'np.full_like': 1,
        'np.expand_dims': 0, 'np.atleast_1d': 0, 'nonan': 0, 'toarray': 0,
        'np.moveaxis': 0, 'np.broadcast_to': 0, 'filled': 1,
        'np.rot90': 0, 'np.swapaxes': 0}
LEAST = {'np.minimum', 'min', 'np.fmin'}
MOST = {'np.maximum', 'max', 'np.fmax'}


class Span:
    def __init__(self, lo=-INF, hi=INF, alo=None, ahi=None):
        self.lo, self.hi, self.alo, self.ahi = lo, hi, alo, ahi

    @property
    def tight(self):
        return self.alo is not None

    def loose(self):
        return Span(self.lo, self.hi)

    def __repr__(self):
        return '[%.6g, %.6g]' % (self.lo, self.hi)



EMPTY = Span(INF, -INF)
TOP = Span()


def union(xs):
    xs = [x for x in xs if x.lo <= x.hi]
    if not xs:
        return EMPTY
    t = [x for x in xs if x.tight]
    return Span(min(x.lo for x in xs), max(x.hi for x in xs),
                min(x.alo for x in t) if t else None,
                max(x.ahi for x in t) if t else None)


def mono(x, f, lo=-INF, hi=INF):
    """A non-decreasing function defined on [lo, hi]; NaN outside."""
    a, b = max(x.lo, lo), min(x.hi, hi)
    if a > b:
        return EMPTY
    r = Span(f(a), f(b))
    if x.tight and max(x.alo, lo) <= min(x.ahi, hi):
        r.alo, r.ahi = f(max(x.alo, lo)), f(min(x.ahi, hi))
    return r


def neg(x):
    if x.lo > x.hi:
        return x
    return Span(-x.hi, -x.lo, None if not x.tight else -x.ahi,
                None if not x.tight else -x.alo)


def mul1(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def hull(xs):
    xs = [x for x in xs if x == x]
    return Span(min(xs), max(xs)) if xs else TOP


def plain_test(c):
    """Conditions that do not restrict the values themselves."""
    if c.op in ('not', 'and', 'or', 'invert', 'xor', 'tuple', 'mul',
                'np.logical_not', 'np.logical_and', 'np.logical_or',
                'bitand', 'bitor', 'any', 'all', 'np.any', 'np.all',
                'fresh', 'truthy'):
        return all(plain_test(x) for x in c.args if isinstance(x, T))
    return c.op not in ('lt', 'le', 'np.less', 'np.greater',
                        'np.less_equal', 'np.greater_equal', 'gamma')


class Spans:
    def __init__(self, leaf=None):
        self.leaf = leaf or (lambda t: None)
        self.memo, self.busy, self.bound = {}, set(), {}

    def of(self, t):
        if not isinstance(t, T):
            return TOP
        if t in self.bound:
            return self.bound[t]
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return TOP
        self.busy.add(t)
        r = self.leaf(t)
        if r is None:
            r = self.infer(t)
        self.busy.discard(t)
        if not self.bound:
            self.memo[t] = r
        return r

    # ------------------------------------------------------------------
    def infer(self, t):
        o, a = t.op, t.args
        if o in ('nan',) or t is NONE or o in ('undef', 'absent'):
            return EMPTY
        if o == 'pi':
            return Span(math.pi, math.pi, math.pi, math.pi)
        if o == 'const':
            v = cval(t)
            if isinstance(v, (int, float)):
                v = float(v)
                return Span(v, v, v, v)
            return TOP
        if o in BOOL_OPS:
            return Span(0.0, 1.0)
        if o in ('len', 'idx', 'size'):
            return Span(0.0, INF)
        if o == 'astype':
            return self.of(a[0]) if 'float' in show(a[1]) else \
                self.of(a[0]).loose()
        if o in PASS:
            return self.of(a[PASS[o]])
        if o == 'item':
            x = self.of(a[0])
            return x if plain_test(a[1]) else x.loose()
        if o == 'gamma' or o in ('np.where', 'where') and len(a) == 3:
            return self.choice(a[0], a[1], a[2])
        if o == 'store':
            return self.stored(a[0], a[1], a[2])
        if o in ('np.concatenate', 'np.vstack', 'np.hstack', 'np.stack',
                 'list', 'tuple', 'np.append'):
            xs = a[0].args if o.startswith('np.') and isinstance(
                a[0], T) and a[0].op in ('tuple', 'list') else a
            return union([self.of(x) for x in xs if isinstance(x, T)])
        if o in ('fold', 'ofold'):
            return self.loop(a[2], a[3], a[4])
        if o == 'mapstore':
            return union([self.of(a[0]), self.of(a[-1])])
        if o == 'map':
            return self.of(a[2])
        if o == 'last':
            return union([self.of(a[2]), self.of(a[3])])
        if o == 'np.interp':
            return self.of(a[2])
        if o in ('np.max', 'np.min', 'np.nanmax', 'np.nanmin', 'np.median',
                 'np.mean', 'np.nanmean', 'np.nanmedian') and \
                len(a) >= 1:
            return self.of(a[0]).loose()
        return self.arith(t, o, a)

    def arith(self, t, o, a):
        if o == 'neg':
            return neg(self.of(a[0]))
        if o in ('np.abs', 'abs', 'np.absolute', 'np.fabs'):
            return self.absolute(self.of(a[0]))
        if o in ('np.sqrt', 'np.square', 'np.exp') and o != 'np.square':
            f, lo = (math.sqrt, 0.0) if o == 'np.sqrt' else (self.exp, -INF)
            return mono(self.of(a[0]), f, lo)
        if o == 'np.square' or o == 'pow' and is_num(a[1]) and \
                cval(a[1]) == 2:
            x = self.absolute(self.of(a[0]))
            return mono(x, lambda v: v * v)
        if o == 'np.hypot':
            x, y = (self.absolute(self.of(v)) for v in a[:2])
            if x.lo > x.hi or y.lo > y.hi:
                return EMPTY
            return Span(math.hypot(x.lo, y.lo), math.hypot(x.hi, y.hi))
        if o in LEAST | MOST and len(a) == 2:
            x, y = self.of(a[0]), self.of(a[1])
            f = min if o in LEAST else max
            if x.lo > x.hi or y.lo > y.hi:
                return EMPTY
            r = Span(f(x.lo, y.lo), f(x.hi, y.hi))
            return r
        if o == 'np.clip' and len(a) >= 3:
            x, p, q = (self.of(v) for v in a[:3])
            if a[1] is NONE:
                p = Span(-INF, -INF)
            if a[2] is NONE:
                q = Span(INF, INF)
            return Span(min(max(x.lo, p.lo), q.hi),
                        max(min(x.hi, q.hi), p.lo))
        if o in ('np.sin', 'np.cos'):
            return self.wave(self.of(a[0]), HALF if o == 'np.cos' else 0.0)
        if o == 'np.tan':
            x = self.of(a[0])
            return mono(x, math.tan) if -HALF < x.lo and x.hi < HALF else TOP
        if o in ('np.arctan', 'np.arcsin'):
            x = self.of(a[0])
            return mono(x, math.atan) if o == 'np.arctan' else \
                mono(x, math.asin, -1.0, 1.0)
        if o == 'np.arccos':
            return neg(mono(self.of(a[0]), lambda v: -math.acos(v),
                            -1.0, 1.0))
        if o == 'np.arctan2':
            y, x = self.of(a[0]), self.of(a[1])
            if y.lo > y.hi or x.lo > x.hi:
                return EMPTY
            if x.lo == x.hi == 1.0:
                return mono(y, math.atan)
            hi = HALF if x.lo >= 0 else math.pi
            if y.lo >= 0:
                return Span(0.0, hi)
            return Span(-hi, hi)
        if o in ('np.rad2deg', 'np.degrees'):
            return mono(self.of(a[0]), math.degrees)
        if o in ('np.deg2rad', 'np.radians'):
            return mono(self.of(a[0]), math.radians)
        if o in ('add', 'sub', 'np.add', 'np.subtract'):
            xs = [self.of(x) for x in a]
            if o.endswith('sub') or o.endswith('subtract'):
                xs[1] = neg(xs[1])
            r = xs[0]
            for x in xs[1:]:
                r = self.plus(r, x)
            return self.sharper(t, r)
        if o in ('mul', 'np.multiply'):
            r = self.of(a[0])
            if len(a) == 2 and a[0] is a[1]:
                return mono(self.absolute(r), lambda v: v * v)
            for x in a[1:]:
                r = self.times(r, self.of(x))
            return r
        if o in ('div', 'np.divide'):
            return self.ratio(a[0], a[1])
        return TOP

    def exp(self, v):
        try:
            return math.exp(v)
        except OverflowError:
            return INF

    def absolute(self, x):
        if x.lo > x.hi:
            return x
        lo = 0.0 if x.lo <= 0 <= x.hi else min(abs(x.lo), abs(x.hi))
        r = Span(lo, max(abs(x.lo), abs(x.hi)))
        if x.tight:
            r.alo = 0.0 if x.alo <= 0 <= x.ahi else min(abs(x.alo),
                                                        abs(x.ahi))
            r.ahi = max(abs(x.alo), abs(x.ahi))
        return r

    def plus(self, x, y):
        if x.lo > x.hi or y.lo > y.hi:
            return EMPTY
        r = Span(x.lo + y.lo, x.hi + y.hi)
        if x.tight and y.tight and (x.lo == x.hi or y.lo == y.hi):
            r.alo, r.ahi = x.alo + y.alo, x.ahi + y.ahi
        return r

    def times(self, x, y):
        if x.lo > x.hi or y.lo > y.hi:
            return EMPTY
        r = hull([mul1(p, q) for p in (x.lo, x.hi) for q in (y.lo, y.hi)])
        if x.tight and y.tight and (x.lo == x.hi or y.lo == y.hi):
            h = hull([mul1(p, q) for p in (x.alo, x.ahi)
                      for q in (y.alo, y.ahi)])
            r.alo, r.ahi = h.lo, h.hi
        return r

    def sharper(self, t, r):
        """1 - x*x with |x| <= 1 and the like are covered by plain
        arithmetic; nothing more is needed here."""
        return r

    def wave(self, x, shift):
        if x.lo > x.hi:
            return x
        lo, hi = x.lo + shift, x.hi + shift

        def over(a, b):
            if b - a >= 2 * math.pi or b == INF or a == -INF:
                return -1.0, 1.0
            vs = [math.sin(a), math.sin(b)]
            k = math.ceil((a - HALF) / math.pi)
            while HALF + k * math.pi <= b:
                vs.append((-1.0) ** k)
                k += 1
            return min(vs), max(vs)
        r = Span(*over(lo, hi))
        if x.tight:
            r.alo, r.ahi = over(x.alo + shift, x.ahi + shift)
        return r

    # -------------------------------------------------------------- ratios
    def bare(self, t):
        while t.op in ('item', 'tofloat', 'tonum', 'fresh') and t.args:
            if t.op == 'item' and not (contains(
                    t.args[1], lambda x: x.op in ('isnan', 'np.isnan'))):
                break
            t = t.args[0]
        return t

    def ordered(self, x, y):
        """0 <= x <= y wherever both are defined, by structure; 'free' when
        every ratio in between occurs."""
        x, y = self.bare(x), self.bare(y)
        if self.of(x).lo < 0 and x.op not in ('np.abs',):
            return None
        if x.op in LEAST and y.op in MOST and set(x.args) == set(y.args) \
                and x.args[0] is not x.args[1]:
            return 'free'
        if y.op in MOST and x in y.args or x.op in LEAST and y in x.args:
            return True
        if y.op == 'np.hypot':
            z = x.args[0] if x.op == 'np.abs' else x
            if z in y.args:
                return True
        return None

    def ratio(self, x, y):
        if x.op == 'neg':
            return neg(self.ratio(x.args[0], y))
        if y.op == 'neg':
            return neg(self.ratio(x, y.args[0]))
        p, q = self.of(x), self.of(y)
        if p.lo > p.hi or q.lo > q.hi:
            return EMPTY
        o = self.ordered(x, y)
        if o:
            return Span(0.0, 1.0, *((0.0, 1.0) if o == 'free' else ()))
        o = self.ordered(y, x)
        if o:
            return Span(1.0, INF, *((1.0, INF) if o == 'free' else ()))
        if q.lo > 0 or q.hi < 0:
            r = Span(*sorted((1 / q.lo, 1 / q.hi)))
            if q.tight:
                r.alo, r.ahi = sorted((1 / q.alo, 1 / q.ahi))
            return self.times(p, r)
        if p.lo >= 0 and q.lo >= 0:
            return Span(0.0, INF)
        return TOP

    # ------------------------------------------------------------- choices
    def choice(self, c, x, y):
        p, q = self.of(x), self.of(y)
        if not plain_test(c):
            p = self.under(c, True, x, p)
            q = self.under(c, False, y, q)
        return union([p, q])

    def under(self, c, pol, x, p):
        """Span of x where the condition has this polarity."""
        p = p.loose()
        if c.op in ('not', 'invert', 'np.logical_not'):
            return self.under(c.args[0], not pol, x, p)
        if c.op == 'and' and pol or c.op == 'or' and not pol:
            for k in c.args:
                p = self.under(k, pol, x, p)
            return p
        if c.op in ('lt', 'le'):
            u, v = c.args
            if not pol:
                u, v = v, u
            if u is x:
                b = self.of(v)
                p = Span(p.lo, min(p.hi, b.hi))
            elif v is x:
                b = self.of(u)
                p = Span(max(p.lo, b.lo), p.hi)
        return p

    def stored(self, base, ix, v):
        p, q = self.of(base), self.of(v)
        if plain_test(ix):
            if ix.op == 'slice' and all(x is NONE for x in ix.args):
                return q
            return union([p, q])
        p = self.under(ix, False, base, p)
        if v.op == 'item' and v.args[1] is ix:
            q = self.under(ix, True, v.args[0], self.of(v.args[0]))
        else:
            q = q.loose()
        return union([p, q])

    def loop(self, init, bv, body):
        s = first = self.of(init)
        for k in range(4):
            saved = dict(self.bound)
            self.bound[bv] = s
            n = union([s, self.of(body)])
            self.bound = saved
            if (n.lo, n.hi) == (s.lo, s.hi):
                return n
            s = n
        return Span(-INF if s.lo < first.lo else s.lo,
                    INF if s.hi > first.hi else s.hi)
