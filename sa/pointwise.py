"""Evaluation of value-flow terms at one generic point, for one row of a
decision table. Base values (stored arrays at the point, scalars) are given by
the row; everything between them and the result is decided from the term. The
arithmetic is exact (rationals) with IEEE NaN semantics. Constructs outside
the fragment raise Unknown, and the row stays undecided."""
import math
import struct
from fractions import Fraction as Q
from .terms import *

NAN = float('nan')
REDUCTION = {'np.min', 'np.max', 'np.nanmin', 'np.nanmax', 'np.sum',
             'np.nansum', 'np.any', 'np.all', 'np.mean', 'np.nanmean',
             'np.prod'}


class Unknown(Exception):
    pass


class Raises(Exception):
    pass


def nan(x):
    return isinstance(x, float) and x != x


def num(x):
    if isinstance(x, bool):
        return Q(int(x))
    if isinstance(x, (Q, int)):
        return Q(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return x
        return Q(x)
    raise Unknown('not a number')


def truth(x):
    if isinstance(x, bool):
        return x
    if x is None:
        return False
    if isinstance(x, (Q, int, float)):
        return bool(x != 0) if not nan(x) else True
    raise Unknown('truth')


BOOL1 = {'not', 'invert', 'np.logical_not', 'np.bitwise_not'}
OR = {'or', 'bitor', 'np.logical_or', 'np.bitwise_or'}
AND = {'and', 'bitand', 'np.logical_and', 'np.bitwise_and'}
XOR = {'xor', 'bitxor', 'np.logical_xor', 'np.bitwise_xor', 'ne',
       'np.not_equal'}
COPY = {'np.copy', 'copy', 'np.array', 'np.asarray', 'np.ascontiguousarray',
        'fresh', 'nonan', 'toarray', 'np.squeeze', 'np.asanyarray'}


def plain(t):
    """Options that evaluation does not know make a call unknown."""
    known = {'np.linspace': None, 'np.geomspace': None}.get(t.op, (
        'keepdims', 'initial') if t.op in REDUCTION else ())
    if known is not None and any(
            isinstance(x, T) and x.op == 'kw' and x.args[0] not in known
            for x in t.args):
        raise Unknown('options of ' + t.op)


class Point:
    def __init__(self, val, count=None):
        self.val = dict(val)
        self.memo = {}
        self.count = count or {}

    def ev(self, t):
        v = self.val.get(t, self)
        if v is not self:
            if isinstance(v, Exception):
                raise v
            return v
        r = self.memo.get(t)
        if r is None:
            try:
                plain(t)
                r = (self.ev0(t),)
            except (Unknown, Raises) as e:
                r = e
            self.memo[t] = r
        if isinstance(r, Exception):
            raise r
        return r[0]

    def ev0(self, t):
        o, a = t.op, t.args
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t is NONE:
            return None
        if o == 'nan':
            return NAN
        if o == 'const':
            v = cval(t)
            if isinstance(v, bool) or isinstance(v, str):
                return v
            if isinstance(v, (int, float)):
                return num(v)
            raise Unknown(o)
        if o == 'gamma':
            return self.ev(a[1] if truth(self.ev(a[0])) else a[2])
        if o == 'isnone':
            return self.ev(a[0]) is None
        if o in ('truthy', 'tobool'):
            if a[0].op in ('list', 'seq', 'tuple'):
                return bool(self.elems(a[0]))
            return truth(self.ev(a[0]))
        if o == 'len':
            return Q(len(self.elems(a[0])))
        if o in ('isnan', 'np.isnan'):
            return nan(num(self.ev(a[0])))
        if o in ('isfinite', 'np.isfinite'):
            x = num(self.ev(a[0]))
            return not (isinstance(x, float))
        if o in BOOL1:
            x = self.ev(a[0])
            if o == 'invert' and not isinstance(x, bool):
                raise Unknown('~ of a number')
            return not truth(x)
        if o in OR or o in AND:
            some, unk = [], None
            stop = o in OR
            for x in a:
                try:
                    v = truth(self.ev(x))
                except (Unknown, Raises) as e:
                    unk = unk or e
                    continue
                if v == stop:
                    return stop
            if unk:
                raise unk
            return not stop
        if o in XOR or o in ('eq', 'np.equal'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None or isinstance(x, str):
                r = x == y
            else:
                r = num(x) == num(y)
            return r == (o in ('eq', 'np.equal'))
        if o in ('lt', 'le', 'np.less', 'np.less_equal', 'np.greater',
                 'np.greater_equal'):
            x, y = num(self.ev(a[0])), num(self.ev(a[1]))
            if o.startswith('np.greater'):
                x, y = y, x
            if nan(x) or nan(y):
                return False
            return x <= y if o in ('le', 'np.less_equal',
                                   'np.greater_equal') else x < y
        if o in ('add', 'mul', 'np.add', 'np.multiply'):
            vs = [self.ev(x) for x in a]
            if all(isinstance(v, bool) for v in vs):
                return any(vs) if o.endswith('d') else all(vs)
            r = num(vs[0])
            for v in vs[1:]:
                r = arith(o[-3:], r, num(v))
            return r
        if o in ('sub', 'div', 'np.subtract', 'np.divide', 'pow', 'floordiv',
                 'mod'):
            x, y = num(self.ev(a[0])), num(self.ev(a[1]))
            return arith(o.replace('np.', '')[:3], x, y)
        if o == 'neg':
            return -num(self.ev(a[0]))
        if o in ('abs', 'np.abs', 'np.absolute', 'np.fabs'):
            return abs(num(self.ev(a[0])))
        if o in ('np.sqrt',):
            x = num(self.ev(a[0]))
            if nan(x):
                return x
            if x < 0:
                return NAN
            r = math.isqrt(int(x)) if x == int(x) else None
            if r is not None and r * r == x:
                return Q(r)
            return math.sqrt(x)
        if o in ('np.maximum', 'np.minimum', 'max', 'min', 'np.fmax',
                 'np.fmin') and len(a) == 2:
            x, y = num(self.ev(a[0])), num(self.ev(a[1]))
            if nan(x) or nan(y):
                if o.startswith('np.f'):
                    return y if nan(x) else x
                if o.startswith('np.'):
                    return NAN
                raise Unknown(o)
            return max(x, y) if 'ax' in o else min(x, y)
        if o in ('np.floor', 'np.ceil', 'np.trunc', 'np.fix'):
            x = num(self.ev(a[0]))
            return x if isinstance(x, float) else Q(ROUND[o](x))
        if o in ('np.mod', 'np.remainder', 'np.fmod'):
            x, y = num(self.ev(a[0])), num(self.ev(a[1]))
            if o == 'np.fmod' and not nan(x) and not nan(y) and x < 0:
                return -arith('mod', -x, abs(y))
            return arith('mod', x, abs(y) if o == 'np.fmod' else y)
        if o == 'np.sign':
            x = num(self.ev(a[0]))
            return x if nan(x) else Q((x > 0) - (x < 0))
        if o in ('np.reciprocal', 'np.square', 'square'):
            x = num(self.ev(a[0]))
            return arith('div', Q(1), x) if o == 'np.reciprocal' else \
                arith('mul', x, x)
        if o == 'np.copysign':
            x, y = num(self.ev(a[0])), num(self.ev(a[1]))
            if nan(y) or y == 0:
                raise Unknown('sign')
            return abs(x) if y > 0 else -abs(x)
        if o in ('np.clip', 'clip') and len(a) == 3:
            x = num(self.ev(a[0]))
            for b, f in ((a[1], max), (a[2], min)):
                b = self.ev(b)
                if b is not None and not nan(x):
                    x = num(b) if nan(num(b)) else f(x, num(b))
            return x
        if o in ('np.isclose', 'math.isclose'):
            return near(o, [self.ev(x) for x in a])
        if o in ('np.nextafter', 'np.spacing'):
            vs = [num(self.ev(x)) for x in a]
            if isinstance(vs[0], float) or Q(float(vs[0])) != vs[0]:
                raise Unknown('no double')
            x = float(vs[0])
            return num(math.nextafter(x, float(vs[1])) if len(vs) > 1 else
                       math.copysign(math.ulp(x), x))
        if o == 'astype':
            x = self.ev(a[0])
            ty = a[1]
            ty = cval(ty) if isinstance(ty, T) and ty.op == 'const' else \
                ty if isinstance(ty, str) else show(ty)
            if 'bool' in ty:
                return truth(x)
            narrow = {'float32': 'f', 'f4': 'f', 'single': 'f',
                      'float16': 'e', 'f2': 'e', 'half': 'e'}.get(
                          ty.split('.')[-1].strip("'\"<>=)("))
            if narrow:
                x = num(x)
                return x if nan(x) else num(struct.unpack(
                    narrow, struct.pack(narrow, float(x)))[0])
            if 'float' in ty:
                return num(x)
            if 'int' in ty and not nan(num(x)):
                return num(math.trunc(num(x)))
            raise Unknown(o)
        if o in COPY:
            return self.ev(a[0])
        if o in ('np.round', 'np.around', 'np.rint', 'round'):
            x = num(self.ev(a[0]))
            n = self.ev(a[1]) if len(a) > 1 else Q(0)
            if isinstance(x, float):
                return x
            return num(round(Q(x), int(n or 0)))
        if o == 'toint':
            x = self.ev(a[0])
            if isinstance(x, float):
                raise Raises('int() of ' + str(x))
            return x if isinstance(x, bool) else Q(math.trunc(num(x)))
        if o in ('tonum', 'tofloat'):
            return self.ev(a[0])
        if o in ('full', 'full_like'):
            return self.ev(a[1])
        if o == 'filled':
            return self.ev(a[1])
        if o in ('np.where', 'where') and len(a) == 3:
            return self.ev(a[1] if truth(self.ev(a[0])) else a[2])
        if o == 'np.nan_to_num':
            x = num(self.ev(a[0]))
            if nan(x):
                return Q(0) if len(a) == 1 else self.ev(a[1])
            return x
        if o == 'store':
            c, i, v = a
            m = self.mask(i)
            return self.ev(v) if m else self.ev(c)
        if o == 'item':
            if self.mask(a[1]):
                return self.ev(a[0])
            raise Unknown('element not selected')
        if o == 'fold':
            return self.fold(t)
        if o in ('np.any', 'any', 'np.all', 'all', 'np.sum', 'np.max',
                 'np.logical_or.reduce', 'np.logical_and.reduce'):
            return self.reduce(o, a)
        raise Unknown(o)

    def elems(self, t):
        """Terms of the elements of a sequence term in this row."""
        o = t.op
        if o in ('list', 'tuple'):
            return list(t.args)
        if o == 'one':
            return [t.args[0]]
        if o in ('segs', 'np.stack', 'stack', 'np.array', 'np.asarray'):
            return self.elems(t.args[0])
        if o == 'seq':
            return [y for x in t.args for y in self.elems(x)]
        if o == 'gamma':
            return self.elems(t.args[1 if truth(self.ev(t.args[0])) else 2])
        if o == 'map':
            n, idx, body, cond = t.args
            k = self.ev(n)
            if not isinstance(k, (int, Q)) or k > 20:
                raise Unknown('count')
            out = []
            for j in range(int(k)):
                def f(x):
                    return const(j) if x is idx else x
                if truth(self.ev(rewrite(cond, f))):
                    out.append(rewrite(body, f))
            return out
        raise Unknown('elements of ' + o)

    def mask(self, i):
        """Is the point selected by this index?"""
        if i.op in ('slice', 'const', 'ellipsis') and i not in self.val:
            if i.args == (NONE, NONE, NONE) or i.op == 'ellipsis':
                return True
            raise Unknown('index')
        if i.op in ('np.where', 'np.nonzero') and len(i.args) == 1:
            return truth(self.ev(i.args[0]))
        if i.op == 'tuple':
            raise Unknown('index')
        v = self.ev(i)
        if not isinstance(v, bool):
            raise Unknown('index is no mask')
        return v

    def fold(self, t):
        n, idx, init, bv, body = t.args
        k = self.ev(n)
        if not isinstance(k, (int, Q)) or k > 20:
            raise Unknown('count')
        acc = self.ev(init)
        for j in range(int(k)):
            sub = Point(self.val)
            b = rewrite(body, lambda x: const(j) if x is idx else x)
            sub.val[bv] = acc
            acc = sub.ev(b)
        return acc

    def reduce(self, o, a):
        """Reduction over a stack of arrays: along the first axis."""
        if len(a) > 1 and a[1] is not const(0):
            raise Unknown(o)
        if len(a) == 1 and not o.endswith('reduce'):
            raise Unknown(o)
        vs = [self.ev(x) for x in self.elems(a[0])]
        if not vs:
            raise Unknown('empty')
        if o in ('np.sum', 'np.max'):
            vs = [num(v) for v in vs]
            if any(nan(v) for v in vs):
                return NAN
            return sum(vs) if o == 'np.sum' else max(vs)
        return any(map(truth, vs)) if 'any' in o or 'or' in o else \
            all(map(truth, vs))


ROUND = {'np.floor': math.floor, 'np.ceil': math.ceil,
         'np.trunc': math.trunc, 'np.fix': math.trunc}


def near(o, vs):
    x, y = num(vs[0]), num(vs[1])
    if o.startswith('math') or len(vs) == 2:
        r, t = [num(v) for v in vs[2:]] or (Q(1, 10 ** 5), Q(1, 10 ** 8))
    else:
        r, t = num(vs[2]), num(vs[3])
    if nan(x) or nan(y):
        return len(vs) > 4 and truth(vs[4]) and nan(x) and nan(y)
    if x == y:
        return True
    if isinstance(x, float) and abs(x) == math.inf or \
            isinstance(y, float) and abs(y) == math.inf:
        return False
    if o.startswith('math'):
        return abs(x - y) <= max(r * max(abs(x), abs(y)), t)
    return abs(x - y) <= t + r * abs(y)


def arith(o, x, y):
    if nan(x) or nan(y):
        return NAN
    inf = isinstance(x, float) or isinstance(y, float)
    if inf and (abs(x) == math.inf or abs(y) == math.inf):
        raise Unknown('infinite')
    if o in ('add', 'Add'):
        return x + y
    if o in ('sub',):
        return x - y
    if o in ('mul', 'ply'):
        return x * y
    if o == 'div':
        if y == 0:
            raise Unknown('division by zero')
        return x / y
    if o == 'pow':
        if isinstance(y, Q) and y.denominator == 1 and abs(y) < 8:
            if x == 0 and y < 0:
                raise Unknown('division by zero')
            return x ** int(y)
        if y == Q(1, 2) and x >= 0:
            return math.sqrt(x)
        raise Unknown('power')
    if o in ('flo', 'mod'):
        if y == 0:
            raise Unknown('division by zero')
        q = Q(math.floor(x / y))
        return q if o == 'flo' else x - y * q
    raise Unknown(o)


def consistent(st, pt, need=()):
    """Do the path facts hold in this row? True / None (undecided) / False."""
    und = False
    for t, p in st.facts.items():
        try:
            v = pt.ev(t)
        except (Unknown, Raises):
            if any(contains(t, lambda x, n=n: x is n) for n in need):
                und = True
            continue
        if isinstance(v, (bool,)) and v != p:
            return False
    return None if und else True
