"""Element-wise evaluation of value-flow terms of arrays: the shape of a term
and its element at one position, given the shape and the elements of the stored
arrays it is built from. Views, index expressions, masks, broadcasting,
concatenation and quadrant stores are followed position by position, so an
element that ends up in the wrong place is seen. Values may be opaque tags;
arithmetic on tags stays undecided. Anything else raises Unknown."""
import itertools
import math
from .pointwise import *

SAME = COPY | {'neg', 'np.abs', 'np.sqrt', 'astype', 'isnan', 'np.isnan',
               'not', 'invert', 'np.deg2rad', 'np.rad2deg', 'np.sin',
               'np.cos', 'np.tan', 'np.arctan', 'np.arcsin', 'np.arccos',
               'np.isfinite', 'isfinite', 'np.logical_not', 'np.nan_to_num',
               'np.square', 'np.exp', 'np.log', 'np.sign', 'np.round',
               'np.floor', 'np.ceil', 'np.trunc', 'np.fix', 'np.reciprocal',
               'np.spacing'}
BROAD = {'add', 'sub', 'mul', 'div', 'pow', 'mod', 'floordiv', 'lt', 'le',
         'eq', 'ne', 'or', 'and', 'xor', 'bitor', 'bitand', 'bitxor',
         'np.maximum', 'np.minimum', 'np.arctan2', 'np.hypot', 'np.where',
         'where', 'np.logical_or', 'np.logical_and', 'np.add', 'np.multiply',
         'np.subtract', 'np.divide', 'np.less', 'np.greater', 'np.fmax',
         'np.fmin', 'np.power', 'np.equal', 'np.not_equal', 'np.less_equal',
         'np.greater_equal', 'max', 'min', 'np.isclose', 'np.mod',
         'np.fmod', 'np.remainder', 'np.copysign', 'np.nextafter'}
STACKED = {'np.vstack', 'np.hstack', 'np.column_stack'}
PRODUCT = {'np.dot', 'np.matmul', 'matmul'}
EXTREMES = {'np.nanargmin', 'np.argmin', 'np.nanargmax', 'np.argmax'}
FLATTEN = {'np.flatten', 'flatten', 'np.ravel', 'ravel'}


ROW = {'np.sort', 'np.argsort', 'np.unique', 'np.cumsum'}
SPACED = {'np.linspace', 'np.geomspace'}


def reduced(o, vs):
    if o in ('np.any', 'np.all'):
        return (any if o == 'np.any' else all)(map(truth, vs))
    vs = [num(v) for v in vs]
    if o.startswith('np.nan'):
        vs = [v for v in vs if not nan(v)]
        if not vs:
            return Q(0) if o == 'np.nansum' else NAN
    elif any(map(nan, vs)):
        return NAN
    if o in ('np.sum', 'np.nansum'):
        return sum(vs, Q(0))
    if o == 'np.prod':
        return math.prod(vs)
    if not vs:
        raise Raises('ValueError')
    if 'mean' in o:
        return sum(vs, Q(0)) / len(vs)
    return max(vs) if 'max' in o else min(vs)


def started(t):
    """A reduction with an initial value and nothing else."""
    k = t.args[1]
    return t.op in ('np.sum', 'np.max', 'np.min') and isinstance(k, T) and \
        k.op == 'kw' and k.args[0] == 'initial'


class Tag:
    """An opaque element value."""

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Tag) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'tag%r' % (self.key,)


def full_slice(t):
    return t.op == 'slice' and all(x is NONE for x in t.args)


class Located(Point):
    """arrays: {term: (shape, function of the index tuple)}"""

    def __init__(self, val, arrays):
        Point.__init__(self, val)
        self.arrays = arrays
        self.shapes = {}
        self.elts = {}

    # ------------------------------------------------------------- scalars
    def ev0(self, t):
        o, a = t.op, t.args
        if o == 'len':
            try:
                return Q(self.shape(a[0])[0])
            except IndexError:
                raise Unknown('len of a scalar')
            except Unknown:
                return Point.ev0(self, t)
        if o in ('size', 'np.size'):
            n = 1
            for k in self.shape(a[0]):
                n *= k
            return Q(n)
        if o in ('np.prod', 'math.prod') and len(a) == 1 and (
                a[0].op in ('shape', 'np.shape', 'tuple') or
                a[0].op == 'fld' and a[0].args[1].endswith('_shape')):
            return Q(math.prod(self.dims(a[0])))
        if o in EXTREMES and len(a) == 1:
            return Q(self.extreme(o, a[0]))
        if o == 'item':
            if a[0].op in ('shape', 'np.shape') and is_int(a[1]):
                return Q(self.shape(a[0].args[0])[cval(a[1])])
            if a[0].op == 'np.unravel_index' and is_int(a[1]):
                return Q(self.unravelled(*a[0].args)[cval(a[1])])
            if self.known(t) == ():
                return self.at(t, ())
        if o in ('truthy', 'tobool') and a[0].op in BROAD | SAME | {'item'}:
            return truth(self.ev(a[0]))
        if o in ('np.any', 'any', 'np.all', 'all', 'np.sum', 'np.nanmin',
                 'np.min', 'np.max', 'np.nanmax') and (
                len(a) == 1 or len(a) == 2 and started(t)):
            vs = [self.at(a[0], i) for i in self.indices(self.shape(a[0]))]
            if o in ('np.any', 'any'):
                return any(map(truth, vs))
            if o in ('np.all', 'all'):
                return all(map(truth, vs))
            vs = [num(v) for v in vs]
            if len(a) == 2:
                vs.append(num(self.ev(a[1].args[1])))
            if o == 'np.sum':
                return sum(vs)
            if o.startswith('np.nan'):
                vs = [v for v in vs if not nan(v)]
            elif any(map(nan, vs)):
                return NAN
            if not vs:
                raise Unknown('empty')
            return max(vs) if 'max' in o else min(vs)
        if o == 'np.hypot':
            x, y = num(self.ev(a[0])), num(self.ev(a[1]))
            return root(x * x + y * y)
        if o == 'np.square':
            x = num(self.ev(a[0]))
            return x * x
        if o in ('np.sqrt',):
            return root(num(self.ev(a[0])))
        return Point.ev0(self, t)

    def extreme(self, o, x):
        """Flat index of the first extreme element."""
        vs = [num(self.at(x, i)) for i in self.indices(self.shape(x))]
        free = [k for k, v in enumerate(vs) if not nan(v)]
        if o.startswith('np.nan'):
            if not free:
                raise Raises('All-NaN slice encountered')
        elif len(free) < len(vs):
            return next(k for k, v in enumerate(vs) if nan(v))
        if not vs:
            raise Raises('empty sequence')
        best = max if o.endswith('max') else min
        return best(free, key=lambda k: (vs[k], -k) if best is max
                    else (vs[k], k))

    def unravelled(self, flat, shape, order=None):
        k, out = self.integer(flat), []
        dims = self.dims(shape)
        if order is not None:
            if order is not const('F'):
                raise Unknown('index order')
            for d in dims:
                out.append(k % d)
                k //= d
            if k:
                raise Raises('index out of bounds')
            return out
        for d in dims[::-1]:
            out.append(k % d)
            k //= d
        if k:
            raise Raises('index out of bounds')
        return out[::-1]

    def known(self, t):
        try:
            return self.shape(t)
        except Unknown:
            return None

    def indices(self, shape):
        n = 1
        for k in shape:
            n *= k
        if n > 600:
            raise Unknown('too many elements')
        return itertools.product(*map(range, shape))

    def integer(self, t):
        v = num(self.ev(t))
        if nan(v) or v != int(v):
            raise Unknown('not an integer')
        return int(v)

    def spacing(self, a):
        """(first, last, number, intervals) of np.linspace"""
        pos = [x for x in a if x.op != 'kw']
        more = {x.args[0]: x.args[1] for x in a if x.op == 'kw'}
        more.update(zip(('num', 'endpoint'), pos[2:4]))
        if len(pos) > 4 or set(more) - {'num', 'endpoint', 'dtype'} or \
                more.get('dtype', NONE) not in (NONE, const('float64'),
                                                const('float')):
            raise Unknown('linspace')
        n = self.integer(more['num']) if 'num' in more else 50
        if n < 0:
            raise Raises('ValueError')
        end = 'endpoint' not in more or truth(self.ev(more['endpoint']))
        return (num(self.ev(pos[0])), num(self.ev(pos[1])), n,
                n - 1 if end else n)

    # -------------------------------------------------------------- shapes
    def shape(self, t):
        r = self.shapes.get(t)
        if r is None:
            try:
                plain(t)
                r = self.shape0(t)
            except (Unknown, Raises) as e:
                r = e
            self.shapes[t] = r
        if isinstance(r, Exception):
            raise r
        return r

    def shape0(self, t):
        o, a = t.op, t.args
        if t in self.arrays:
            return tuple(self.arrays[t][0])
        if t in self.val or o in ('const', 'nan', 'len', 'ext'):
            return ()
        if o == 'gamma':
            return self.shape(a[1 if truth(self.ev(a[0])) else 2])
        if o in SAME:
            return self.shape(a[0])
        if o in BROAD:
            return self.broadcast([self.shape(x) for x in a
                                   if isinstance(x, T)])
        if o in FLATTEN:
            n = 1
            for k in self.shape(a[0]):
                n *= k
            return (n,)
        if o in ('np.flip', 'np.interp'):
            return self.shape(a[0])
        if o in ROW and len(a) == 1:
            return (len(self.row(t)),)
        if o == 'np.squeeze':
            return tuple(k for k in self.shape(a[0]) if k != 1)
        if o in ('np.transpose', 'np.T') and len(a) == 1:
            return self.shape(a[0])[::-1]
        if o in ('full', 'np.full'):
            return self.dims(a[0])
        if o in ('full_like', 'np.full_like', 'filled'):
            return self.shape(a[0])
        if o in SPACED:
            return (self.spacing(a)[2],)
        if o == 'np.arange':
            return (len(self.arange(a)),)
        if o in ('store', 'mapstore'):
            return self.shape(a[0])
        if o in ('fold', 'ofold'):
            return self.shape(a[2])
        if o == 'np.repeat' and len(a) >= 3:
            s = list(self.shape(a[0]))
            k = self.axis(a[2], len(s))
            s[k] *= self.integer(a[1])
            return tuple(s)
        if o == 'np.delete' and len(a) >= 3:
            s = list(self.shape(a[0]))
            k = self.axis(a[2], len(s))
            s[k] -= len(self.positions(a[1], s[k]))
            return tuple(s)
        if o in ('np.concatenate', 'concatenate'):
            xs = self.elems(a[0])
            ss = [list(self.shape(x)) for x in xs]
            k = self.axis(a[1], len(ss[0])) if len(a) > 1 else 0
            if any(s[:k] + s[k + 1:] != ss[0][:k] + ss[0][k + 1:]
                   for s in ss):
                raise Raises('shapes do not match')
            ss[0][k] = sum(s[k] for s in ss)
            return tuple(ss[0])
        if o == 'np.reshape' and len(a) == 2:
            return self.reshaped(a)
        if o == 'np.broadcast_to' and len(a) == 2:
            s = tuple(self.dims(a[1]))
            self.broadcast([self.shape(a[0]), s])
            return s
        if o == 'np.append' and len(a) == 2:
            return (sum(math.prod(self.shape(x)) for x in a),)
        if o in STACKED:
            xs, k = self.stacked(t)
            ss = [list(s) for s, get in xs]
            if any(s[:k] + s[k + 1:] != ss[0][:k] + ss[0][k + 1:]
                   for s in ss):
                raise Raises('shapes do not match')
            ss[0][k] = sum(s[k] for s in ss)
            return tuple(ss[0])
        if o in REDUCTION and len(a) > 1:
            s, ks, keep = self.along(a)
            return tuple(1 if k in ks else n for k, n in enumerate(s)
                         if keep or k not in ks)
        if o in PRODUCT and len(a) == 2:
            s, u = self.shape(a[0]), self.shape(a[1])
            if not s or not u:
                return self.broadcast([s, u])
            if len(s) > 2 or len(u) > 2:
                raise Unknown('product')
            if s[-1] != u[0]:
                raise Raises('shapes do not match')
            return s[:-1] + u[1:]
        if o in ('list', 'tuple', 'np.stack'):
            xs = self.elems(t)
            return (len(xs),) + (self.shape(xs[0]) if xs else ())
        if o in ('shape', 'np.shape'):
            return (len(self.shape(a[0])),)
        if o == 'np.unravel_index':
            return (len(self.dims(a[1])),)
        if o == 'item':
            return self.item_shape(a[0], a[1])
        try:
            self.ev(t)
        except Raises as e:
            raise Unknown(str(e))
        return ()

    def along(self, a):
        """(shape, axes, whether they are kept) of a reduction"""
        s = self.shape(a[0])
        pos = [x for x in a[1:] if x.op != 'kw']
        keep = any(truth(self.ev(x.args[1])) for x in a
                   if x.op == 'kw' and x.args[0] == 'keepdims')
        if len(pos) > 1:
            raise Unknown('reduction')
        if not pos or pos[0] is NONE:
            return s, list(range(len(s))), keep
        xs = pos[0].args if pos[0].op == 'tuple' else [pos[0]]
        ks = [self.axis(x, len(s)) for x in xs]
        if any(not 0 <= k < len(s) for k in ks):
            raise Raises('axis out of bounds')
        return s, ks, keep

    def stacked(self, t):
        """([(shape, element function)], axis) of a stack of arrays"""
        out = []
        for x in self.elems(t.args[0]):
            s = self.shape(x)

            def get(ix, x=x, s=s):
                return self.at(x, ix[:len(s)] if t.op != 'np.vstack'
                               else ix[len(ix) - len(s):])
            if t.op == 'np.vstack' and len(s) < 2:
                s = (1,) * (2 - len(s)) + s
            elif t.op == 'np.column_stack' and len(s) == 1:
                s = s + (1,)
            elif not s:
                s = (1,)
            out.append((s, get))
        if not out:
            raise Raises('nothing to stack')
        one = len(out[0][0]) == 1 or t.op == 'np.vstack'
        return out, 0 if one else 1

    def row(self, t):
        """The elements of a function of a whole one-dimensional array."""
        x = t.args[0]
        s = self.shape(x)
        if len(s) != 1:
            raise Unknown(t.op + ' of more than one dimension')
        v = [num(self.at(x, (k,))) for k in range(s[0])]
        order = sorted(range(len(v)), key=lambda k: (
            nan(v[k]), 0 if nan(v[k]) else v[k]))
        if t.op == 'np.argsort':
            if len({x for x in v if not nan(x)}) + sum(
                    nan(x) for x in v) < len(v):
                raise Unknown('order of equal elements')
            return [Q(k) for k in order]
        if t.op == 'np.cumsum':
            out = []
            for x in v:
                out.append(x if not out else NAN if nan(x) or nan(
                    out[-1]) else out[-1] + x)
            return out
        out = [v[k] for k in order]
        if t.op == 'np.unique':
            out = [x for k, x in enumerate(out) if not k or not (
                nan(x) and nan(out[k - 1]) or x == out[k - 1])]
        return out

    def reshaped(self, a):
        s = list(self.dims(a[1]))
        n = math.prod(self.shape(a[0]))
        if s.count(-1) == 1:
            k = math.prod(x for x in s if x != -1)
            if k:
                s[s.index(-1)] = n // k
        if math.prod(s) != n or any(x < 0 for x in s):
            raise Raises('cannot reshape %d elements into %s' % (n, s))
        return tuple(s)

    def dims(self, t):
        if t.op == 'tuple' or t.op == 'list':
            return tuple(self.integer(x) for x in t.args)
        if t.op in ('shape', 'np.shape'):
            return self.shape(t.args[0])
        if t.op == 'gamma':
            return self.dims(t.args[1 if truth(self.ev(t.args[0])) else 2])
        if t in self.val and isinstance(self.val[t], tuple):
            return self.val[t]
        return (self.integer(t),)

    def axis(self, t, rank):
        k = self.integer(t)
        return k + rank if k < 0 else k

    def arange(self, a):
        v = [self.integer(x) for x in a if isinstance(x, T)]
        return range(*v)

    def positions(self, t, n):
        xs = [t] if self.known(t) == () else self.elems(t)
        return sorted({self.integer(x) % n for x in xs})

    def broadcast(self, shapes):
        r = max(map(len, shapes))
        out = [1] * r
        for s in shapes:
            for k, d in enumerate(s):
                j = r - len(s) + k
                if d != 1:
                    if out[j] not in (1, d):
                        raise Raises('shapes do not broadcast')
                    out[j] = d
        return tuple(out)

    def split_index(self, i, rank):
        els = list(i.args) if i.op == 'tuple' else [i]
        if i.op == 'np.unravel_index':      # a tuple of positions
            els = [mk('item', i, const(k)) for k in range(self.shape(i)[0])]
        dots = [k for k, e in enumerate(els) if e.op == 'ellipsis' or
                e is const(...)]
        if dots:
            k = dots[0]
            miss = rank - sum(e is not NONE for e in els) + 1
            els[k:k + 1] = [mk('slice', NONE, NONE, NONE)] * miss
        return els

    def span(self, e, n):
        cut = [None if x is NONE else self.integer(x) for x in e.args]
        return range(n)[slice(*cut)]

    def mgrid(self, b, i):
        """np.mgrid[:a, :b]: index grids"""
        if b.op == 'ext' and b.args[0] in ('numpy.mgrid', 'numpy.ogrid'):
            els = list(i.args) if i.op == 'tuple' else [i]
            out = []
            for e in els:
                if e.op != 'slice' or e.args[1] is NONE:
                    raise Unknown('mgrid')
                lo = 0 if e.args[0] is NONE else self.integer(e.args[0])
                hi = self.integer(e.args[1])
                if e.args[2] is not NONE:
                    raise Unknown('mgrid step')
                out.append((lo, hi))
            return out
        return None

    def item_shape(self, b, i):
        m = self.mgrid(b, i)
        if m is not None:
            return (len(m),) + tuple(hi - lo for lo, hi in m)
        s = list(self.shape(b))
        out, k = [], 0
        for e in self.split_index(i, len(s)):
            if e is NONE:
                out.append(1)
                continue
            if k >= len(s):
                raise Raises('too many indices')
            if e.op == 'slice':
                out.append(len(self.span(e, s[k])))
                k += 1
                continue
            es = self.shape(e)
            if es == ():
                v = self.ev(e)
                if isinstance(v, bool):
                    raise Unknown('boolean index')
                k += 1
            elif self.boolean(e):
                raise Unknown('selection')
            else:
                out += list(es)
                k += 1
        return tuple(out) + tuple(s[k:])

    def boolean(self, e):
        s = self.shape(e)
        if 0 in s:
            return False
        return isinstance(self.at(e, (0,) * len(s)), bool)

    # ------------------------------------------------------------ elements
    def at(self, t, ix):
        key = (t, ix)
        r = self.elts.get(key)
        if r is None:
            try:
                plain(t)
                r = (self.at0(t, ix),)
            except (Unknown, Raises) as e:
                r = e
            self.elts[key] = r
        if isinstance(r, Exception):
            raise r
        return r[0]

    def sub(self, x, ix):
        """Element of an operand broadcast to the position ix."""
        s = self.shape(x)
        j = ix[len(ix) - len(s):] if s else ()
        return self.at(x, tuple(0 if d == 1 else k for d, k in zip(s, j)))

    def at0(self, t, ix):
        o, a = t.op, t.args
        if t in self.arrays:
            s = self.arrays[t][0]
            if any(not 0 <= k < n for k, n in zip(ix, s)):
                raise Raises('index out of range')
            return self.arrays[t][1](ix)
        if t in self.val:
            return self.ev(t)
        if o == 'gamma':
            return self.at(a[1 if truth(self.ev(a[0])) else 2], ix)
        if o in COPY:
            return self.at(a[0], ix)
        if o in ('np.where', 'where') and len(a) == 3:
            return self.sub(a[1] if truth(self.sub(a[0], ix)) else a[2], ix)
        if o in SAME or o in BROAD:
            return self.apply(t, lambda x: self.sub(x, ix))
        if o in FLATTEN:
            s = self.shape(a[0])
            k, out = ix[0], []
            for d in s[::-1]:
                out.append(k % d)
                k //= d
            return self.at(a[0], tuple(out[::-1]))
        if o == 'np.flip':
            s = self.shape(a[0])
            if len(a) > 1 and a[1] is not NONE:
                xs = a[1].args if a[1].op == 'tuple' else [a[1]]
                ks = [self.axis(x, len(s)) for x in xs]
            else:
                ks = range(len(s))
            return self.at(a[0], tuple(
                s[k] - 1 - j if k in ks else j for k, j in enumerate(ix)))
        if o in ROW and len(a) == 1:
            return self.row(t)[ix[0]]
        if o == 'np.squeeze':
            it = iter(ix)
            return self.at(a[0], tuple(
                0 if d == 1 else next(it) for d in self.shape(a[0])))
        if o in ('np.transpose', 'np.T') and len(a) == 1:
            return self.at(a[0], ix[::-1])
        if o in ('full', 'np.full', 'full_like', 'np.full_like', 'filled'):
            return self.sub(a[1], ix)
        if o == 'np.linspace':
            x, y, n, d = self.spacing(a)
            return x if n == 1 or ix[0] == 0 else x + (y - x) * Q(ix[0], d)
        if o in REDUCTION and len(a) > 1:
            s, ks, keep = self.along(a)
            it = iter(ix)
            at = [next(it) if keep or k not in ks else 0
                  for k in range(len(s))]
            start = [self.ev(x.args[1]) for x in a
                     if x.op == 'kw' and x.args[0] == 'initial']
            return reduced(o, start + [self.at(a[0], tuple(
                j[ks.index(k)] if k in ks else x for k, x in enumerate(at)))
                for j in self.indices([s[k] for k in ks])])
        if o == 'np.geomspace':
            x, y, n, d = self.spacing(a)
            if x * y <= 0:
                raise Raises('ValueError') if not x * y else Unknown(o)
            return x if n == 1 or ix[0] == 0 else y if ix[0] == d else \
                Q(float(x) * (float(y) / float(x)) ** (ix[0] / d))
        if o == 'np.arange':
            return Q(self.arange(a)[ix[0]])
        if o == 'np.interp' and len(a) == 3:
            return self.interpolated(num(self.at(a[0], ix)), a[1], a[2])
        if o == 'np.repeat':
            k = self.axis(a[2], len(ix))
            n = self.integer(a[1])
            return self.at(a[0], ix[:k] + (ix[k] // n,) + ix[k + 1:])
        if o == 'np.delete':
            s = self.shape(a[0])
            k = self.axis(a[2], len(s))
            keep = [j for j in range(s[k])
                    if j not in self.positions(a[1], s[k])]
            return self.at(a[0], ix[:k] + (keep[ix[k]],) + ix[k + 1:])
        if o in ('np.concatenate', 'concatenate'):
            xs = self.elems(a[0])
            k = self.axis(a[1], len(ix)) if len(a) > 1 else 0
            j = ix[k]
            for x in xs:
                n = self.shape(x)[k]
                if j < n:
                    return self.at(x, ix[:k] + (j,) + ix[k + 1:])
                j -= n
            raise Raises('index out of range')
        if o == 'np.reshape' and len(a) == 2:
            k = 0
            for n, i in zip(self.reshaped(a), ix):
                k = k * n + i
            out = []
            for n in self.shape(a[0])[::-1]:
                out.insert(0, k % n)
                k //= n
            return self.at(a[0], tuple(out))
        if o == 'np.broadcast_to' and len(a) == 2:
            s = self.shape(a[0])
            return self.at(a[0], tuple(0 if n == 1 else i for n, i in zip(
                s, ix[len(ix) - len(s):])))
        if o == 'np.append' and len(a) == 2:
            j = ix[0]
            for x in a:
                s = self.shape(x)
                n = math.prod(s)
                if j < n:
                    return self.sub(x, ()) if not s else self.at(
                        x, list(self.indices(s))[j])
                j -= n
            raise Raises('index out of range')
        if o in STACKED:
            xs, k = self.stacked(t)
            j = ix[k]
            for s, get in xs:
                if j < s[k]:
                    return get(ix[:k] + (j,) + ix[k + 1:])
                j -= s[k]
            raise Raises('index out of range')
        if o in PRODUCT and len(a) == 2:
            s, u = self.shape(a[0]), self.shape(a[1])
            if not s or not u:
                return num(self.sub(a[0], ix)) * num(self.sub(a[1], ix))
            k = len(s) - 1
            return sum(num(self.at(a[0], ix[:k] + (j,))) *
                       num(self.at(a[1], (j,) + ix[k:]))
                       for j in range(s[-1]))
        if o in ('list', 'tuple', 'np.stack') and ix:
            return self.at(self.elems(t)[ix[0]], ix[1:])
        if o in ('shape', 'np.shape'):
            return Q(self.shape(a[0])[ix[0]])
        if o == 'np.unravel_index':
            return Q(self.unravelled(*a)[ix[0]])
        if o == 'item':
            return self.item_at(a[0], a[1], ix)
        if o == 'store':
            return self.store_at(a[0], a[1], a[2], ix)
        if ix == ():
            return self.ev(t)
        raise Unknown('element of ' + o)

    def interpolated(self, x, xs, ys):
        n, = self.shape(xs)
        if self.shape(ys) != (n,):
            raise Raises('shapes do not match')
        xs = [num(self.at(xs, (k,))) for k in range(n)]
        ys = [num(self.at(ys, (k,))) for k in range(n)]
        if not xs:
            raise Raises('array of sample points is empty')
        if nan(x) or any(map(nan, xs + ys)) or any(
                b < a for a, b in zip(xs, xs[1:])):
            raise Unknown('interpolation between unordered points')
        if x <= xs[0]:
            return ys[0] if x < xs[0] else max(
                (k, y) for k, y in enumerate(ys) if xs[k] == x)[1]
        if x >= xs[-1]:
            return ys[-1]
        k = max(k for k in range(n) if xs[k] <= x)
        return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (
            xs[k + 1] - xs[k])

    def apply(self, t, get):
        """One element of an element-wise operation."""
        vals = [get(x) if isinstance(x, T) else x for x in t.args]
        if any(isinstance(v, Tag) for v in vals):
            raise Unknown('arithmetic on an opaque element')
        syms = [mk('slot', k) for k in range(len(vals))]
        sub = type(self)({s: v for s, v in zip(syms, vals)}, {})
        keep = t.op == 'astype' or any(not isinstance(x, T) for x in t.args)
        args = [x if keep and k > 0 else s
                for k, (s, x) in enumerate(zip(syms, t.args))]
        return sub.ev(mk(t.op, *args))

    def item_at(self, b, i, ix):
        m = self.mgrid(b, i)
        if m is not None:
            k = ix[0]
            return Q(m[k][0] + ix[1 + k])
        s = self.shape(b)
        out, j = [], 0
        for e in self.split_index(i, len(s)):
            if e is NONE:
                j += 1
                continue
            n = s[len(out)]
            if e.op == 'slice':
                out.append(self.span(e, n)[ix[j]])
                j += 1
                continue
            es = self.shape(e)
            k = num(self.at(e, ix[j:j + len(es)]))
            if k != int(k):
                raise Unknown('index')
            k = int(k)
            if not -n <= k < n:
                raise Raises('index out of range')
            out.append(k % n)
            j += len(es)
        return self.at(b, tuple(out) + ix[j:])

    def store_at(self, c, i, v, ix):
        s = self.shape(c)
        els = self.split_index(i, len(s))
        if len(els) == 1 and els[0].op != 'slice' and \
                self.shape(els[0]) != ():
            m = els[0]
            if not self.boolean(m):
                raise Unknown('scatter store')
            k = len(self.shape(m))
            if self.shape(m) != s[:k]:
                raise Raises('mask does not match')
            if truth(self.at(m, ix[:k])):
                return self.selected(v, m, ix)
            return self.at(c, ix)
        pos = []
        for k, e in enumerate(els):
            if e.op == 'slice':
                r = self.span(e, s[k])
                if ix[k] not in r:
                    return self.at(c, ix)
                pos.append(r.index(ix[k]))
            else:
                j = self.integer(e)
                if not -s[k] <= j < s[k]:
                    raise Raises('index out of range')
                if j % s[k] != ix[k]:
                    return self.at(c, ix)
        pos = tuple(pos) + ix[len(els):]
        want = tuple(len(self.span(e, s[k])) for k, e in enumerate(els)
                     if e.op == 'slice') + s[len(els):]
        vs = self.shape(v)
        if self.broadcast([vs, want]) != want:
            raise Raises('value does not fit')
        return self.sub(v, pos)

    def selected(self, v, m, ix):
        """Element stored at ix by c[m] = v."""
        if v.op == 'item' and v.args[1] is m:
            return self.at(v.args[0], ix)
        if v.op in SAME or v.op in BROAD:
            return self.apply(v, lambda x: self.selected(x, m, ix))
        if v.op == 'gamma':
            return self.selected(v.args[1 if truth(self.ev(v.args[0]))
                                        else 2], m, ix)
        if self.known(v) == ():
            return self.ev(v)
        raise Unknown('selection')


def root(x):
    if nan(x):
        return x
    if x < 0:
        return NAN
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return Q(n, d)
    return math.sqrt(x)
