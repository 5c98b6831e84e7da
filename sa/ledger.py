"""Evaluation of value-flow terms that build sequences: lists and arrays of
numbers or objects, and the loop recurrences that produce them, for one row
of a decision table (a finite list of input elements with given values). The
loops are not run: the recurrences extracted from the source are unfolded over
the elements of the row. Anything outside the fragment raises Unknown."""
import copy
import itertools
import math
from .pointwise import *
from .terms import *

ELEMENTWISE = BOOL1 | OR | AND | XOR | {
    'eq', 'np.equal', 'lt', 'le', 'np.less', 'np.less_equal', 'np.greater',
    'np.greater_equal', 'add', 'mul', 'np.add', 'np.multiply', 'sub', 'div',
    'np.subtract', 'np.divide', 'pow', 'floordiv', 'mod', 'neg', 'abs',
    'np.abs', 'np.absolute', 'np.fabs', 'np.sqrt', 'np.maximum', 'np.minimum',
    'isnan', 'np.isnan', 'np.isclose', 'np.sign', 'np.floor', 'np.ceil',
    'np.mod', 'np.trunc'}
LIMIT = 200


ACCUMULATE = {'np.maximum.accumulate': max, 'np.minimum.accumulate': min,
              'np.add.accumulate': lambda x, y: x + y,
              'np.multiply.accumulate': lambda x, y: x * y}
EDITS = {'ins', 'set', 'del', 'rem', 'rev'}


class Thing:
    """An object: attribute name -> value."""

    def __init__(self, fields, name=''):
        self.fields, self.name = fields, name


class Unbuilt(Thing):
    """An object allocated by the analysed code; its attributes are evaluated
    in the context it was built in."""

    def __init__(self, led, oid):
        Thing.__init__(self, {}, show(oid, 2))
        self.led, self.oid = led, oid

    def get(self, name):
        if name not in self.fields:
            v = self.led.ip.get_field(self.oid, name, self.led.st)
            if v is None:
                raise Unknown('attribute ' + name)
            self.fields[name] = self.led.ev(v)
        return self.fields[name]


class Ledger(Point):
    """val: term -> value (numbers, booleans, None, strings, python lists,
    Things); types: argument term -> 'int' / 'float' / 'array' / ..."""

    def __init__(self, ip, st, val, types=None, budget=None):
        Point.__init__(self, val)
        self.ip, self.st = ip, st
        self.types = types or {}
        self.loops, self.history = {}, {}
        self.budget = budget if budget is not None else [4000]

    def sub(self, extra):
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise Unknown('budget')
        led = copy.copy(self)
        led.memo, led.loops, led.history = {}, {}, {}
        led.val = Chain(extra, self.val)
        return led

    # -- attributes
    def attr(self, x, name):
        if isinstance(x, Unbuilt):
            return x.get(name)
        if isinstance(x, Thing) and name in x.fields:
            return x.fields[name]
        raise Unknown('attribute ' + str(name))

    def times(self, n):
        k = self.ev(n)
        if isinstance(k, bool) or not isinstance(k, (int, Q)) or \
                Q(k).denominator != 1 or k > LIMIT:
            raise Unknown('count')
        return max(int(k), 0)

    def listed(self, t):
        v = self.ev(t)
        if isinstance(v, list):
            return v
        raise Unknown('no sequence')

    def ev0(self, t):
        o, a = t.op, t.args
        if o in ELEMENTWISE:
            vs = [self.ev(x) for x in a if isinstance(x, T)]
            n = {len(v) for v in vs if isinstance(v, list)}
            if n:
                if len(n) > 1:
                    raise Unknown('shapes')
                out = []
                for k in range(n.pop()):
                    s = self.sub({x: self.ev(x)[k] for x in a if isinstance(
                        x, T) and isinstance(self.ev(x), list)})
                    out.append(s.ev0(t))
                return out
            if any(isinstance(v, Thing) for v in vs):
                if o in ('eq', 'ne') and len(vs) == 2:
                    return (vs[0] is vs[1]) == (o == 'eq')
                raise Unknown('object')
        if o == 'ref':
            return self.reference(t)
        if o == 'fld':
            return self.attr(self.ev(a[0]), a[1])
        if o == 'is':
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, Thing) or isinstance(y, Thing):
                return x is y
            raise Unknown('identity')
        if o in EDITS:
            return self.edited(t)
        if o == 'sortby':
            v, ks = list(self.listed(a[0])), self.listed(a[1])
            if len(v) != len(ks):
                raise Unknown('keys')
            ks = [num(k) for k in ks]
            if any(map(nan, ks)):
                raise Unknown('nan')
            return [v[j] for j in sorted(range(len(v)), key=lambda j: ks[j],
                                         reverse=a[2] is TRUE)]
        if o == 'segsof':
            return self.segments(a[1:])
        if o in ('item', 'elem'):
            return self.item(a[0], a[1])
        if o == 'len' or o in ('size', 'np.size') and len(a) == 1:
            x = a[0].args[0] if a[0].op == 'shape' else a[0]
            if x in self.val or x.op not in ('list', 'tuple'):
                return Q(len(self.listed(x)))
        if o == 'shape':
            return [Q(len(self.listed(a[0])))]
        if o in ('list', 'tuple'):
            return [self.ev(x) for x in a]
        if o in ('seq', 'segs', 'one', 'map', 'acc', 'lfold', 'multi'):
            return self.segments([t])
        if o in ('np.array', 'np.asarray', 'toarray', 'np.copy', 'fresh',
                 'np.stack', 'stack', 'nonan', 'copy', 'tolist', 'np.ravel',
                 'np.squeeze', 'np.asanyarray'):
            return self.ev(a[0])
        if o == 'astype':
            v = self.ev(a[0])
            if not isinstance(v, list):
                return Point.ev0(self, t)
            if v and all(isinstance(x, (Thing, type(None))) for x in v):
                return v
            x = a[0]
            return [self.sub({x: e}).cast(t, e) for e in v]
        if o in ('full', 'np.full', 'full_like', 'np.full_like'):
            if o.endswith('like'):
                n = len(self.listed(a[0]))
            else:
                n = self.extent(a[0])
            v = self.ev(a[1])
            return [v] * n
        if o in ('np.empty', 'np.empty_like'):
            n = len(self.listed(a[0])) if 'like' in o else self.extent(a[0])
            return [None] * n
        if o == 'store':
            return self.store(t)
        if o == 'np.append':
            return list(self.listed(a[0])) + self.flat(a[1])
        if o in ('np.concatenate', 'np.hstack'):
            return [y for x in self.listed(a[0]) for y in (
                x if isinstance(x, list) else [x])]
        if o == 'np.delete' and len(a) == 2:
            v, k = list(self.listed(a[0])), self.ev(a[1])
            if not isinstance(k, list):
                k = [k]
            elif k and all(isinstance(x, bool) for x in k):
                if len(k) != len(v):
                    raise Raises('ValueError')
                return [x for x, m in zip(v, k) if not m]
            gone = {int(x) % len(v) for x in self.places(k, len(v))}
            return [x for j, x in enumerate(v) if j not in gone]
        if o in ACCUMULATE and len(a) == 1:
            v = [num(x) for x in self.listed(a[0])]
            if any(map(nan, v)):
                raise Unknown('nan')
            return list(itertools.accumulate(v, ACCUMULATE[o]))
        if o == 'np.where' and len(a) == 1 or o == 'np.flatnonzero':
            v = [Q(k) for k, x in enumerate(self.listed(a[0])) if x is True or
                 x is not False and num(x) != 0]
            return [v] if o == 'np.where' else v
        if o == 'np.insert' and len(a) == 3:
            v, k = list(self.listed(a[0])), self.integer(a[1])
            v[k:k] = self.flat(a[2])
            return v
        if o in ('np.sum', 'sum', 'np.max', 'max', 'np.min', 'min', 'np.any',
                 'any', 'np.all', 'all', 'np.prod', 'np.cumsum', 'np.diff',
                 'np.count_nonzero', 'np.sort', 'np.flip', 'np.unique',
                 'np.argsort') and len(a) == 1:
            return self.whole(o, self.listed(a[0]))
        if o == 'np.repeat' and len(a) == 2:
            v, k = self.flat(a[0]), self.ev(a[1])
            ks = k if isinstance(k, list) else [k] * len(v)
            if len(ks) != len(v):
                raise Unknown('shapes')
            return [x for x, m in zip(v, ks) for _ in range(int(m))]
        if o in ('np.linspace', 'linspace'):
            return self.linspace(a)
        if o in ('np.arange', 'range'):
            vs = [num(self.ev(x)) for x in a]
            lo, hi, step = (Q(0), vs[0], Q(1)) if len(vs) == 1 else (
                vs + [Q(1)])[:3]
            if not all(isinstance(x, Q) for x in (lo, hi, step)) or \
                    step == 0 or abs((hi - lo) / step) > LIMIT:
                raise Unknown(o)
            n = max(0, math.ceil((hi - lo) / step))
            return [lo + j * step for j in range(n)]
        if o == 'ofold' or o == 'fold':
            return self.folded(t)
        if o == 'last':
            n = self.times(a[0])
            return self.sub({a[1]: Q(n - 1)}).ev(a[3]) if n else \
                self.ev(a[2])
        if o == 'mapstore':
            base, n, idx, body = a
            v = list(self.listed(base))
            for j in range(self.times(n)):
                if j >= len(v):
                    raise Raises('IndexError')
                v[j] = self.sub({idx: Q(j)}).ev(body)
            return v
        if o in ('notnum', 'notisa', 'arrout', 'notrank', 'notdtype',
                 'shapesdiffer', 'numout'):
            return self.validation(t)
        if o in ('round', 'np.round', 'np.around') and len(a) == 1:
            return Q(round(num(self.ev(a[0]))))
        if o in ('toint', 'np.floor', 'np.ceil', 'np.rint'):
            x = num(self.ev(a[0]))
            if not isinstance(x, Q):
                raise Unknown(o)
            return Q({'toint': math.trunc, 'np.floor': math.floor,
                      'np.ceil': math.ceil, 'np.rint': round}[o](x))
        return Point.ev0(self, t)

    def cast(self, t, e):
        ty = show(t.args[1])
        if e is None:
            raise Unknown('cast')
        if 'bool' in ty:
            return truth(e)
        if 'float' in ty or 'object' in ty:
            return e
        if 'int' in ty:
            return Q(math.trunc(num(e)))
        raise Unknown('cast')

    def validation(self, t):
        if t.op == 'notnum' and t.args[0] in self.types:
            ty = self.types[t.args[0]]
            integer = t.args[1] in (TRUE, True)
            return ty not in (('int',) if integer else ('int', 'float'))
        if t.op == 'notisa' and t.args[0] in self.types:
            what = t.args[1]
            what = cval(what) if isinstance(what, T) else what
            return (self.types[t.args[0]] == 'array') != (what == 'ndarray')
        raise Unknown(t.op)

    def reference(self, t):
        oid = t.args[0]
        if oid in self.val:
            return self.val[oid]
        if t.args[0].op in ('item', 'elem', 'fld'):
            try:
                return self.ev(oid)
            except Unknown:
                pass
        o = self.ip.obj(oid, self.st)
        if o is None:
            raise Unknown('object')
        if o.kind == 'inst':
            if oid.op != 'new':
                return self.ev(oid)
            return Unbuilt(self, oid)
        return self.ev(self.ip.den(t, self.st))

    def edited(self, t):
        """Edits of a list at a position that is not known beforehand."""
        o, a = t.op, t.args
        v = list(self.listed(a[0]))
        if o == 'rev':
            return v[::-1]
        if o == 'ins':
            v.insert(self.integer(a[1]), self.ev(a[2]))
            return v
        if o == 'rem':
            x = self.ev(a[1])
            for k, y in enumerate(v):
                if y is x or not isinstance(x, Thing) and y == x:
                    del v[k]
                    return v
            raise Raises('ValueError')
        if a[1].op == 'slice' and o == 'del':
            gone = self.cut(a[1], len(v))
            return [x for k, x in enumerate(v) if k not in gone]
        k = self.integer(a[1])
        if not -len(v) <= k < len(v):
            raise Raises('IndexError')
        if o == 'del':
            del v[k]
        else:
            v[k] = self.ev(a[2])
        return v

    def flat(self, t):
        v = self.ev(t)
        return list(v) if isinstance(v, list) else [v]

    def integer(self, t):
        v = self.ev(t)
        if isinstance(v, list) and len(v) == 1:
            v = v[0]
        if isinstance(v, bool) or not isinstance(v, (int, Q)) or \
                Q(v).denominator != 1:
            raise Unknown('index')
        return int(v)

    def extent(self, t):
        v = self.ev(t)
        if isinstance(v, list):
            if len(v) != 1:
                raise Unknown('shape')
            v = v[0]
        if not isinstance(v, (int, Q)) or v > LIMIT:
            raise Unknown('shape')
        return int(v)

    def cut(self, i, n):
        """Positions selected by a slice term."""
        p = [None if x is NONE else self.integer(x) for x in i.args]
        return list(range(n))[slice(*p)]

    def item(self, base, i):
        v = self.ev(base)
        if not isinstance(v, list):
            raise Unknown('item')
        if i.op == 'slice':
            return [v[k] for k in self.cut(i, len(v))]
        k = self.ev(i)
        if isinstance(k, list):
            if k and all(isinstance(x, bool) for x in k):
                if len(k) != len(v):
                    raise Raises('IndexError')
                return [x for x, m in zip(v, k) if m]
            if len(k) == 1 and isinstance(k[0], list):
                k = k[0]            # the indices np.nonzero returns
            elif len(k) == 1 and i.op == 'tuple':
                return self.item(base, i.args[0])
            return [v[int(x)] for x in self.places(k, len(v))]
        if isinstance(k, bool) or not isinstance(k, (int, Q)):
            raise Unknown('index')
        if not -len(v) <= k < len(v):
            raise Raises('IndexError')
        return v[int(k)]

    def places(self, ks, n):
        for x in ks:
            if isinstance(x, bool) or not isinstance(x, (int, Q)):
                raise Unknown('index')
            if not -n <= x < n:
                raise Raises('IndexError')
        return ks

    def store(self, t):
        base, i, x = t.args
        v = list(self.listed(base))
        if i.op == 'slice':
            ks = self.cut(i, len(v))
            x = self.flat(x)
            if len(x) not in (1, len(ks)):
                raise Raises('ValueError')
            for n, k in enumerate(ks):
                v[k] = x[n if len(x) > 1 else 0]
            return v
        k = self.ev(i)
        if isinstance(k, list) and len(k) == len(v) and v and all(
                isinstance(y, bool) for y in k):
            x = self.ev(x)
            if isinstance(x, list):
                raise Unknown('store')
            return [x if m else y for y, m in zip(v, k)]
        k = self.integer(i)
        if not -len(v) <= k < len(v):
            raise Raises('IndexError')
        v[k] = self.ev(x)
        return v

    def whole(self, o, v):
        o = o.replace('np.', '')
        if o in ('any', 'all'):
            return any(map(truth, v)) if o == 'any' else all(map(truth, v))
        vs = [num(x) for x in v]
        if o == 'count_nonzero':
            return Q(sum(1 for x in vs if x))
        if any(nan(x) for x in vs):
            raise Unknown('nan')
        if o == 'sum':
            return sum(vs, Q(0))
        if o == 'prod':
            return math.prod(vs)
        if o == 'cumsum':
            return [sum(vs[:k + 1], Q(0)) for k in range(len(vs))]
        if o == 'diff':
            return [y - x for x, y in zip(vs, vs[1:])]
        if o == 'sort':
            return sorted(vs)
        if o == 'unique':
            return sorted(set(vs))
        if o == 'flip':
            return vs[::-1]
        if o == 'argsort':
            return [Q(k) for k in sorted(range(len(vs)),
                                         key=lambda k: vs[k])]
        if not vs:
            raise Raises('ValueError')
        return max(vs) if o == 'max' else min(vs)

    def linspace(self, a):
        lo, hi = num(self.ev(a[0])), num(self.ev(a[1]))
        n = self.integer(a[2]) if len(a) > 2 else 50
        end = True
        if len(a) > 3:
            x = a[3]
            if x.op in ('tuple', 'kw') or len(a) > 4:
                raise Unknown('linspace')
            end = truth(self.ev(x))
        if not 0 <= n <= LIMIT:
            raise Unknown('linspace')
        d = n - 1 if end else n
        return [lo + (hi - lo) * j / d if j else lo for j in range(n)]

    # -- sequences built by appending
    def segments(self, segs):
        out = []
        for s in segs:
            if isinstance(s, T):
                o, a = s.op, s.args
                if o in ('seq', 'segs', 'multi'):
                    out += self.segments(a)
                elif o == 'one':
                    out.append(self.ev(a[0]))
                elif o == 'map':
                    n, idx, body, cond = a
                    for s2 in self.rounds(n, idx, (body, cond)):
                        if truth(s2.ev(cond)):
                            if body.op == 'multi':
                                out += s2.segments([body])
                            else:
                                out.append(s2.ev(body))
                elif o == 'lfold':
                    out += self.unfold(self.lid_of(a[2]))[a[2]]
                elif o == 'acc' or o == 'opaque' and len(a) == 1 and \
                        isinstance(a[0], T):
                    out += self.listed(a[0])
                elif o == 'slice' and len(a) == 2:
                    v = self.listed(a[0])
                    out += [v[k] for k in self.cut(a[1], len(v))]
                elif o == 'gamma':
                    out += self.segments([a[1] if truth(self.ev(a[0]))
                                          else a[2]])
                else:
                    out += self.listed(s)
                continue
            if s[0] == 'one':
                out.append(self.ev(s[1]))
            elif s[0] == 'map':
                _, n, idx, inner, cond = s
                for s2 in self.rounds(n, idx, inner + (cond,)):
                    if truth(s2.ev(cond)):
                        out += s2.segments(inner)
            elif s[0] == 'alt':
                out += self.segments(s[2] if truth(self.ev(s[1])) else s[3])
            elif s[0] == 'acc':
                out += self.listed(s[1])
            elif s[0] == 'lfold':
                out += self.unfold(self.lid_of(s[3]))[s[3]]
            elif s[0] == 'opaque':
                out += self.listed(s[1])
            elif s[0] == 'slice' and len(s) == 3:
                v = self.listed(s[1])
                out += [v[k] for k in self.cut(s[2], len(v))]
            elif s[0] in EDITS and all(isinstance(x, T) for x in s[1:]):
                out += self.edited(mk(*s))
            else:
                raise Unknown('segment ' + str(s[0]))
        return out

    # -- loops
    def rounds(self, n, idx, what):
        """The contexts of the iterations that append elements."""
        lids = {}

        def scan(x):
            if isinstance(x, tuple):
                for y in x:
                    scan(y)
            elif isinstance(x, list):
                scan(tuple(x))
            elif isinstance(x, T):
                for y in self.reached(x):
                    if y.op == 'mu' and y not in self.val:
                        lids[y.args[0]] = True
        scan(what)
        for lid in lids:
            fs = self.recurrence(lid)
            if fs and fs[0].idx is idx:
                self.unfold(lid)
                return self.history[lid]
        return [self.sub({idx: Q(j)}) for j in range(self.times(n))]

    def reached(self, x):
        """Subterms, also of the attributes of objects built on the way."""
        seen, todo = set(), [x]
        while todo:
            for y in subterms(todo.pop()):
                if y in seen:
                    continue
                seen.add(y)
                yield y
                if y.op == 'ref' and y.args[0].op == 'new':
                    o = self.ip.obj(y.args[0], self.st)
                    if o is not None and o.kind == 'inst':
                        todo += [v for v in o.fields.values()
                                 if isinstance(v, T)]
                    elif o is not None and o.kind == 'arr':
                        todo.append(self.ip.den(y, self.st))

    def recurrence(self, lid):
        return [f for (l, k), f in self.ip.folds.items() if l == lid]

    def lid_of(self, mu):
        return mu.args[0]

    def folded(self, t):
        if t.op == 'ofold':
            return self.unfold(t.args[5])[t.args[3]]
        n, idx, init, bv, body = t.args
        for f in self.ip.folds.values():
            if f.term is t:
                return self.unfold(self.lid_of(f.mu))[f.mu]
        acc = self.ev(init)
        for j in range(self.times(n)):
            acc = self.sub({bv: acc, idx: Q(j)}).ev(body)
        return acc

    def unfold(self, lid):
        """Values of the loop variables after the loop."""
        if lid not in self.loops:
            self.loops[lid] = self.unfold0(lid)
        return self.loops[lid]

    def entry(self, led, v):
        if isinstance(v, tuple):
            return led.segments(v)
        return led.ev(v)

    def unfold0(self, lid):
        fs = self.recurrence(lid)
        if not fs:
            raise Unknown('loop')
        self.history[lid] = []
        state = Lazy(self, {f.mu: f.init for f in fs})
        n = self.times(fs[0].cnt)
        for j in range(n):
            led = self.sub({fs[0].idx: Q(j)})
            led.val = Chain(state, led.val)
            self.history[lid].append(led)
            go = True
            if fs[0].cond is not TRUE:
                go = truth(led.ev(fs[0].cond))
            if go:
                state = Lazy(led, {f.mu: f.next for f in fs})
        return state


class Lazy(dict):
    """Loop variables after an iteration, evaluated when asked for (an
    iteration may compute values that do not matter, or are unknown)."""

    def __init__(self, led, terms):
        self.led, self.terms = led, terms

    def __missing__(self, k):
        if k not in self.terms:
            raise KeyError(k)
        v = self.terms[k]
        try:
            r = self.led.entry(self.led, v)
        except (Unknown, Raises) as e:
            r = e
        self[k] = r
        if isinstance(r, Exception):
            raise r
        return r

    def __getitem__(self, k):
        r = dict.__getitem__(self, k)
        if isinstance(r, Exception):
            raise r
        return r

    def get(self, k, d=None):
        if k in self.terms:
            try:
                return self[k]
            except (Unknown, Raises) as e:
                return e
        return d

    def __contains__(self, k):
        return k in self.terms


class Chain:
    """Values of one context over the values around it."""

    def __init__(self, top, base):
        self.top, self.base = top, base

    def get(self, k, d=None):
        if k in self.top:
            return self.top.get(k, d)
        return self.base.get(k, d)

    def __contains__(self, k):
        return k in self.top or k in self.base

    def __getitem__(self, k):
        return self.top[k] if k in self.top else self.base[k]
