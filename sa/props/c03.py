"""Decision tables of the validation functions. Each public check is
interpreted with everything it calls inlined and an unknown argument; its
outcomes (normal return, or the exception raised) with their path conditions
are then evaluated, in order, for every row of a finite table that exhausts
what the documented behaviour distinguishes: type classes, order types of the
value relative to the bounds (NaN and infinities included), exclusivity, and
for arrays all combinations of element positions, dimension counts, dtypes and
shapes. A row whose outcome is fully determined must be the documented one."""
import itertools
import math
from ..common import *
from ..pointwise import *
from .c24 import Tally

INTS = {'int': ('int',), 'np.int8': ('int8',), 'np.int16': ('int16',),
        'np.int32': ('int32', 'intc'),
        'np.int64': ('int64', 'int0', 'intp', 'int_', 'longlong', 'long')}
FLOATS = {'float': ('float',), 'np.float16': ('float16', 'half'),
          'np.float32': ('float32', 'single'),
          'np.float64': ('float64', 'double', 'float_', 'float'),
          'np.float128': ('float128', 'longdouble', 'longfloat')}
OTHERS = {'str': ('str',), 'None': ('NoneType',), 'list': ('list',),
          'tuple': ('tuple',), 'dict': ('dict',),
          'complex': ('complex', 'Complex', 'Number'),
          'np.ndarray': ('ndarray',), 'Ring': ('Ring',)}
EMPTY = 'the extremum of an empty array'
NP = ('generic', 'number', 'Number', 'Complex', 'Real')


def mro(ty):
    if ty in INTS:
        s = set(INTS[ty]) | {'Number', 'Complex', 'Real', 'Rational',
                             'Integral', 'object'}
        if ty != 'int':
            s |= set(NP) | {'integer', 'signedinteger'}
        return s
    if ty in FLOATS:
        s = set(FLOATS[ty]) | {'Number', 'Complex', 'Real', 'object'}
        if ty != 'float':
            s |= set(NP) | {'inexact', 'floating'}
        return s
    if ty == 'bool':
        return {'bool', 'int', 'object', 'Integral', 'Number'}
    if ty == 'np.bool_':
        return {'bool_', 'generic', 'object'}
    return set(OTHERS.get(ty, (ty,))) | {'object'}


class Row(Point):
    """types: term -> type name; arrays: term -> list of element values."""

    def __init__(self, val, types=None, arrays=None, shapes=None):
        Point.__init__(self, val)
        self.types, self.arrays = types or {}, arrays or {}
        self.shapes = shapes or {}

    def type_of(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == 'gamma':
            return self.type_of(t.args[
                1 if truth(self.ev(t.args[0])) else 2])
        if t.op == 'const':
            return {'NoneType': 'None'}.get(t.args[0], t.args[0])
        raise Unknown('type')

    def ev0(self, t):
        o, a = t.op, t.args
        if o == 'isinstance':
            return bool(mro(self.type_of(a[0])) & set(a[1]))
        if o == 'isnone':
            try:
                return self.type_of(a[0]) == 'None'
            except Unknown:
                return Point.ev0(self, t)
        if o in ('tostr', 'nonan', 'bool') and len(a) == 1:
            return self.ev(a[0])
        if o == 'isfinite':
            x = num(self.ev(a[0]))
            return not (nan(x) or abs(x) == math.inf)
        if o in ('any', 'all', 'np.any', 'np.all') and len(a) == 1:
            vs = self.each(a[0])
            return any(map(truth, vs)) if o[-3:] == 'any' else all(
                map(truth, vs))
        if o in ('np.min', 'np.max', 'min', 'max', 'np.amin', 'np.amax',
                 'np.nanmin', 'np.nanmax') and len(a) == 1:
            vs = [num(x) for x in self.each(a[0])]
            if not vs:
                raise Raises(EMPTY)
            if 'nan' in o:
                vs = [x for x in vs if not nan(x)] or [NAN]
            if any(nan(x) for x in vs):
                return NAN
            return min(vs) if 'min' in o else max(vs)
        if o in ('np.sum', 'np.count_nonzero') and len(a) == 1:
            return Q(sum(num(x) for x in self.each(a[0])))
        if o in ('len', 'ndim', 'np.ndim') and len(a) == 1:
            x = a[0].args[0] if a[0].op == 'shape' and o == 'len' else a[0]
            if x in self.shapes and (o != 'len' or a[0].op == 'shape'):
                return Q(len(self.shapes[x]))
        if o == 'last':
            k = self.times(a[0])
            return self.at(a[3], a[1], k - 1) if k else self.ev(a[2])
        if o in ('size', 'np.size') and len(a) == 1:
            if a[0] in self.arrays:
                return Q(len(self.arrays[a[0]]))
            if a[0] in self.shapes:
                return Q(math.prod(self.shapes[a[0]]))
        if o == 'np.prod' and len(a) == 1:
            x = self.ev(a[0])
            if isinstance(x, tuple):
                return Q(math.prod(x))
        if o in ('shape', 'np.shape') and a[0] in self.shapes:
            return self.shapes[a[0]]
        if o == 'seq' and len(a) == 1 and a[0].op == 'opaque' and \
                len(a[0].args) == 1 and isinstance(a[0].args[0], T):
            return self.ev(a[0].args[0])
        if o in ('sorted', 'set', 'frozenset', 'list', 'tuple', 'rev',
                 'reversed') and len(a) == 1:
            x = self.ev(a[0])
            if isinstance(x, tuple):
                return {'s': lambda: tuple(sorted(x)),
                        'r': lambda: x[::-1]}.get(
                    o[0], lambda: x)() if 'set' not in o else frozenset(x)
        if o == 'item' and len(a) == 2 and \
                a[0].op in ('shape', 'np.shape') and \
                a[0].args[0] in self.shapes:
            sh, k = self.shapes[a[0].args[0]], int(num(self.ev(a[1])))
            if not -len(sh) <= k < len(sh):
                raise Raises('IndexError')
            return Q(sh[k])
        if o == 'np.dtype' and len(a) == 1:
            return self.ev(a[0])
        if o == 'bmeth' and len(a) == 2 and a[0].op == 'dtype' and \
                a[1] in (const('name'), 'name'):
            return self.ev(a[0])
        if o in ('eq', 'ne'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, (str, tuple, frozenset)) or isinstance(
                    y, (str, tuple, frozenset)):
                return (x == y) == (o == 'eq')
        return Point.ev0(self, t)

    def sub(self, val):
        return Row({**self.val, **val}, self.types, self.arrays,
                   self.shapes)

    def each(self, body):
        """Values of an elementwise expression, or of a mapped sequence."""
        if body.op == 'map' or body.op in ('list', 'tuple', 'seq', 'segs'):
            return self.items(body)
        if body.op == 'gamma':
            return self.each(body.args[
                1 if truth(self.ev(body.args[0])) else 2])
        found = [x for x in self.arrays if contains(
            body, lambda y, x=x: y is x)]
        if len(found) != 1:
            raise Unknown('elements')
        return [self.sub({found[0]: v}).ev(body)
                for v in self.arrays[found[0]]]

    def items(self, t):
        if t.op == 'map':
            n, idx, body, cond = t.args
            out = []
            for j in range(self.times(n)):
                if truth(self.at(cond, idx, j)):
                    out.append(self.at(body, idx, j))
            return out
        return [self.ev(x) for x in self.elems(t)]

    def times(self, n):
        k = self.ev(n)
        if not isinstance(k, (int, Q)) or k > 10 or Q(k).denominator != 1:
            raise Unknown('count')
        return int(k)

    def at(self, body, idx, j):
        return self.sub({}).ev(instantiate(body, idx, j))

    def fold(self, t):
        n, idx, init, bv, body = t.args
        acc = self.ev(init)
        for j in range(self.times(n)):
            acc = self.sub({bv: acc}).ev(instantiate(body, idx, j))
        return acc


def instantiate(t, idx, j):
    def fn(x):
        if x is idx:
            return const(j)
        if x.op == 'add' and all(is_int(y) for y in x.args):
            return const(sum(cval(y) for y in x.args))
        if x.op == 'sub' and all(is_int(y) for y in x.args):
            return const(cval(x.args[0]) - cval(x.args[1]))
        return x
    return rewrite(t, fn)


def happens(row, pc, fails=None):
    """Does the path with this condition occur? True / False / None. A
    condition whose evaluation fails in the program is added to fails."""
    idx = []
    for t, _ in pc:
        for x in subterms(t):
            if x.op == 'idx' and x not in idx and not bound(t, x):
                idx.append(x)

    def at(js):
        und = False
        for t, p in pc:
            for i, j in zip(idx, js):
                t = instantiate(t, i, j)
            try:
                v = truth(row.ev(t))
            except Raises as e:
                if fails is not None and not und and not idx:
                    fails.append(str(e))
                und = True
                continue
            except (Unknown, RecursionError):
                und = True
                continue
            if v != p:
                return False
        return None if und else True
    if not idx:
        return at(())
    try:
        ns = [row.times(i.args[0]) for i in idx]
    except (Unknown, Raises):
        return None
    r = [at(js) for js in itertools.product(*[range(n) for n in ns])]
    return True if True in r else None if None in r else False


def bound(t, idx):
    """Every occurrence of idx in t is bound by a fold or map."""
    if t is idx:
        return False
    if t.op in ('fold', 'map', 'last') and t.args[1] is idx:
        return bound(t.args[0], idx)
    return all(bound(a, idx) for a in t.args if isinstance(a, T))


def outcome(r, row):
    """('return', value) / ('raise', names) / None"""
    for o in sorted(r.raises, key=lambda o: o.node.id if o.node else 0):
        fails = []
        h = happens(row, o.st.pc, fails)
        if fails:
            return 'raise', {fails[0]}
        if h is None:
            return None
        if h:
            return 'raise', set(x for e in o.excs or []
                                for x in r.ip.exc_mro(e)) or {'?'}
    if r.st is None:
        return None
    fails = []
    h = happens(row, r.st.pc, fails)
    if fails:
        return 'raise', {fails[0]}
    if h is True:
        return 'return', r.value
    return None


def expect(tab, r, row, want, text, same=None):
    """want: 'accept' or the documented exception."""
    got = outcome(r, row)
    if got is None:
        tab.row(None, text)
        return
    if want == 'accept':
        ok = got[0] == 'return'
        tab.row(ok, '%s: rejected with %s' % (
            text, '/'.join(sorted(got[1]))) if not ok else text)
        if ok and same is not None:
            v = got[1]
            while v.op == 'gamma':
                try:
                    v = v.args[1 if truth(row.ev(v.args[0])) else 2]
                except (Unknown, Raises):
                    return
            if v.op == 'ref' or same.op == 'ref':
                v, same = (r.ip.den(x, r.st) for x in (v, same))
            if v is not same and not uninterpreted(v) and v.op != 'bmeth':
                tab.row(False, '%s: returns %s' % (text, show(v, 4)))
        return
    if got[0] == 'return':
        tab.row(False, '%s: accepted' % text)
    elif EMPTY in got[1]:
        tab.row(None, text)
    else:
        tab.row(want in got[1], '%s: %s instead of %s' % (
            text, '/'.join(sorted(got[1] - {'Exception', 'BaseException',
                                            'object'})), want))


class Table(Tally):
    def __init__(self, ctx, where, line):
        self.ctx, self.where, self.line = ctx, where, line
        self.n = {True: 0, False: 0, None: 0}
        self.first = {}

    def row(self, v, text):
        self.n[v] += 1
        self.first.setdefault(v, text)

    def done(self, rule):
        if self.n[False]:
            self.ctx.bad(rule, self.where, '%d of %d rows: %s' % (
                self.n[False], sum(self.n.values()), self.first[False]),
                self.line)
        elif self.n[True] and not self.n[None]:
            self.ctx.ok(rule, self.where, '%d rows' % self.n[True])
        elif self.n[True]:
            self.ctx.ok(rule, self.where, '%d rows' % self.n[True])
            self.ctx.open(rule, self.where + ' (rest)', '%d rows: %s' % (
                self.n[None], self.first[None]))
        else:
            self.ctx.open(rule, self.where, '%d rows: %s' % (
                self.n[None], self.first.get(None)))


def interpreted(ctx, name, env):
    f = find_func(ctx.repo, 'validate:' + name)
    ip = Interp(ctx.repo, prim_validate=False)
    names = [a.arg for a in f.node.args.args]
    e = {}
    for k in names:
        e[k] = env(ip, k) or mk('param', k)
    r = run_in(ip, f, env=e)
    ctx.analysed(r)
    return r, f, names


def check(ctx):
    numbers(ctx)
    arrays(ctx)
    omitted(ctx)
    shapes(ctx)
    classes(ctx)


P = mk('param', 'parameter')


def anchored(ctx, name, f, names, need):
    ctx.anchor(all(n in names for n in need), 'arguments of validate.' +
               name)


def numbers(ctx):
    r, f, names = interpreted(ctx, 'number', lambda ip, k: None)
    anchored(ctx, 'number', f, names, (
        'parameter', 'check_integer', 'lower_bound', 'upper_bound',
        'exclusive'))
    if r.failed:
        ctx.open('number', 'validate.number', r.failed)
        return
    par = {k: mk('param', k) for k in names}
    inf = math.inf
    for integer, excl in itertools.product((False, True), repeat=2):
        tab = {k: Table(ctx, 'validate.number, %s, %s: %s' % (
            'integers' if integer else 'numbers',
            'exclusive' if excl else 'inclusive', k), f.node.lineno)
            for k in ('types', 'bounds', 'NaN')}
        for lo, hi, bt in ((Q(2), Q(5), 'int'), (Q(2), Q(5), 'float'),
                           (-inf, inf, 'float'), (Q(2), inf, 'float'),
                           (-inf, Q(2), 'float'), (Q(3), Q(3), 'int'),
                           (Q(0), Q(0), 'float')):
            base = {par['lower_bound']: lo, par['upper_bound']: hi,
                    par['check_integer']: integer, par['exclusive']: excl}
            types = {par['lower_bound']: bt, par['upper_bound']: bt,
                     par['check_integer']: 'bool', par['exclusive']: 'bool',
                     par['name']: 'str'} if 'name' in par else {}

            def row(ty, v):
                val = dict(base)
                if v is not None:
                    val[par['parameter']] = v
                return Row(val, {**types, par['parameter']: ty})
            mid = Q(7, 2) if lo == 2 else Q(3)
            for ty in list(INTS) + list(FLOATS):
                isint = ty in INTS
                for v in (Q(-4), Q(0), Q(1), Q(2), Q(3), Q(4), Q(5), Q(6),
                          mid, inf, -inf, math.nan):
                    if isint and (isinstance(v, float) or
                                  v.denominator != 1):
                        continue
                    text = 'value %s of type %s, bounds [%s, %s]' % (
                        v, ty, lo, hi)
                    if integer and not isint:
                        expect(tab['types'], r, row(ty, v), 'TypeError',
                               text)
                    elif nan(v):
                        expect(tab['NaN'], r, row(ty, v), 'ValueError', text)
                    else:
                        inside = lo < v < hi if excl else lo <= v <= hi
                        expect(tab['bounds'], r, row(ty, v), 'accept' if
                               inside else 'ValueError', text,
                               par['parameter'])
            for ty in OTHERS:
                expect(tab['types'], r, row(ty, None), 'TypeError',
                       'value of type ' + ty)
        for k, t in tab.items():
            if sum(t.n.values()):
                t.done('number')


def arrays(ctx):
    r, f, names = interpreted(ctx, 'array', lambda ip, k: ip.sym(
        {'kind': 'array'}, P) if k == 'parameter' else None)
    anchored(ctx, 'array', f, names, (
        'parameter', 'lower_bound', 'upper_bound', 'exclusive', 'dtype',
        'num_dimensions'))
    if r.failed:
        ctx.open('array', 'validate.array', r.failed)
        return
    par = {k: mk('param', k) for k in names}
    inf = math.inf
    ref = r.env['parameter']

    def row(els, lo, hi, excl, dtype=None, ndim=None, has='float64', dims=1,
            ty='np.ndarray'):
        val = {par['exclusive']: excl, mk('dtype', P): has}
        types = {P: ty, ref: ty, par['exclusive']: 'bool',
                 par.get('name', par['dtype']): 'str'}
        for k, v in (('lower_bound', lo), ('upper_bound', hi),
                     ('num_dimensions', ndim), ('dtype', dtype)):
            val[par[k]] = v
            types[par[k]] = 'None' if v is None else 'str' if isinstance(
                v, str) else 'float' if isinstance(v, float) else 'int'
        return Row(val, types, {P: els}, {P: (1,) * (dims - 1) + (
            len(els),) * (dims > 0)})

    points = (Q(1), Q(2), Q(3), Q(5), Q(6), math.nan)
    els = [[]] + [[x] for x in points + (inf, -inf)] + [
        [x, y] for x in points for y in points]
    for excl in (False, True):
        tab = {k: Table(ctx, 'validate.array, %s: %s' % (
            'exclusive' if excl else 'inclusive', k), f.node.lineno)
            for k in ('bounds', 'NaN')}
        for lo, hi in ((Q(2), Q(5)), (Q(2), None), (None, Q(5)),
                       (None, None), (Q(2), Q(2)), (Q(0), Q(0)),
                       (-inf, inf), (Q(0), None), (None, Q(0))):
            a = -inf if lo is None else lo
            b = inf if hi is None else hi
            for e in els:
                has_nan = any(nan(x) for x in e)
                bounded = lo is not None or hi is not None
                if not bounded:
                    want = 'accept'
                else:
                    ok = all(not nan(x) and (a < x < b if excl else
                                             a <= x <= b) for x in e)
                    want = 'accept' if ok else 'ValueError'
                expect(tab['NaN' if has_nan else 'bounds'], r,
                       row(e, lo, hi, excl), want,
                       'elements %s, bounds [%s, %s]' % (
                           [str(x) for x in e], lo, hi), ref)
        for t in tab.values():
            t.done('array')
    tab = Table(ctx, 'validate.array: dimensions', f.node.lineno)
    for dims, want in itertools.product(range(4), range(4)):
        expect(tab, r, row([Q(3)], None, None, False, None, want,
                           dims=dims), 'accept' if dims == want else
               'InvalidDimensionsError', '%d dimensions, %d requested' % (
                   dims, want), ref)
        expect(tab, r, row([Q(3)], Q(0), Q(9), False, 'float64', want,
                           dims=dims), 'accept' if dims == want else
               'InvalidDimensionsError', '%d dimensions, %d requested' % (
                   dims, want), ref)
    tab.done('array')
    tab = Table(ctx, 'validate.array: dtype', f.node.lineno)
    names = ('float64', 'int64', 'bool', 'float32', 'object', 'int32')
    for has, want in itertools.product(names, names):
        expect(tab, r, row([Q(3)], None, None, False, want, None, has),
               'accept' if has == want else 'TypeError',
               'dtype %s, %s requested' % (has, want), ref)
        expect(tab, r, row([Q(3)], Q(0), None, False, want, 1, has),
               'accept' if has == want else 'TypeError',
               'dtype %s, %s requested' % (has, want), ref)
    tab.done('array')
    tab = Table(ctx, 'validate.array: no array', f.node.lineno)
    r2, f, names = interpreted(ctx, 'array', lambda ip, k: None)
    par2 = {k: mk('param', k) for k in names}
    for ty in [t for t in OTHERS if t != 'np.ndarray'] + ['int', 'float',
                                                         'bool']:
        for lo in (None, Q(0)):
            w = row([], lo, None, False, ty=ty)
            expect(tab, r2, w, 'TypeError', 'a %s' % ty)
    tab.done('array')


def omitted(ctx):
    """Calls that leave arguments out: no bounds, inclusive, any number."""
    inf = math.inf
    tops = (Q(10) ** 400, -Q(10) ** 400, Q(0), Q(1), Q(-1), inf, -inf,
            math.nan)
    for given in ((), ('check_integer',), ('lower_bound',),
                  ('upper_bound',), ('exclusive',)):
        f, r = called(ctx, 'number', given, None)
        if r is None:
            continue
        tab = Table(ctx, 'validate.number(parameter, name%s)' % ''.join(
            ', ' + k for k in given), f.node.lineno)
        for v in tops:
            for b in (Q(0), Q(1)):
                val, types = given_row(given, b)
                if not nan(v):
                    val[P] = v
                lo = b if 'lower_bound' in given else -inf
                hi = b if 'upper_bound' in given else inf
                ty = 'int' if 'check_integer' in given else 'float'
                if ty == 'int' and isinstance(v, float):
                    continue
                val[P] = v
                types[P] = ty
                ok = not nan(v) and (lo < v < hi if 'exclusive' in given
                                     else lo <= v <= hi)
                expect(tab, r, Row(val, types), 'accept' if ok else
                       'ValueError', 'value %s of type %s' % (short(v), ty),
                       P)
        if 'check_integer' not in given:
            for ty in OTHERS:
                val, types = given_row(given, Q(0))
                expect(tab, r, Row(val, {**types, P: ty}), 'TypeError',
                       'a ' + ty)
        tab.done('number')
    for given in ((), ('lower_bound',), ('upper_bound',), ('dtype',),
                  ('num_dimensions',)):
        f, r = called(ctx, 'array', given, {'kind': 'array'})
        if r is None:
            continue
        tab = Table(ctx, 'validate.array(parameter, name%s)' % ''.join(
            ', ' + k for k in given), f.node.lineno)
        for v in tops:
            for dims, has in ((1, 'float64'), (2, 'float64'), (1, 'bool')):
                val, types = given_row(given, Q(0))
                lo = Q(0) if 'lower_bound' in given else -inf
                hi = Q(0) if 'upper_bound' in given else inf
                val[mk('dtype', P)] = has
                types[P] = types[r.ref] = 'np.ndarray'
                want = 'accept'
                if lo > -inf or hi < inf:
                    want = want if not nan(v) and lo <= v <= hi else \
                        'ValueError'
                elif 'num_dimensions' in given and dims != 1:
                    want = 'InvalidDimensionsError'
                elif 'dtype' in given and has != 'float64':
                    want = 'TypeError'
                expect(tab, r, Row(val, types, {P: [v]}, {P: (1,) * dims}),
                       want, 'element %s, %d dimensions, dtype %s' % (
                           short(v), dims, has), r.ref)
        tab.done('array')


def short(v):
    return '%s1e400' % ('-' if v < 0 else '') if not nan(v) and abs(
        v) > 10 ** 300 and abs(v) != math.inf else str(v)


def given_row(given, b):
    val, types = {}, {}
    for k in given:
        p = mk('param', k)
        val[p], types[p] = {
            'check_integer': (True, 'bool'), 'exclusive': (True, 'bool'),
            'dtype': ('float64', 'str'), 'num_dimensions': (Q(1), 'int'),
        }.get(k, (b, 'float'))
    return val, types


def called(ctx, name, given, spec):
    f = find_func(ctx.repo, 'validate:' + name)
    ip = Interp(ctx.repo, prim_validate=False)
    st = State()
    ref = ip.sym(spec, P) if spec else P
    r = Run(ip, st.copy(), {}, f)
    kw = {k: mk('param', k) for k in given}
    v, r.raises = call_in(ip, f, [ref, const('name')], kw, st)
    r.ref = ref
    if v is not None:
        r.value, r.st = v, st
    ctx.analysed(r)
    return f, r


def shapes(ctx):
    def env(ip, k):
        if k == 'arrays_list':
            return ip.sym({'kind': 'list', 'elem': {'kind': 'array'}},
                          mk('param', k))
        if k == 'names_list':
            return ip.sym({'kind': 'list', 'elem': {'kind': 'str'}},
                          mk('param', k))
    r, f, names = interpreted(ctx, 'same_shape_arrays', env)
    anchored(ctx, 'same_shape_arrays', f, names, ('arrays_list',
                                                  'names_list'))
    if r.failed:
        ctx.open('shapes', 'validate.same_shape_arrays', r.failed)
        return
    A, N = mk('param', 'arrays_list'), mk('param', 'names_list')
    tab = Table(ctx, 'validate.same_shape_arrays: shapes', f.node.lineno)
    cnt = Table(ctx, 'validate.same_shape_arrays: counts', f.node.lineno)
    kinds = ((2,), (3,), (2, 3), (1,), (3, 2))
    for n, m in itertools.product(range(0, 4), range(0, 5)):
        for combo in itertools.product(kinds, repeat=n):
            if n != m and n > 1 and len(set(combo)) > 1:
                continue
            val = {mk('len', A): Q(n), mk('len', N): Q(m)}
            sh = {}
            types = {}
            for j, s in enumerate(combo):
                for op in ('item', 'elem'):
                    for jj in (j, j - n):
                        x = mk(op, A, const(jj))
                        sh[x] = s
                        types[x] = types[mk('ref', x)] = 'np.ndarray'
            row = Row(val, types, {}, sh)
            if n < 2 or n != m:
                expect(cnt, r, row, 'AttributeError',
                       '%d arrays, %d names' % (n, m))
            else:
                expect(tab, r, row, 'accept' if len(set(combo)) == 1 else
                       'InvalidShapeError', 'shapes %s' % (combo,))
    tab.done('shapes')
    cnt.done('shapes')


def classes(ctx):
    every = list(INTS) + list(FLOATS) + list(OTHERS) + ['bool', 'np.bool_']
    for name, ok in (('boolean', 'bool'), ('string', 'str')):
        r, f, names = interpreted(ctx, name, lambda ip, k: None)
        anchored(ctx, name, f, names, ('parameter',))
        tab = Table(ctx, 'validate.' + name, f.node.lineno)
        for ty in every:
            if ty == 'np.bool_':
                continue
            expect(tab, r, Row({}, {P: ty}), 'accept' if ty == ok else
                   'TypeError', 'a ' + ty, P)
        tab.done('class')
    for want, t in (('int', mk('ext', 'builtins.int')),
                    ('list', mk('ext', 'builtins.list')),
                    ('np.ndarray', mk('ext', 'numpy.ndarray')),
                    ('Ring', mk('class', 'Ring')),
                    ('str', mk('ext', 'builtins.str'))):
        r, f, names = interpreted(
            ctx, 'class_object', lambda ip, k: t if k == 'class_type'
            else None)
        anchored(ctx, 'class_object', f, names, ('parameter', 'class_type'))
        tab = Table(ctx, 'validate.class_object(%s)' % want, f.node.lineno)
        for ty in every:
            if want == 'int' and ty == 'bool':
                continue
            expect(tab, r, Row({}, {P: ty}), 'accept' if ty == want else
                   'TypeError', 'a ' + ty, P)
        tab.done('class')
