"""Interval abstract interpretation of value-flow terms. The data of every
inclination and of every disk gradient the grid stores is a term; its interval
must lie within [0, 90] degrees or [0, 1]. A bound that is exceeded is reported
only where the excess is attained. The limit on the scaled gradient is decided
by evaluating the guards of the reporting paths for values on both sides of
one. The extension to the other quadrants is followed element by element."""
import itertools
from ..common import *
from ..located import *
from ..spans import *
from .c03 import Table, outcome, Row
from .c08 import CUBES, row_of, vectors, conditions, branches, choose, same
from .c13 import with_gradients

EPS = 1e-9


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None,
               'classes ShallotGrid and GridGradient')
    seen = Seen(ctx, grid, gradient)
    runs = {}
    for name in ('__init__', 'load'):
        f = grid.find(name)
        ctx.anchor(f is not None, 'ShallotGrid.' + name)
        r = run(repo, f, cls=grid)
        ctx.analysed(r)
        where = 'ShallotGrid()' if name == '__init__' else 'ShallotGrid.load'
        if r.failed or r.st is None:
            ctx.open('range', where, r.failed or 'no normal exit')
            continue
        runs[name] = r
        me = r.value if name == 'load' else r.env['self']
        seen.take(r, me, where)
        quadrants(ctx, r, me, where)
    for c, f in public_methods(repo, lambda c, n, f: c is grid and
                               f.kind == 'method' and n[0] != '_'):
        r = run(repo, f, cls=grid)
        ctx.analysed(r)
        if r.failed:
            ctx.open('range', 'ShallotGrid.' + f.name, r.failed)
            continue
        seen.take(r, r.env['self'], 'ShallotGrid.' + f.name)
    for what, n in sorted(seen.n.items()):
        if not n:
            ctx.open('range', 'stored %ss' % what,
                     'no store of this quantity is recognised')
    reported(ctx, repo, gradient)
    reported_by_grid(ctx, repo, grid, gradient)


# ------------------------------------------------------------------ ranges
class Seen:
    LIMITS = {'inclination': (0.0, 90.0, 'degrees'),
              'gradient': (0.0, 1.0, '')}

    def __init__(self, ctx, grid, gradient):
        self.ctx, self.grid, self.gradient = ctx, grid, gradient
        self.n = {'inclination': 0, 'gradient': 0}
        self.judged = {}

    def take(self, r, me, where):
        ip = r.ip
        for st, how, o in exits(r):
            if o is not None and r.fn.name in ('__init__', 'load'):
                continue            # there is no object then
            v = ip.get_field(me.args[0], 'inclination', st) \
                if me.op == 'ref' else None
            v0 = ip.get_field(me.args[0], 'inclination', r.st0) \
                if me.op == 'ref' and me.args[0].op == 'root' else None
            for x in branches(v) if v is not None else ():
                d = self.data(ip, x, st)
                if d is None or v0 is not None and d is self.data(
                        ip, v0, r.st0):
                    continue
                self.judge('inclination', where, d, st, r)
            for oid, ob in st.heap.items():
                if ob.kind == 'inst' and ob.cls is self.gradient and \
                        not pre_existing(oid):
                    d = self.data(ip, mk('ref', oid), st)
                    if d is not None:
                        self.judge('gradient', where, d, st, r)

    def data(self, ip, x, st):
        if x.op != 'ref':
            return None
        o = ip.obj(x.args[0], st)
        if o is None or o.kind != 'inst':
            return None
        v = ip.get_field(x.args[0], 'data', st)
        return None if v is None else strip_all(ip.den(v, st))

    def leaf(self, t):
        """Stored inclinations and gradients are in range by induction."""
        if t.op == 'file0':
            return Span(0.0, 0.0) if self.kind == 'gradient' or \
                'inclination' in show(t, 9).lower() else None
        if t.op == 'fld' and isinstance(t.args[0], T):
            ow = t.args[0]
            if t.args[1] == 'data' and ow.op == 'fld' and \
                    ow.args[1] == 'inclination':
                return Span(0.0, 90.0)
            if t.args[1] in ('dx', 'dy', 'rf'):
                return None
            if t.args[1] in ('circular_radius',):
                return Span(0.0, INF)
        return None

    def judge(self, kind, where, d, st, r):
        key = (kind, where, d)
        if key in self.judged:
            return
        self.judged[key] = 1
        self.n[kind] += 1
        self.kind = kind
        lo, hi, unit = self.LIMITS[kind]
        if self.unproduced(d):
            self.ctx.ok('range', '%s: %s' % (where, kind), 'as stored before')
            return
        s = Spans(self.leaf).of(d)
        ok = s.lo >= lo - EPS and s.hi <= hi + EPS or s.lo > s.hi
        verdict = True if ok else None
        text = '%s in %s instead of [%g, %g] %s' % (kind, s, lo, hi, unit)
        if not ok and s.tight and (s.alo < lo - EPS or s.ahi > hi + EPS):
            verdict = False
        elif not ok:
            w = witness(d, lo, hi)
            if w is not None:
                verdict, text = False, '%s of %.6g outside [%g, %g] %s' % (
                    kind, w, lo, hi, unit)
        self.ctx.decide(verdict, 'range', '%s: %s' % (where, kind), text,
                        r.fn.node.lineno)

    def unproduced(self, d):
        """Only moved around: read from a file, or what was there."""
        while d.op in ('np.copy', 'fresh', 'astype', 'toarray'):
            d = d.args[0]
        return d.op in ('file0', 'param', 'fld')


class Real(Point):
    """One generic point, real arithmetic; leaves from a sample."""
    POSITIVE = ('fx_map', 'fy_map', 'disk_radius', 'rf', 'rf_array')

    def __init__(self, sample):
        Point.__init__(self, {})
        self.sample, self.leaves = sample, {}

    def ev0(self, t):
        o, a = t.op, t.args
        if o in ('np.sin', 'np.cos', 'np.tan', 'np.arctan', 'np.arcsin',
                 'np.arccos', 'np.rad2deg', 'np.deg2rad'):
            x = self.real(a[0])
            if nan(x):
                return x
            try:
                return {'np.sin': math.sin, 'np.cos': math.cos,
                        'np.tan': math.tan, 'np.arctan': math.atan,
                        'np.arcsin': math.asin, 'np.arccos': math.acos,
                        'np.rad2deg': math.degrees,
                        'np.deg2rad': math.radians}[o](x)
            except ValueError:
                return NAN
        if o == 'pi':
            return math.pi
        if o == 'np.arctan2':
            y, x = self.real(a[0]), self.real(a[1])
            return NAN if nan(x) or nan(y) else math.atan2(y, x)
        if o == 'np.hypot':
            return math.hypot(self.real(a[0]), self.real(a[1]))
        if o in ('full', 'full_like'):
            return self.ev(a[1])
        if o == 'fld' and a[1] == 'shear':
            x, y = self.named('dx'), self.named('dy')
            return -x / y
        if o == 'fld' and isinstance(a[1], str):
            n = a[1]
            if n == 'data' and isinstance(a[0], T) and a[0].op == 'fld':
                n = a[0].args[1]
            return self.named(n)
        if o == 'item' and a[0].op == 'param':
            return self.named(show(t))
        return Point.ev0(self, t)

    def real(self, t):
        x = num(self.ev(t))
        return x if isinstance(x, float) else float(x)

    def named(self, n):
        if n not in self.leaves:
            v = self.sample[len(self.leaves) % len(self.sample)]
            self.leaves[n] = Q(abs(v) if n in self.POSITIVE else v)
        return self.leaves[n]


def samples():
    x, vals = 7, (Q(1, 4), Q(-1, 4), 1, -1, 5, -5, 2, -3, 40)
    for k in range(240):
        row = []
        for j in range(7):
            x = (x * 1103515245 + 12345) % 2 ** 31
            row.append(vals[x // 65536 % len(vals)])
        yield tuple(row)


def witness(d, lo, hi):
    for s in samples():
        try:
            x = Real(s).ev(d)
            x = float(num(x))
        except (Unknown, Raises, ZeroDivisionError, OverflowError,
                RecursionError):
            continue
        if not nan(x) and (x < lo - 1e-6 or x > hi + 1e-6):
            return x
    return None


# -------------------------------------------------------- scaled gradients
def reported(ctx, repo, gradient):
    f = gradient.find('get_scaled_gradient')
    ctx.anchor(f is not None, 'GridGradient.get_scaled_gradient')
    limit(ctx, run(repo, f, cls=gradient), 'GridGradient.' + f.name, None)
    f = gradient.find('determine_mask')
    if f is not None:
        limit(ctx, run(repo, f, cls=gradient), 'GridGradient.' + f.name,
              ('measured_gradient', 'orbital_scale', 'transmission_change'))


TIMES = [(m, o, t) for m in (Q(1, 4), Q(1, 2), Q(1), Q(3, 2))
         for o in (Q(1, 2), Q(1), Q(2), Q(1, 2) + Q(1, 10 ** 6),
                   Q(1, 2) + Q(1, 10 ** 13), Q(1, 2) - Q(1, 10 ** 13))
         for t in (Q(1), Q(1, 2), Q(1, 8))]


def limit(ctx, r, where, params):
    ctx.analysed(r)
    if r.failed:
        ctx.open('limit', where, r.failed)
        return
    ip = r.ip
    me = r.env['self']
    tab = Table(ctx, where, r.fn.node.lineno)
    names = ('measured_gradient', 'orbital_scale', 'transmission_change')
    terms = [r.env.get(p) if params else ip.get_field(
        me.args[0], p, r.st0) for p in (params or names)]
    if any(t is None for t in terms):
        ctx.open('limit', where, 'the three factors are not found')
        return
    for row in TIMES:
        val = {}
        for t, v in zip(terms, row):
            given(ip, val, t, v)
        for p, t in r.env.items():
            if t.op == 'gamma' and t not in terms:
                given(ip, val, t, None)
        types = {x: 'float' for x in val}
        m, o, t = row
        s = m * o / t
        text = 'measured %s, orbital scale %s, transmission change %s' % row
        got = outcome(r, Checked(val, types))
        if got is None:
            tab.row(None, text)
        elif s > 1:
            tab.row(got[0] == 'raise', '%s: a scaled gradient of %s is '
                    'accepted' % (text, float(s)))
        elif got[0] == 'raise':
            tab.row(False, '%s: a scaled gradient of %s is rejected' % (
                text, float(s)))
        elif params:
            tab.row(True, text)
        else:
            try:
                x = num(Row(val, types).ev(strip_all(ip.den(
                    got[1], r.st))))
                tab.row(not x > 1, '%s: reports %s' % (text, float(x)))
            except (Unknown, Raises):
                tab.row(None, text)
    tab.done('limit')


class Checked(Row):
    """Arguments of the right type."""

    def ev0(self, t):
        if t.op in ('notnum', 'notisa', 'notdtype', 'notrank'):
            return False
        return Row.ev0(self, t)


def given(ip, val, t, v):
    while t.op == 'gamma' and t.args[0].op == 'isnone':
        val[t.args[0]] = v is None
        val[t.args[0].args[0]] = v
        t = t.args[2]
    if v is not None:
        val[t] = v


# --------------------------------------------------------------- quadrants
def quadrants(ctx, r, me, where):
    ip, st = r.ip, r.st
    par = ip.get_field(me.args[0], 'parameters', st) if me.op == 'ref' else \
        None
    if par is None or par.op != 'ref':
        ctx.open('quadrants', where, 'grid not resolved')
        return
    v = vectors(True, True)
    load = where.endswith('load')
    for a in CUBES:
        tab = Table(ctx, '%s: %s' % (where, a), r.fn.node.lineno)
        try:
            mirrored(tab, r, me, par, v, a, load)
        except (Unknown, Raises) as e:
            tab.row(None, str(e))
        tab.done('quadrants')


def mirrored(tab, r, me, par, v, a, load):
    ip, st = r.ip, r.st
    pt = row_of(r, me, par, v, load, None)
    p = ip.get_field(me.args[0], a, st)
    base = base_cube(r, me, par, a, load)
    ny, nx, nr = len(v['dy']), len(v['dx']), len(v['rf_array'])
    cell = lambda ix: Q(7) + 11 * ix[0] + 3 * ix[1] + Q(ix[2], 5)
    other = [x for x in pt.arrays if isinstance(x, T) and x.op == 'file0']
    for k, x in enumerate(other):
        s, fn = pt.arrays[x]
        if len(s) == 3 and s != (len(s),):
            if isinstance(fn((0,) * 3), Tag):
                pt.arrays[x] = (s, lambda ix, k=k: 1000 * (k + 1) + cell(ix))
    pt.arrays[base] = ((ny, nx, nr), cell)
    pt.shapes.clear()
    pt.elts.clear()
    p = choose(pt, p)
    if p.op != 'ref':
        raise Unknown('property not resolved')
    t = strip_all(ip.den(ip.get_field(p.args[0], 'data', st), st))
    if pt.shape(t) != (2 * ny - 1, 2 * nx - 1, nr):
        raise Unknown('shape %s' % (pt.shape(t),))
    for ix in pt.indices(pt.shape(t)):
        y, x = ix[0] - (ny - 1), ix[1] - (nx - 1)
        c = cell((abs(y), abs(x), ix[2]))
        if a == 'tilt':
            want = (180 - c,) if x * y < 0 else (c,) if x * y > 0 else (
                c, 180 - c)
        else:
            want = (c,)
        text = 'point (%d, %d) from the centre' % (y, x)
        try:
            got = pt.at(t, ix)
        except Unknown as e:
            tab.row(None, '%s: %s' % (text, e))
            continue
        tab.row(any(same(got, w) for w in want), '%s: %s instead of %s' % (
            text, got, ' or '.join(map(str, want))))


def base_cube(r, me, par, a, load):
    """The cube before it is extended: the data where the grid cannot be."""
    ip, st = r.ip, r.st
    pt = row_of(r, me, par, vectors(False, False), load, None)
    p = choose(pt, ip.get_field(me.args[0], a, st))
    if p.op != 'ref':
        raise Unknown('property not resolved')
    t = strip_all(ip.den(ip.get_field(p.args[0], 'data', st), st))
    while True:
        if t.op == 'gamma':
            t = t.args[1 if truth(pt.ev(t.args[0])) else 2]
        elif t.op in ('np.copy', 'fresh', 'toarray', 'astype'):
            t = t.args[0]
        else:
            return t


def reported_by_grid(ctx, repo, grid, gradient):
    """The scaled gradients the grid reports for two stored gradients."""
    f = grid.find('get_gradients')
    if f is None:
        return
    hold = {}
    r = run(repo, f, cls=grid,
            setup=with_gradients(repo, grid, gradient, 2, hold))
    where = 'ShallotGrid.get_gradients'
    ctx.analysed(r)
    vals = r.ip.exact_seq(r.value, r.st) if r.st is not None and \
        isinstance(r.value, T) and r.value.op in ('tuple', 'ref') else None
    if r.failed or not vals:
        ctx.open('limit', where, r.failed or 'result not resolved')
        return
    ip = r.ip
    terms = [strip_all(ip.den(v, r.st)) for v in vals]
    names = ('measured_gradient', 'orbital_scale', 'transmission_change')
    tab = Table(ctx, where, f.node.lineno)
    rows = (Q(1, 2), Q(1), Q(1) + Q(1, 1024), Q(3))
    for s in itertools.product(rows, repeat=2):
        val = {}
        for g, x in zip(hold['els'], s):
            for n, y in zip(names, (x / 2, Q(1), Q(1, 2))):
                given(ip, val, ip.get_field(g.args[0], n, r.st0), y)
        text = 'scaled gradients of %s and %s' % tuple(map(float, s))
        got = outcome(r, Checked(val, {x: 'float' for x in val}))
        if got is None:
            tab.row(None, text)
        elif got[0] == 'raise':
            tab.row(max(s) > 1, text + ': rejected')
        elif max(s) <= 1:
            tab.row(True, text)
        else:
            pt = Located(val, {})
            over = und = False
            for t in terms:
                try:
                    sh = pt.shape(t)
                    if sh == (2,):
                        over |= any(num(pt.at(t, (k,))) > 1 and
                                    num(pt.at(t, (k,))) == s[k]
                                    for k in range(2))
                except (Unknown, Raises):
                    und = True
            tab.row(False if over else None if und else True,
                    text + ': reported')
    tab.done('limit')
