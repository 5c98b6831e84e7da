"""The ellipse of every grid point, evaluated. The grid construction is
interpreted once; the loops over the rows and columns that fill the cubes are
unrolled on small grids, with the y scale factors each column is given (what
the radius factors are interpolated from) as arbitrary numbers. Radius,
inclination, tilt and both scale factors of every point are then evaluated and
must belong to one ellipse that is centred at (dx, dy) and passes through
(-1/2, 0) and (1/2, 0), and must be defined wherever such an ellipse exists for
the scale factor."""
import math
from ..common import *
from ..located import SAME, BROAD, Unknown, Raises, Q, num, nan, NAN
from .c03 import Table
from .c08 import Grid, file_arrays
from .c19 import base_cube
from .c31 import TRIG

DATA = ('disk_radius', 'inclination', 'tilt')
MAPS = ('fx_map', 'fy_map')
EPS = 1e-7
#        dy, dx; the base cubes hold one quadrant, or the whole of a grid that
#        cannot be extended
PLANES = (((0, Q(1, 2), 2), (0, Q(1, 4), 3)),
          ((Q(-3, 4), Q(1, 8), 1), (Q(-1, 2), 0, Q(5, 2))),
          ((0, 5), (-1, 0, 1)))
SCALES = ((4, 1, Q(5, 4)), (Q(11, 10), Q(19, 20), Q(99, 100)),
          (Q(3, 2), 30, Q(1, 10)))


class Ellipse(Grid):
    def ev0(self, t):
        o = t.op
        if o in TRIG and len(t.args) == 1:
            x = num(self.ev(t.args[0]))
            try:
                return x if nan(x) else TRIG[o](float(x))
            except ValueError:
                return NAN
        if o in ('np.arctan2', 'math.atan2'):
            y, x = (num(self.ev(a)) for a in t.args[:2])
            return NAN if nan(x) or nan(y) else math.atan2(y, x)
        if o in ('np.sinh', 'np.cosh'):
            raise Unknown(o)
        if o == 'pi':
            return math.pi
        return Grid.ev0(self, t)


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    ctx.anchor(grid is not None, 'class ShallotGrid')
    f = grid.find('__init__')
    ctx.anchor(f is not None, 'ShallotGrid.__init__')
    r = run(repo, f, cls=grid)
    where = 'ShallotGrid()'
    tabs = {k: Table(ctx, '%s: %s' % (where, k), f.node.lineno) for k in (
        'the ellipse passes through both points', 'the scale factors belong '
        'to the points', 'every ellipse that exists is defined')}
    if r.failed or r.st is None:
        ctx.open('ellipse', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    try:
        ellipses(r, list(tabs.values()))
    except (Unknown, Raises) as e:
        for t in tabs.values():
            t.row(None, str(e))
    for t in tabs.values():
        t.done('ellipse')


def ellipses(r, tabs):
    me = r.env['self']
    ip, st = r.ip, r.st
    par = ip.get_field(me.args[0], 'parameters', st)
    if par.op != 'ref':
        raise Unknown('parameters not resolved')
    cubes = {a: closed(ip, base_cube(r, me, par, a, False))
             for a in DATA + MAPS}
    values = [stored(t) for t in cubes.values()]
    if len({i for v, i in values}) != 1:
        raise Unknown('the cubes are filled by different loops')
    factor = {u for v, i in values for u in frontier(v)}
    if len(factor) != 1:
        raise Unknown('the interpolated scale factors are not found')
    factor, given = factor.pop(), mk('factors', *values[0][1])
    for dy, dx in PLANES:
        for turn in range(2):
            vec = {'dy': tuple(map(Q, dy)), 'dx': tuple(map(Q, dx)),
                   'rf': (Q(1), Q(2)), 'rf_array': (Q(2), Q(1), Q(2))}
            arrays = file_arrays(ip, par, st, vec)
            size = len(dy), len(dx)
            for i in range(size[0]):
                for j in range(size[1]):
                    s = SCALES[(i + 2 * j + turn) % len(SCALES)]
                    arrays[mk('factors', const(i), const(j))] = (
                        (3,), lambda ix, s=s: Q(s[ix[0]]))
            pt = Ellipse({}, arrays, vec)
            flat = {a: unroll(pt, rewrite(t, lambda u: given if u is factor
                                          else u)) for a, t in cubes.items()}
            for i in range(size[0]):
                for j in range(size[1]):
                    for k in range(3):
                        s = SCALES[(i + 2 * j + turn) % len(SCALES)][k]
                        point(pt, flat, (i, j, k), vec, Q(s), tabs)


def closed(ip, t):
    """Values after the last iteration of a loop left from its inside."""
    for (lid, k), f in ip.folds.items():
        if lid in ip.unending and isinstance(f.term, T) and \
                isinstance(f.next, T) and f.next is not f.mu:
            t = rewrite(t, lambda u: f.term if u is f.next else u)
    return t


def stored(t):
    """The value every column of the cube is given, and its two indices."""
    idx = []
    while t.op == 'fold':
        idx.append(t.args[1])
        t = t.args[4]
    found = {x for x in subterms(t) if x.op == 'store' and
             x.args[1].op == 'tuple' and len(x.args[1].args) >= 2 and
             set(x.args[1].args[:2]) == set(idx)}
    if len(idx) != 2 or len(found) != 1:
        raise Unknown('the stored values of a column are not found')
    return next(iter(found)).args[2], tuple(idx)


def frontier(t, seen=None):
    """What iteration and interpolation leave for element-wise arithmetic."""
    seen = set() if seen is None else seen
    if t in seen or not contains(t, lambda x: x.op == 'ofold'):
        return
    seen.add(t)
    if t.op in SAME | BROAD | {'store', 'item', 'full', 'shape', 'gamma',
                               'full_like'}:
        for x in t.args:
            if isinstance(x, T):
                yield from frontier(x, seen)
    else:
        yield t


def unroll(pt, t, depth=0):
    """Loops of known length, iteration by iteration."""
    if t.op != 'fold' or depth > 3:
        return t
    n, idx, cur, bv, body = t.args[:5]
    for k in range(pt.integer(n)):
        now = cur
        cur = unroll(pt, rewrite(body, lambda u: const(k) if u is idx else
                                 now if u is bv else u), depth + 1)
    return cur


def point(pt, cubes, ix, vec, fy, tabs):
    through, scale, defined = tabs
    dy, dx = float(vec['dy'][ix[0]]), float(vec['dx'][ix[1]])
    text = 'dx = %g, dy = %g, y scale factor %g' % (dx, dy, fy)
    got = {}
    for a, t in cubes.items():
        try:
            got[a] = float(num(pt.at(t, ix)))
        except Unknown as e:
            for tab in tabs:
                tab.row(None, '%s of %s: %s' % (a, text, e))
            return
        except Raises as e:
            defined.row(False, '%s: %s raises (%s)' % (text, a, e))
            return
    exists = (dy != 0 or dx == 0) and \
        float(fy) ** 2 * (1 + 4 * dy ** 2) > 4 * dy ** 2
    lost = [a for a in DATA + MAPS if nan(got[a])]
    if exists:
        defined.row(not lost, '%s: %s undefined' % (text, ' and '.join(lost)))
    if not any(nan(got[a]) for a in DATA):
        off = distance(got, dx, dy)
        through.row(off <= EPS, '%s: radius %.6g, inclination %.6g, tilt '
                    '%.6g misses a point (%.3g)' % (
                        (text,) + tuple(got[a] for a in DATA) + (off,)))
    if not any(nan(got[a]) for a in MAPS):
        fx, fy = got['fx_map'], got['fy_map']
        r2 = 0.25 + dy * dy
        off = abs(0.25 * fy ** 2 + dy * dy * fx ** 2 -
                  r2 * fx ** 2 * fy ** 2) / (r2 * max(1, fx ** 2 * fy ** 2))
        scale.row(off <= EPS, '%s: scale factors (%.6g, %.6g) miss the '
                  'points' % (text, fx, fy))


def distance(got, dx, dy):
    """How far the two points are off the ellipse, relatively."""
    a, i, t = (got[k] for k in DATA)
    b = a * math.cos(math.radians(i))
    c, s = math.cos(math.radians(t)), math.sin(math.radians(t))
    out = 0.0
    for x in (0.5, -0.5):
        u, v = (x - dx) * c - dy * s, -(x - dx) * s - dy * c
        if a <= 0:
            return math.inf
        # u^2/a^2 + v^2/b^2 = 1 without dividing by a small b
        off = abs(u * u * b * b + v * v * a * a - a * a * b * b)
        out = max(out, off / max(b * b * a * a, 1e-12))
    return out
