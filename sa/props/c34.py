"""Coordinates of a grid, evaluated. The constructor of the grid parameters is
interpreted with symbolic limits and numbers; the vectors it stores and the
ones get_vectors returns are evaluated element by element for many limits and
numbers, and compared with the requested ranges: evenly spaced, first to last,
the radius factors from the largest down to 1 and back up. Requests that
describe no range must be refused, all others accepted. A grid that is built
must carry the parameters it was given."""
import itertools
from ..common import *
from ..located import *
from .c03 import Table, happens
from .c08 import Grid, flat

TOL = 1e-12    # of the largest coordinate
KINDS = ('dy', 'dx', 'rf_array')


def check(ctx):
    repo = ctx.repo
    par = repo.classes.get('GridParameters')
    ctx.anchor(par is not None, 'class GridParameters')
    f = par.find('__init__')
    ctx.anchor(f is not None, 'GridParameters.__init__')
    names = [a.arg for a in f.node.args.args][1:]
    ctx.anchor(len(names) == 8, 'limits and numbers of GridParameters')
    r = run(repo, f, cls=par)
    if r.failed or r.st is None:
        ctx.open('range', 'GridParameters()', r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    me, ip, st = r.env['self'], r.ip, r.st
    tabs = {k: Table(ctx, 'GridParameters(), %s' % k, f.node.lineno) for k in
            ('dy', 'dx', 'rf_array', 'rf', 'get_vectors', 'accepted ranges',
             'refused ranges')}
    s2 = st.copy()
    g = par.find('get_vectors')
    ctx.anchor(g is not None, 'GridParameters.get_vectors')
    vec, raised = call_in(ip, g, [me], {}, s2)
    out = ip.exact_seq(vec, s2) if vec is not None else None
    if vec is not None and vec.op == 'tuple':
        out = list(vec.args)
    terms = {nm: strip_all(ip.den(ip.get_field(me.args[0], nm, st), st))
             for nm in KINDS + ('rf',)}
    checks = {x for o in r.raises for c, _ in o.st.pc for x in subterms(c)
              if x.op == 'notnum'}
    for row in rows():
        text = 'x from %s to %s (%s), y from %s to %s (%s), rf to %s (%s)' \
            % row
        val = {}
        for k, v in zip(names, row):
            val[r.env[k]] = Q(v)
            val[mk('isnone', r.env[k])] = False
            for c in checks:
                if c.args[0] is r.env[k]:
                    val[c] = False      # every value is of the right type
        pt = Grid(val, {})
        lo_x, hi_x, nx, lo_y, hi_y, ny, top, nr = row
        good = lo_x < hi_x and lo_y < hi_y and min(nx, ny, nr) >= 1 and \
            top >= 1
        vs = [happens(pt, o.st.pc) for o in r.raises]
        no = True if True in vs else None if None in vs else False
        if not good:
            tabs['refused ranges'].row(no, text + ' is not refused')
            continue
        tabs['accepted ranges'].row(None if no is None else not no,
                                    text + ' is refused')
        if no is not False:
            continue
        rf = spaced(1, top, nr)
        want = {'dy': spaced(lo_y, hi_y, ny), 'dx': spaced(lo_x, hi_x, nx),
                'rf': rf, 'rf_array': rf[::-1] + rf[1:]}
        for nm, t in terms.items():
            tabs[nm].row(*match(pt, t, want[nm], '%s: %s' % (text, nm)))
        if out is None or len(out) != 3:
            tabs['get_vectors'].row(None, 'three vectors expected')
            continue
        for nm, x in zip(KINDS, out):
            t = strip_all(ip.den(x, s2))
            tabs['get_vectors'].row(*match(
                pt, t, want[nm], '%s: %s vector' % (text, nm), True))
    for t in tabs.values():
        t.done('range')
    extended(ctx, par)


def rows():
    for (a, b), (c, d) in itertools.product(
            ((0, 2), (-3, Q(1, 2)), (Q(1, 4), Q(3, 4))),
            ((0, 5), (-2, -1))):
        for nx, ny, nr in ((1, 1, 1), (2, 3, 2), (4, 1, 3), (3, 5, 4)):
            for top in (1, Q(5, 2), 6):
                yield a, b, nx, c, d, ny, top, nr
    ok = (0, 2, 3, 0, 4, 2, 3, 2)
    tiny = Q(1, 10 ** 9)
    for k, v in ((1, tiny), (0, 2 - tiny), (4, tiny), (3, 4 - tiny),
                 (6, 1 + tiny), (6, 1 - tiny), (1, -tiny), (4, -tiny)):
        yield ok[:k] + (v,) + ok[k + 1:]
    yield 0, Q(1, 3), 3, -Q(1, 7), Q(1, 3), 4, 1 + Q(1, 7), 3
    yield tiny, 3 * tiny, 3, -tiny, tiny, 4, 1 + tiny, 4
    yield 10 ** 6, 10 ** 6 + 1, 3, -10 ** 6 - 1, -10 ** 6, 2, 10 ** 6, 2
    for k, v in ((0, 2), (0, 3), (1, 0), (1, -1), (2, 0), (2, -1), (3, 4),
                 (3, 5), (4, 0), (4, -2), (5, 0), (5, -3), (6, Q(99, 100)),
                 (6, 0), (6, -2), (7, 0), (7, -1)):
        yield ok[:k] + (v,) + ok[k + 1:]


def spaced(lo, hi, n):
    return tuple(Q(lo) + (Q(hi) - Q(lo)) * k / (n - 1) if n > 1 else Q(lo)
                 for k in range(n))


def match(pt, t, want, text, vector=False):
    try:
        if vector and len(pt.shape(t)) != 1:
            return False, text + ' is no vector'
        got = tuple(float(num(x)) for x in flat(pt, t))
    except Unknown as e:
        return None, '%s: %s' % (text, e)
    except Raises as e:
        return False, '%s raises (%s)' % (text, e)
    ok = len(got) == len(want) and all(
        abs(g - w) <= TOL * max(map(abs, want)) for g, w in zip(got, want))
    word = lambda v: '(%s)' % ', '.join('%g' % x for x in v)
    return ok, '%s is %s instead of %s' % (text, word(got), word(want))


def extended(ctx, par):
    """A grid of any size keeps its spacing and its shape axes when mirrored."""
    f = par.find('extend_grid')
    ctx.anchor(f is not None, 'GridParameters.extend_grid')
    r = run(ctx.repo, f, cls=par)
    where = 'GridParameters.extend_grid'
    if r.failed or r.st is None:
        ctx.open('mirror', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    me, ip = r.env['self'], r.ip
    tabs = {k: Table(ctx, '%s, %s' % (where, k), f.node.lineno)
            for k in ('dy', 'dx', 'rf_array')}
    for ny, nx, nr in ((2, 3, 2), (4, 2, 1), (3, 3, 3), (5, 2, 2)):
        for hy, hx in ((1, 3), (Q(5, 2), Q(1, 2)), (Q(1, 7), Q(1, 10 ** 9))):
            rf = spaced(1, 4, nr)
            v = {'dy': spaced(0, hy, ny), 'dx': spaced(0, hx, nx), 'rf': rf,
                 'rf_array': rf[::-1] + rf[1:]}
            arrays = {}
            for nm in KINDS + ('rf',):
                t = strip_all(ip.den(ip.get_field(me.args[0], nm, r.st0),
                                     r.st0))
                n = len(v[nm])
                arrays[t] = {'dy': (n, 1, 1), 'dx': (1, n, 1)}.get(
                    nm, (n,)), lambda ix, w=v[nm]: w[max(ix)]
            pt = Grid({}, arrays, v)
            for nm, tab in tabs.items():
                want = v[nm] if nm == 'rf_array' else tuple(
                    -x for x in v[nm][:0:-1]) + v[nm]
                t = strip_all(ip.den(ip.get_field(me.args[0], nm, r.st),
                                     r.st))
                tab.row(*match(pt, t, want, 'extending %d x %d x %d: %s' % (
                    ny, nx, len(rf), nm)))
    for t in tabs.values():
        t.done('mirror')
