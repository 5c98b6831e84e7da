"""The disk gradient of every grid point, evaluated. add_gradients is
interpreted with symbolic times; the data of every new gradient is evaluated
element by element on small grids with given scale factors, for several times
and eclipse durations, and compared with the slope of the concentric ellipse
through the point of the eclipse line the star is behind. Where the tangent is
vertical both 1 and undefined are accepted."""
import math
from ..common import *
from ..smallgrid import *
from .c03 import Table
from .c13 import with_gradients, field, raw
from .c24 import final_lists, base_row, kept
from .c27 import Ellipse

SCALES = ('fx_map', 'fy_map')


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None, 'grid classes')
    f = find_func(repo, 'ShallotGrid.add_gradients')
    names = [a.arg for a in f.node.args.args][1:]
    ctx.anchor(len(names) >= 4, 'add_gradients(times, gradients, errors, '
               'transmission changes)')
    for n, m in ((0, 1), (0, 2), (1, 2)):
        where = 'ShallotGrid.add_gradients: %d more than %d' % (m, n)
        hold, given = {}, {}
        base = with_gradients(repo, grid, gradient, n, hold)

        def setup(ip, st, env):
            base(ip, st, env)
            for i, nm in enumerate(names):
                env[nm] = NONE
                if i < 2:
                    given[nm] = [mk('param', '%s[%d]' % (nm, k))
                                 for k in range(m)]
                    for x in given[nm]:
                        st.facts[mk('isnone', x)] = False
                        st.facts[mk('isnan', x)] = False
                    env[nm] = ip.new_arr(mk('list', *given[nm]), st)
        r = run(repo, f, cls=grid, setup=setup)
        if r.failed or r.st is None or not hold:
            ctx.open('slope', where, r.failed or 'no normal return')
            continue
        ctx.analysed(r)
        tb = {k: Table(ctx, '%s, %s' % (where, k), f.node.lineno) for k in (
            'disk gradient of every point', 'undefined points')}
        for times in ((0, 1), (Q(-3, 4), Q(1, 3)), (Q(7, 5), Q(-11, 4)),
                      (3, -3)):
            for dur in (3, Q(1, 2)):
                for ex in examples():
                    slopes(r, f, hold, given, names, n, m, times, dur, ex,
                           *tb.values())
        for t in tb.values():
            t.done('slope')


def examples():
    fx = (lambda k: 1 + Q(k % 5, 3), lambda k: 1, lambda k: NAN if k % 3 == 0
          else Q(k + 1, 4))
    fy = (lambda k: 1, lambda k: Q(1, 2) + Q(k % 4, 3),
          lambda k: NAN if k % 4 == 1 else Q(9, 10))
    for dy, dx, rf in (((0, Q(3, 10), 2), (0, Q(7, 10), 3), (1,)),
                       ((-1, Q(1, 4)), (-2, Q(1, 8)), (2, 1, 2)),
                       ((Q(-3, 2), 0, Q(3, 2)), (Q(-1, 2), 0, Q(1, 2)), (1,))):
        for a, b in zip(fx, fy):
            yield Example(dy, dx, rf, {'fx_map': a, 'fy_map': b})
    tiny = Q(1, 10 ** 13)                # tangents that are nearly vertical
    yield Example((0, tiny, -2 * tiny, Q(1, 1000)), (0, 1), (1,), {
        'fx_map': lambda k: 2 + Q(k, 3), 'fy_map': lambda k: Q(k + 1, 1000)})


def shear(ex, ix):
    dy, dx = Q(ex.dy[ix[0]]), Q(ex.dx[ix[1]])
    if dy == 0:
        return Q(0) if dx == 0 else NAN
    return -dx / dy


def slopes(r, f, hold, given, names, n, m, times, dur, ex, tab, undef):
    ip, me = r.ip, hold['me']
    try:
        val = base_row(r, hold)
        for i, nm in enumerate(names[:2]):
            for k, x in enumerate(given[nm]):
                val[x] = Q(times[k]) if i == 0 else Q(k + 1, 1000)
                val[mk('isnone', x)] = False
        val[raw(ip, me, kept(r, '_eclipse_duration'), r.st0)[0]] = Q(dur)
        base = ex.located(r, me, hold['els'], val)
        arrays = dict(base.arrays)
        t = field(ip, me, 'shear', r.st0)
        arrays[t] = ex.shape[:2] + (1,), lambda ix: shear(ex, ix)
        pt = Ellipse(base.val, arrays)
        seqs = [s for s, v in final_lists(r, me, pt)]
    except Unknown as e:
        tab.row(None, str(e))
        return
    if len(seqs) != 1 or seqs[0] is None or len(seqs[0]) != n + m:
        tab.row(None, 'the list of gradients is not determined')
        return
    for k in range(m):
        g = seqs[0][n + k]
        if g.op != 'ref':
            tab.row(None, 'new gradient not determined')
            continue
        data = field(ip, g, 'data', r.st)
        pos = -Q(times[k]) / Q(dur)
        for ix in ex.points:
            text = 'time %s, eclipse duration %s, dx = %s, dy = %s, fx = ' \
                '%s, fy = %s' % (times[k], dur, ex.dx[ix[1]], ex.dy[ix[0]],
                                 ex.value('fx_map', ix),
                                 ex.value('fy_map', ix))
            try:
                got = float(num(pt.at(data, ix)))
            except Unknown as e:
                (undef if unset(ex, ix) else tab).row(None, str(e))
                continue
            except Raises as e:
                tab.row(False, '%s: raises (%s)' % (text, e))
                continue
            if unset(ex, ix):
                undef.row(nan(got), '%s: %.6g where nothing is defined' % (
                    text, got))
                continue
            up, down = tangent(ex, ix, pos)
            if down == 0:
                tab.row(nan(got) or abs(got - 1) <= 1e-9 or up == 0,
                        '%s: %.9g on a vertical tangent' % (text, got))
                continue
            want = abs(math.sin(math.atan2(float(up), float(down))))
            tab.row(not nan(got) and abs(got - want) <= 1e-9,
                    '%s: %.9g instead of %.9g' % (text, got, want))


def unset(ex, ix):
    return nan(ex.value('fx_map', ix)) or nan(ex.value('fy_map', ix)) or \
        nan(shear(ex, ix))


def tangent(ex, ix, pos):
    """Slope of the ellipse fy^2 (X + s Y)^2 + fx^2 Y^2 = constant."""
    s = shear(ex, ix)
    fx, fy = ex.value('fx_map', ix), ex.value('fy_map', ix)
    x, y = pos - Q(ex.dx[ix[1]]), -Q(ex.dy[ix[0]])
    return -fy ** 2 * (x + s * y), s * fy ** 2 * (x + s * y) + fx ** 2 * y
