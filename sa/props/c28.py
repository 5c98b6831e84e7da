"""The radius factors of the grid, evaluated. The loops that sample the radius
over the scale factors are decided by induction: one further iteration keeps
every sample and adds only pairs of a scale factor and the radius of the
ellipse through both points with that factor. The interpolation is evaluated on
sampled curves with given values: every radius factor gets the scale factor at
which its branch of the curve reaches that multiple of the minimum radius. The
diagnostic map is evaluated on small grids: the ratio of every radius to the
minimum of its column, less the radius factor."""
import math
from ..common import *
from ..located import Unknown, Raises, Q, num, nan, truth, NAN
from ..smallgrid import Example
from .c03 import Table
from .c08 import file_arrays
from .c13 import field
from .c19 import base_cube
from .c27 import Ellipse, stored, frontier, closed

EPS = 1e-7
#          scale factors and radii of a sampled column, from the wide ellipses
#          over the smallest to the high ones
CURVES = (((Q(1, 2), Q(3, 4), 1, 2, 3), (9, 4, 3, 7, 12)),
          ((Q(1, 4), Q(1, 2), 1, Q(3, 2), 2, 4), (30, 8, 2, 3, 5, 7)),
          ((Q(1, 8), Q(1, 4), Q(1, 2), 1, 5), (20, 6, 5, 4, 25)),
          ((1, Q(3, 2), 6), (16, 5, 50)))
COLUMNS = (((0, Q(1, 2), 2), (0, Q(1, 4), 3)),
           ((Q(-3, 2), Q(1, 8), 1), (Q(-1, 2), Q(5, 2))),
           ((0, Q(1, 2)), (0, Q(1, 4), Q(3, 4))),
           ((-3, -2), (-2, -1)))
ROUNDS = 3


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    ctx.anchor(grid is not None, 'class ShallotGrid')
    f = grid.find('__init__')
    ctx.anchor(f is not None, 'ShallotGrid.__init__')
    r = run(repo, f, cls=grid)
    tabs = {k: Table(ctx, 'ShallotGrid(): %s' % k, f.node.lineno) for k in (
        'samples are kept', 'samples are radii of ellipses through both '
        'points', 'samples run from wide to high ellipses', 'sampling goes on '
        'up to the last radius factor', 'radius factors are reached')}
    if not r.failed and r.st is not None:
        ctx.analysed(r)
    try:
        if r.failed or r.st is None:
            raise Unknown(r.failed or 'no normal exit')
        built(r, list(tabs.values()))
    except (Unknown, Raises) as e:
        for t in tabs.values():
            t.row(None, str(e))
    for t in tabs.values():
        t.done('factor')
    diagnosed(ctx, repo, grid)


def built(r, tabs):
    me = r.env['self']
    ip, st = r.ip, r.st
    par = ip.get_field(me.args[0], 'parameters', st)
    if par.op != 'ref':
        raise Unknown('parameters not resolved')
    value, idx = stored(closed(ip, base_cube(r, me, par, 'fy_map', False)))
    factors = set(frontier(value))
    if len(factors) != 1:
        raise Unknown('the interpolated scale factors are not found')
    value = factors.pop()
    loops = set(outermost(value))
    low = {x for t in subterms(value) if t.op in (
        'np.nanargmin', 'np.argmin', 'np.nanmin', 'np.min')
        for x in outermost(t)}
    radii, scale = loops & low, loops - low
    if len(radii) != 1 or len(scale) != 1:
        raise Unknown('the sampled curve is not found')
    radii, scale = radii.pop(), scale.pop()
    reached(ip, par, st, value, scale, radii, idx, tabs[4])
    loops = []
    while scale.op == 'ofold' or radii.op == 'ofold':
        if scale.op != radii.op or scale.args[5] != radii.args[5]:
            raise Unknown('factors and radii are sampled by different loops')
        loops.insert(0, (scale, radii))
        scale, radii = scale.args[2], radii.args[2]
    if any(t.op not in ('list', 'tuple') or t.args for t in (scale, radii)):
        raise Unknown('samples before the first')
    for dy, dx in COLUMNS:
        for i in range(len(dy)):
            for j in range(len(dx)):
                if dy[i] != 0 or dx[j] == 0:
                    column(r, par, loops, idx, (i, j), tuple(map(Q, dy)),
                           tuple(map(Q, dx)), tabs)


def outermost(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == 'ofold':
        yield t
        return
    for x in t.args:
        if isinstance(x, T):
            yield from outermost(x, seen)


def column(r, par, loops, idx, ij, dy, dx, tabs):
    """The curve of one column, ROUNDS iterations of every loop."""
    keep, right, order, last, _ = tabs
    vec = {'dy': dy, 'dx': dx, 'rf': (Q(1), Q(2)),
           'rf_array': (Q(2), Q(1), Q(2))}
    y, x = float(dy[ij[0]]), float(dx[ij[1]])
    at = dict(zip(idx, map(const, ij)))
    have = []
    place = lambda t: rewrite(t, lambda u: at.get(u, u))
    rfs = {u for f in r.ip.folds.values() for u in subterms(f.next)
           if u.op == 'fld' and u.args[1] == 'rf'}
    for n, pair in enumerate(loops):
        body = [place(t.args[4]) for t in pair]
        mus = [place(t.args[3]) for t in pair]
        k = None
        counter, start, step = counting(r, body, mus, pair)
        for turn in range(ROUNDS):
            text = 'dx = %g of %s, dy = %g of %s, loop %d, iteration %d' % (
                x, show_of(dx), y, show_of(dy), n + 1, turn + 1)
            arrays = file_arrays(r.ip, par, r.st, vec)
            for h, c in zip(mus, (0, 1)):
                arrays[h] = (len(have),), lambda ix, c=c, now=tuple(
                    have): now[ix[0]][c]
            val = {}
            for b in body:
                for u in subterms(b):
                    if u.op == 'np.linspace' and len(u.args) > 2 and \
                            u.args[2].op == 'param':
                        val[u.args[2]] = Q(4)
            for t in rfs:
                arrays[t] = (2,), lambda ix: Q(1 + ix[0])
            pt = Ellipse(val, arrays, vec)
            try:
                if counter is not None:
                    k = num(pt.ev(start)) if turn == 0 else k
                    pt.val[counter] = k
                    pt.memo.clear()
                    k = num(pt.ev(step))
                rows = []
                for b in body:
                    s = pt.shape(b)
                    if len(s) != 1:
                        raise Unknown('shape of the samples')
                    rows.append([num(pt.at(b, (q,))) for q in range(s[0])])
            except Unknown as e:
                for tab in tabs[:4]:
                    tab.row(None, '%s: %s' % (text, e))
                return
            except Raises as e:
                keep.row(False, '%s: raises (%s)' % (text, e))
                return
            if len(rows[0]) != len(rows[1]):
                keep.row(False, '%s: %d scale factors but %d radii' % (
                    text, len(rows[0]), len(rows[1])))
                return
            now = list(zip(*rows))
            new = len(now) - len(have)
            front = alike(now[:new], now[new:], have, now)
            if front is None:
                keep.row(False, text + ': the samples before are not kept')
                return
            keep.row(True, text)
            fresh = now[:new] if front else now[len(have):]
            for fy, got in fresh:
                if nan(fy) and nan(got) or y == 0 and fy == 0:
                    continue                    # flat, of any radius
                want = radius(x, y, float(fy))
                right.row(not nan(fy) and not nan(got) and
                          want is not None and
                          abs(float(got) - want) <= EPS * (1 + abs(want)),
                          '%s: radius %.6g at the scale factor %.6g instead '
                          'of %s' % (text, got, fy, want))
            ordered(order, text, y, fresh, have, front, turn)
            have = now
            far = [float(g) for f, g in (now if front else now[::-1])]
            if far and not any(map(nan, far)) and min(far) > 0 and \
                    far[0] / min(far) < 2 - EPS:
                try:
                    end = ended(r.ip, pair[0].args[5], pt, place)
                    last.row(not end, '%s: ends at %.4g of the minimum '
                             'radius with factors up to 2' % (
                                 text, far[0] / min(far)))
                except (Unknown, Raises) as e:
                    last.row(None, '%s: %s' % (text, e))


def ended(ip, lid, pt, place):
    """Does the loop end after this iteration?"""
    flags = [f for (n, k), f in ip.folds.items() if n == lid and
             f.init in (TRUE, FALSE)]
    if len(flags) == 1:
        f = flags[0]
        pt.val[f.mu] = f.init is TRUE
        pt.memo.clear()
        return truth(pt.ev(place(f.next))) != (f.init is TRUE)
    recs = [x for x in ip.loop_recs if x.lid == lid]
    if flags or len(recs) != 1 or not recs[0].leaves:
        raise Unknown('end of the loop')
    for b in recs[0].leaves:
        if all(pt.ev(place(t)) == p for t, p in b.facts.items()
               if t.op not in ('isdtype', 'notnum') and
               recs[0].pre.facts.get(t) is None):
            return True
    return False


def counting(r, body, mus, pair):
    """(counter, its first value, its next) of the loop, if it counts"""
    free = {u for b in body for u in subterms(b)
            if u.op in ('mu', 'while', 'idx', 'bv')} - set(mus)
    if not free:
        return None, None, None
    if len(free) > 1 or next(iter(free)).op != 'mu':
        raise Unknown('sampling depends on more than a counter')
    u = free.pop()
    for f in r.ip.folds.values():
        if f.mu is u:       # what it is where the loop goes on
            on = {b for b in branches(f.next) if b is not u}
            if len(on) == 1:
                return u, f.init, on.pop()
    raise Unknown('counter of the loop not found')


def show_of(v):
    return '(%s)' % ', '.join('%g' % float(x) for x in v)


def same_pairs(a, b):
    return len(a) == len(b) and all(
        (nan(x) and nan(y)) or x == y for p, q in zip(a, b)
        for x, y in zip(p, q))


def alike(before, after, have, now):
    """Are the earlier samples at the end (True) or the start (False)?"""
    if same_pairs(after, have):
        return True
    return False if same_pairs(now[:len(have)], have) else None


def ordered(tab, text, y, fresh, have, front, turn):
    """The curve runs from the wide ellipses to the high ones."""
    seq = fresh + have if front else have + fresh
    fs = [float(f) for f, g in seq if not nan(f)]
    up = all(a <= b + EPS for a, b in zip(fs, fs[1:]))
    tab.row(up, '%s: the scale factors (%s) are not in order' % (
        text, ', '.join('%.4g' % f for f in fs)))
    mine = [float(f) for f, g in fresh if not nan(f)]
    if not up or len(mine) != len(fresh):
        if len(mine) != len(fresh):
            tab.row(False, '%s: undefined scale factors' % text)
        return
    if have and turn:       # the next stretch continues where it ended
        a, b = (have[0][0], mine[-1]) if front else (have[-1][0], mine[0])
        tab.row(abs(spread(float(a), y, front) - spread(b, y, front)) <=
                max(abs(spread(p, y, front) - spread(q, y, front))
                    for p, q in zip(mine, mine[1:])) + EPS,
                '%s: a gap between the scale factors %.6g and %.6g' % (
                    text, float(a), b))
        beyond = mine[0] < float(have[0][0]) - 1e-12 if front else \
            mine[-1] > float(have[-1][0]) + 1e-12
        tab.row(beyond or y == 0 and front, '%s: no further than before' %
                text)


def spread(fy, y, front):
    """The scale factor the samples are equidistant in."""
    if not front:
        return fy
    d = fy * fy * (1 + 4 * y * y) - 4 * y * y
    return fy / math.sqrt(d) if d > 0 else 0.0


def radius(dx, dy, fy):
    """Semi-major axis of the ellipse through both points."""
    d = fy * fy * (1 + 4 * dy * dy) - 4 * dy * dy
    if d <= 0:
        return None
    r0 = math.hypot(0.5, dy)
    a, s = r0 * fy / math.sqrt(d), -dx / dy if dy else 0.0
    c = r0 * fy
    # largest singular value of [[a, -s c], [0, c]]
    p, q = a * a + s * s * c * c + c * c, a * c
    return math.sqrt((p + math.sqrt(max(p * p - 4 * q * q, 0.0))) / 2)


def reached(ip, par, st, value, scale, radii, idx, tab):
    at = dict(zip(idx, (const(0), const(0))))
    for fys, rs in CURVES:
        for rf in ((1, 2), (1, Q(3, 2), 2), (1,),
                   (1, Q(5, 4), Q(3, 2), Q(7, 4))):
            rf = tuple(map(Q, rf))
            vec = {'dy': (Q(1), Q(2)), 'dx': (Q(0), Q(1)), 'rf': rf,
                   'rf_array': rf[::-1] + rf[1:]}
            arrays = file_arrays(ip, par, st, vec)
            for t in {u for u in subterms(value) if u.op == 'fld' and
                      u.args[1] == 'rf'}:
                arrays[t] = (len(rf),), lambda ix, rf=rf: rf[ix[0]]
            for t, v in ((scale, fys), (radii, rs)):
                arrays[t] = (len(v),), lambda ix, v=v: Q(v[ix[0]])
            pt = Ellipse({}, arrays, vec)
            text = 'radii %s at the scale factors %s' % (
                [float(x) for x in rs], [float(x) for x in fys])
            n = len(vec['rf_array'])
            mid = len(rf) - 1
            try:
                if pt.shape(value) != (n,):
                    tab.row(False, '%s: %s scale factors for %d radius '
                            'factors' % (text, pt.shape(value), n))
                    continue
                got = [float(num(pt.at(value, (k,)))) for k in range(n)]
            except Unknown as e:
                tab.row(None, '%s: %s' % (text, e))
                continue
            except Raises as e:
                tab.row(False, '%s: raises (%s)' % (text, e))
                continue
            for k, g in enumerate(got):
                want = branch(fys, rs, float(vec['rf_array'][k]), k < mid)
                tab.row(abs(g - want) <= EPS, '%s: radius factor %s (%d of '
                        '%d) is given the scale factor %.6g instead of '
                        '%.6g' % (text, float(vec['rf_array'][k]), k + 1, n,
                                  g, want))


def branch(fys, rs, rf, wide):
    """Where the curve reaches rf times its minimum."""
    m = min(range(len(rs)), key=lambda k: rs[k])
    want = rf * rs[m]
    ks = range(m, 0, -1) if wide else range(m, len(rs) - 1)
    for k in ks:
        j = k - 1 if wide else k + 1
        if rs[k] <= want <= rs[j]:
            return float(fys[k] + (fys[j] - fys[k]) * (
                want - rs[k]) / (rs[j] - rs[k]))
    return float(fys[0] if wide else fys[-1])


# -------------------------------------------------------------- diagnostic
def diagnosed(ctx, repo, grid):
    f = find_func(repo, 'ShallotGrid.diagnose_fxfy_resolution')
    where = 'ShallotGrid.diagnose_fxfy_resolution'
    r = run(repo, f, cls=grid)
    if r.failed or r.st is None:
        ctx.open('deviation', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    ip, me = r.ip, r.env['self']
    tab = Table(ctx, where, f.node.lineno)
    p = ip.get_field(me.args[0], 'diagnostic_map', r.st)
    if p.op != 'ref':
        ctx.open('deviation', where, 'diagnostic map not resolved')
        return
    t = field(ip, p, 'data', r.st)
    par = ip.get_field(me.args[0], 'parameters', r.st0)
    for rf in ((1,), (1, 2), (1, Q(3, 2), 2)):
        for dy, dx in (((0, 1), (0, 1, 2)), ((-1, 2, 3), (4,))):
            for holes in ((), (0,), (1, 2)):
                cube = rf[::-1] + rf[1:]
                nr = len(cube)
                ex = Example(dy, dx, cube, {
                    'disk_radius': lambda k, nr=nr, holes=holes: NAN
                    if k // nr in holes else Q(3 + k * k % 11, 2)})
                try:
                    pt = ex.located(r, me, ())
                    pt.arrays[field(ip, par, 'rf', r.st0)] = (
                        (len(rf),), lambda ix, rf=rf: Q(rf[ix[0]]))
                    s = pt.shape(t)
                    if s != ex.shape:
                        raise Unknown('shape %s' % (s,))
                except (Unknown, Raises) as e:
                    tab.row(None, str(e))
                    continue
                for ix in ex.points:
                    m = ex.value('disk_radius', (ix[0], ix[1], len(rf) - 1))
                    v = ex.value('disk_radius', ix)
                    want = NAN if nan(m) or nan(v) else v / m - cube[ix[2]]
                    text = '%s, point %s' % (ex.text(), list(ix))
                    try:
                        got = num(pt.at(t, ix))
                    except Unknown as e:
                        tab.row(None, '%s: %s' % (text, e))
                        continue
                    except Raises as e:
                        tab.row(False, '%s: raises (%s)' % (text, e))
                        continue
                    ok = nan(got) if nan(want) else not nan(got) and \
                        abs(float(got - want)) <= EPS
                    tab.row(ok, '%s: %s instead of %s' % (
                        text, float(got), float(want)))
    tab.done('deviation')
