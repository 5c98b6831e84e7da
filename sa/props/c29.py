"""The closest grid point, on small grids. determine_closest_grid_point is
interpreted once per way of masking; the terms it returns (coordinates,
indices, distance) are evaluated element by element on small grids whose
stored arrays, masks and target are given, and compared with the documented
search: the least distance among the points that are defined and on the side
of the impact parameter. Ties may go either way."""
from ..common import *
from ..smallgrid import *
from .c13 import with_gradients
from .c23 import flag, parts
from .c03 import Table

DATA = ('disk_radius', 'inclination', 'tilt')


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None, 'grid classes')
    f = find_func(repo, 'ShallotGrid.determine_closest_grid_point')
    for masked in (False, True):
        where = 'ShallotGrid.determine_closest_grid_point(masked=%s)' % masked
        for n in (0, 1):
            hold = {}
            r = run(repo, f, cls=grid, env=flag(f, 5, masked),
                    setup=with_gradients(repo, grid, gradient, n, hold))
            place = '%s, %d gradients' % (where, n)
            vs = None
            if not r.failed and r.st is not None:
                ctx.analysed(r)
                vs = parts(r, r.value)
            if vs is None or len(vs) != 3:
                ctx.open('minimum', place, r.failed or 'triple expected')
                continue
            search(ctx, r, f, hold, vs, masked, place)


def examples(n, masked):
    owners = list(DATA) + ['gradient %d' % k for k in range(n)]
    up, down = (-2.25, -1, 0, 1.25), (2.75, 1, -1.25, -3)
    for s, t in ((7, (4, 5, 6)), (5, (2, 9, 20)), (4, (8, 3, 11))):
        for b in (-1, 0, 2):
            for dy, dx, rf in ((up, (0, 1), (1, 2)), (down, (1, 0, -1), (2,)),
                               ((0,), (-1, 1, 3), (3, 2, 1)),
                               ((1, 2), (5,), (1, 3))):
                size = len(dy) * len(dx) * len(rf)
                for holes in ((), tuple(range(0, size, 2)),
                              tuple(range(1, size, 3))):
                    masks = {}
                    if masked:
                        masks = {o: {k for k in range(size) if
                                     (k + j) % (len(owners) + 2) == 0}
                                 for j, o in enumerate(owners)}
                    values = {nm: lambda k, j=j, s=s, holes=holes: NAN
                              if k in holes else (k * s + 3 * j) % 11 *
                              (j + 1) + Q(1, 4)
                              for j, nm in enumerate(DATA)}
                    yield t + (b,), Example(dy, dx, rf, values, masks,
                                            ', target %s' % (t + (b,),))
                    if holes:
                        continue
                    # all points about equally close
                    near = {nm: lambda k, j=j, s=s: 3 + j + Q(
                        (k * s + 3 * j) % 11, 10 ** 7)
                        for j, nm in enumerate(DATA)}
                    yield (Q(5, 2), 4, 5, b), Example(
                        dy, dx, rf, near, masks,
                        ', target (2.5, 4, 5, %s), nearly equal' % b)


def search(ctx, r, f, hold, vs, masked, place):
    ip = r.ip
    line = f.node.lineno
    n = len(hold['els'])
    tb = {k: Table(ctx, '%s, %s' % (place, k), line) for k in (
        'the point is the closest one', 'the distance is the distance of '
        'the point', 'the coordinates are the coordinates of the point')}
    near, far, where = tb.values()
    dist = strip_all(ip.den(vs[2], r.st))
    coords = parts(r, vs[0])
    ps = [a.arg for a in f.node.args.args][1:5]
    for target, ex in examples(n, masked):
        want = {}
        for ix in ex.points:
            v = [ex.value(nm, ix) for nm in DATA + ('dy',)]
            if ex.free(ix) and not any(map(nan, v)) and \
                    v[3] * target[3] >= 0:
                want[ix] = float(sum((x - t) ** 2 for x, t in zip(
                    v, target))) ** 0.5
        if not want:
            continue
        text = ex.text()
        try:
            pt = ex.located(r, hold['me'], hold['els'], {
                r.env[q]: Q(v) for q, v in zip(ps, target)})
            got = indices(r, pt, vs[1])
        except Unknown as e:
            near.row(None, str(e))
            continue
        except Raises as e:
            near.row(False, '%s: raises (%s)' % (text, e))
            continue
        least = min(want.values())
        if got not in want or want[got] > least + EPS:
            best = min(want, key=want.get)
            near.row(False, '%s: point %s instead of %s' % (
                text, list(got), list(best)))
            continue
        near.row(True, text)
        far.row(*settle(pt, dist, want[got], text + ': reports %s instead '
                        'of %s'))
        if coords is None or len(coords) != 3:
            where.row(None, 'coordinates are no triple')
            continue
        for nm, c, v in zip(('dy', 'dx', 'rf'), coords, (
                ex.dy[got[0]], ex.dx[got[1]], ex.rf[got[2]])):
            where.row(*settle(pt, strip_all(ip.den(c, r.st)), v, '%s: %s is '
                              '%%s instead of %%s' % (text, nm)))
    for t in tb.values():
        t.done('minimum')


def indices(r, pt, v):
    d = r.ip.den(v, r.st)
    if d.op in ('tuple', 'list') and len(d.args) == 3:
        return tuple(pt.integer(r.ip.den(x, r.st)) for x in d.args)
    return tuple(pt.integer(mk('item', d, const(k))) for k in range(3))
