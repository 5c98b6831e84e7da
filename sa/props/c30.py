"""Solutions in order of fit, on small grids. extract_solutions is interpreted
for fixed numbers of solutions, so that its search is a closed term; the terms
of the six returned arrays are evaluated on small grids with given fit values,
masks and disk parameters, and compared with the unmasked points sorted by
their fit value. Points with equal fit values may come in any order."""
from ..common import *
from ..smallgrid import *
from .c13 import with_gradients
from .c23 import parts
from .c03 import Table

DATA = ('disk_radius', 'inclination', 'tilt')
ROW = DATA + ('dx', 'dy')


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None, 'grid classes')
    f = find_func(repo, 'ShallotGrid.extract_solutions')
    par = [a.arg for a in f.node.args.args][1]
    for n in (None, 0, 1, 2, 3, 4):
        for g in (0, 1):
            hold = {}
            r = run(repo, f, cls=grid, env={par: const(n)},
                    setup=with_gradients(repo, grid, gradient, g, hold))
            place = 'ShallotGrid.extract_solutions(%s), %d gradients' % (n, g)
            vs = None
            if not r.failed and r.st is not None:
                ctx.analysed(r)
                vs = parts(r, r.value)
            if vs is None or len(vs) != 6:
                ctx.open('ordered', place, r.failed or 'six arrays expected')
                continue
            ts = [strip_all(r.ip.den(v, r.st)) for v in vs]
            solutions(ctx, r, hold, ts, n, place, f)


FINE = Q(1, 2 ** 26)      # lost in any narrower type than a double


def examples(g, masked):
    owners = list(DATA) + ['gradient %d' % k for k in range(g)]
    fits = (lambda k: (k * 5 + 3) % 13 + FINE, lambda k: -k * k, lambda k: k // 2,
            lambda k: (-1) ** k * (k % 4) + Q(1, 2))
    for dy, dx, rf in (((-1, 0, Q(5, 2)), (Q(5, 4), 3), (1, 2)), ((4,), (7, 5), (3, 2, 1)),
                       ((2, 1), (0,), (1, 2, 3)), ((3, 1, 0), (9, 2, 4), (5,))):
        size = len(dy) * len(dx) * len(rf)
        for s, fit in enumerate(fits):
            masks = {}
            if masked:
                masks = {o: {k for k in range(size) if
                             (k + j + s) % (len(owners) + 3) == 0}
                         for j, o in enumerate(owners)}
            values = {nm: lambda k, j=j: 100 * j + 2 * k + 1 + FINE
                      for j, nm in enumerate(DATA)}
            values['gradient_fit'] = fit
            yield Example(dy, dx, rf, values, masks, ', fits %s%s' % (
                [str(fit(k)) for k in range(size)],
                ', masked %s' % sorted(set().union(*masks.values()))
                if masks else ''))


def solutions(ctx, r, hold, ts, n, place, f):
    tb = {k: Table(ctx, '%s, %s' % (place, k), f.node.lineno) for k in (
        'as many as asked for', 'fit values in increasing order',
        'every row describes a further point with that fit value')}
    many, order, rows = tb.values()
    for masked in (False, True):
        for ex in examples(len(hold['els']), masked):
            free = sorted((ex.value('gradient_fit', ix), ix)
                          for ix in ex.points if ex.free(ix))
            count = len(free) if n is None else n
            if count > len(free):
                continue
            text = ex.text()
            try:
                pt = ex.located(r, hold['me'], hold['els'])
                got = [pt.shape(t) for t in ts]
            except Unknown as e:
                many.row(None, str(e))
                continue
            many.row(all(s == (count,) for s in got), '%s: arrays of shapes '
                     '%s instead of %d solutions' % (text, got, count))
            if n is None or any(s != (count,) for s in got):
                continue
            used = set()
            for k in range(count):
                v, why = settle(pt, ts[0], float(free[k][0]), '%s: fit %d is '
                                '%%s instead of %%s' % (text, k), (k,))
                order.row(v, why)
                if not v:
                    break
                v, why = point(pt, ex, ts, k, free[k][0], used)
                rows.row(v, '%s: row %d %s' % (text, k, why))
                if not v:
                    break
    for name, t in tb.items():
        if n is None and t is not many or n == 0 and t is not many:
            continue
        t.done('ordered')


def point(pt, ex, ts, k, fit, used):
    try:
        row = [num(pt.at(t, (k,))) for t in ts[1:]]
    except Unknown as e:
        return None, str(e)
    except Raises as e:
        return False, 'raises (%s)' % e
    for ix in ex.points:
        if ex.free(ix) and ex.value('gradient_fit', ix) == fit and \
                ix not in used and row == [ex.value(nm, ix) for nm in ROW]:
            used.add(ix)
            return True, ''
    return False, 'is %s, not one of the remaining points with fit %s' % (
        [float(x) for x in row], float(fit))
