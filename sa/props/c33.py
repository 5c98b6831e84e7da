"""Scaling and fit of gradients, evaluated. The orbital scale, the scaled
gradient and the gradient fit are value-flow terms of the interpreted
operations; evaluated over several eclipse parameters, gradients and small
grids they must be the documented ones: orbital scale = pi / v * (6 - 2 u) /
(12 - 12 u + 3 pi u), scaled gradient = measured gradient * orbital scale /
transmission change (refused above one), fit = sum over the gradients of
(disk gradient - scaled gradient)^2, each over its error^2 when weighted."""
import math
from ..common import *
from ..smallgrid import *
from ..pointwise import truth
from .c03 import Table, happens
from .c13 import with_gradients, field, raw
from .c23 import flag
from .c24 import final_lists, base_row, kept
from .c27 import Ellipse

TINY = Q(1, 10 ** 9)
SET = ('measured_gradient', 'measured_error', 'transmission_change',
       'orbital_scale')


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None, 'grid classes')
    orbital(ctx, repo, grid, gradient)
    scaled(ctx, repo, gradient)
    fit(ctx, repo, grid, gradient)


def close(t, pt, want, text, ix=()):
    try:
        got = float(num(pt.at(t, ix) if ix else pt.ev(t)))
    except (Unknown, TypeError) as e:
        return None, '%s: %s' % (text, e)
    except Raises as e:
        return False, '%s: raises (%s)' % (text, e)
    if nan(want) or nan(got):
        return nan(want) and nan(got), '%s: %s instead of %s' % (
            text, got, want)
    return abs(got - want) <= EPS * abs(want) + 1e-30, \
        '%s: %.9g instead of %.9g' % (text, got, want)


# ----------------------------------------------------------- orbital scale
def orbital(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.add_gradients')
    names = [a.arg for a in f.node.args.args][1:]
    where = 'ShallotGrid.add_gradients: orbital scale'
    hold = {}
    base = with_gradients(repo, grid, gradient, 0, hold)

    def setup(ip, st, env):
        base(ip, st, env)
        for i, nm in enumerate(names):
            env[nm] = NONE
            if i < 2:
                x = mk('param', nm + '[0]')
                st.facts[mk('isnone', x)] = st.facts[mk('isnan', x)] = False
                env[nm] = ip.new_arr(mk('list', x), st)
    r = run(repo, f, cls=grid, setup=setup)
    tab = Table(ctx, where, f.node.lineno)
    if r.failed or r.st is None or not hold:
        ctx.open('orbital scale', where, r.failed or 'no normal return')
        return
    ctx.analysed(r)
    for v in (Q(1, 10), 1, 5, 300, TINY, 1 / TINY):
        for u in (0, Q(1, 4), Q(1, 2), Q(4, 5), 1, TINY, 1 - TINY):
            text = 'velocity %s, limb darkening %s' % (v, u)
            val = base_row(r, hold)
            for nm in names[:2]:
                val[mk('param', nm + '[0]')] = Q(1, 10**6)
            for nm, x in (('_transverse_velocity', v), ('_limb_darkening',
                                                        u)):
                val[raw(r.ip, hold['me'], kept(r, nm), r.st0)[0]] = Q(x)
            pt = Ellipse({k: x for k, x in val.items() if k is not PI}, {})
            want = math.pi / float(v) * float(6 - 2 * u) / (
                12 - 12 * float(u) + 3 * math.pi * float(u))
            for seq, _ in final_lists(r, hold['me'], pt):
                if not seq or seq[-1].op != 'ref':
                    tab.row(None, 'new gradient not determined')
                    continue
                tab.row(*close(field(r.ip, seq[-1], 'orbital_scale', r.st),
                               pt, want, text))
    tab.done('orbital scale')


# --------------------------------------------------------- scaled gradient
def scaled(ctx, repo, gradient):
    f = find_func(repo, 'GridGradient.get_scaled_gradient')
    where = 'GridGradient.get_scaled_gradient'
    r = run(repo, f, cls=gradient)
    tab = {k: Table(ctx, '%s, %s' % (where, k), f.node.lineno)
           for k in ('value', 'refusal')}
    if r.failed or r.st is None:
        ctx.open('scaled', where, r.failed or 'no normal return')
        return
    ctx.analysed(r)
    me, ip = r.env['self'], r.ip
    t = strip_all(ip.den(r.value, r.st))
    ok = True
    for m, s, c in ((0, 1, 1), (Q(1, 10), 3, Q(1, 2)), (Q(1, 4), Q(1, 3),
                    Q(1, 10)), (1, 1, 1), (Q(1, 2), 1, Q(1, 2)),
                    (Q(2, 5), 2, Q(3, 4)), (3, 1, Q(1, 2)), (1, 2, 1),
                    (Q(1, 2), 1, Q(49, 100)), (Q(1, 2), 1 + TINY, Q(1, 2)),
                    (Q(1, 2), 1 - TINY, Q(1, 2))):
        val = {}
        for nm, x in zip(SET, (m, 1, c, s)):
            a, absent = raw(ip, me, nm, r.st0)
            val[a] = Q(x)
            val[mk('isnone', a)] = False
            if absent is not None:
                val[mk('isnone', absent)] = False
                val.setdefault(absent, 'present')
        pt = Ellipse(val, {})
        want = Q(m) * s / c
        text = 'measured gradient %s, orbital scale %s, transmission ' \
            'change %s' % (m, s, c)
        no = refused(pt, r)
        if want > 1:
            tab['refusal'].row(no, text + ': not refused')
            continue
        if no is not False:
            tab['value'].row(None if no is None else False,
                             text + ': refused')
            continue
        tab['value'].row(*close(t, pt, float(want), text))
    for x in tab.values():
        x.done('scaled')


def refused(pt, r):
    """Whether the call raises in this row: True, False or None."""
    vs = [happens(pt, o.st.pc) for o in r.raises]
    return True if True in vs else None if None in vs else False


# --------------------------------------------------------------------- fit
def fit(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.determine_gradient_fit')
    for weighted in (False, True):
        for n in (1, 2, 3):
            where = 'ShallotGrid.determine_gradient_fit(weighted=%s), %d ' \
                'gradients' % (weighted, n)
            hold = {}
            r = run(repo, f, cls=grid, env=flag(f, 1, weighted),
                    setup=with_gradients(repo, grid, gradient, n, hold))
            if r.failed or r.st is None or not hold:
                ctx.open('fit', where, r.failed or 'no normal return')
                continue
            ctx.analysed(r)
            tabs = {k: Table(ctx, '%s, %s' % (where, k), f.node.lineno)
                    for k in ('value', 'undefined points')}
            for ex in examples():
                for turn in range(5):
                    fits(r, hold, n, weighted, ex, turn, *tabs.values())
            for t in tabs.values():
                t.done('fit')


def examples():
    for dy, dx, rf in (((0, 1), (0, 2), (1,)), ((-1,), (3, 4), (2, 1, 2))):
        yield Example(dy, dx, rf, {})
        yield Example(dy, dx, rf, {}, {'gradient 0': {0, 2, 3},
                                       'gradient 1': {1}, 'gradient 2': {2}})


def settings(k, turn):
    m, e = ((Q(k + 1, 7), Q(2 * k + 1, 5)), (Q(2 * k + 3, 7), Q(k + 1, 50)),
            (Q(3 * k, 10), Q(3, k + 1)), (Q(k + 1, 9), TINY / (k + 1)),
            (TINY * k, (k + 1) / TINY))[turn]
    return dict(zip(SET, (m, e, Q(3, 4 + k), Q(4 - k, 5))))


def disk(k, j):
    """Disk gradient of gradient k at flat position j."""
    return NAN if (j + 2 * k) % 4 == 3 else Q((3 * j + 5 * k) % 11, 11)


def fits(r, hold, n, weighted, ex, turn, tab, undef):
    ip, me = r.ip, hold['me']
    try:
        base = ex.located(r, me, hold['els'])
        val, arrays = dict(base.val), dict(base.arrays)
        for k, g in enumerate(hold['els']):
            for nm, x in settings(k, turn).items():
                a, absent = raw(ip, g, nm, r.st0)
                val[a] = x
                val[mk('isnone', a)] = False
                if absent is not None:
                    val[mk('isnone', absent)] = False
                    val.setdefault(absent, 'present')
            arrays[field(ip, g, 'data', r.st0)] = (
                ex.shape, lambda ix, k=k: disk(k, ex.flat[ix]))
        pt = Ellipse(val, arrays)
        v = ip.get_field(me.args[0], 'gradient_fit', r.st)
        while v.op == 'gamma':
            v = v.args[1 if truth(pt.ev(v.args[0])) else 2]
        if v.op != 'ref':
            raise Unknown('the fit is not resolved')
        data = field(ip, v, 'data', r.st)
        mask, _ = raw(ip, v, 'mask', r.st)
    except Unknown as e:
        tab.row(None, str(e))
        return
    except Raises as e:
        tab.row(False, str(e))
        return
    for ix in ex.points:
        want = 0
        for k in range(n):
            s = settings(k, turn)
            d = disk(k, ex.flat[ix])
            if nan(d):
                want = NAN
                break
            scale = s['measured_gradient'] * s['orbital_scale'] / \
                s['transmission_change']
            want += (d - scale) ** 2 / (
                s['measured_error'] ** 2 if weighted else 1)
        text = 'disk gradients %s' % ', '.join(
            str(disk(k, ex.flat[ix])) + (
                ' (excluded)' if ex.masked('gradient %d' % k, ix) else '')
            for k in range(n))
        row = close(data, pt, want if nan(want) else float(want), text, ix)
        (undef if nan(want) else tab).row(*row)
        try:
            out = truth(pt.at(mask, ix))
        except (Unknown, Raises) as e:
            undef.row(None, 'mask: %s' % e)
            continue
        undef.row(out == nan(want), '%s: the fit is %s' % (
            text, 'excluded' if out else 'not excluded'))
