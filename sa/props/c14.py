"""Decision-table extraction over value-flow terms. Every accessor is
interpreted abstractly for each combination of its mask switches; the returned
array's term is evaluated at one generic grid point for every state of the
masks (absent / clear / set) of all properties and gradients. The stored
arrays carry distinct values, so a result taken from another property is seen.
The value must be NaN exactly where the requested masks exclude the point and
the named property's own value everywhere else."""
import itertools
from ..common import *
from ..pointwise import *
from .. import npmodel
from .c13 import (Single, field, raw, mask_atoms, assign, compare, with_gradients,
                  OWNERS)

# accessor -> attribute of the grid it names
ACCESSORS = (('get_disk_radius', 'disk_radius'),
             ('get_inclination', 'inclination'), ('get_tilt', 'tilt'),
             ('get_fx_map', 'fx_map'), ('get_fy_map', 'fy_map'),
             ('get_diagnostic_map', 'diagnostic_map'),
             ('get_gradient_fit', 'gradient_fit'))


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    prop = repo.classes.get('GridProperty')
    ctx.anchor(grid is not None and gradient is not None and
               prop is not None, 'classes')
    for cls in (prop, gradient):
        single(ctx, repo, cls)
    for name, attr in ACCESSORS:
        f = find_func(repo, 'ShallotGrid.' + name)
        for n in (0, 2):
            for masked in (False, True):
                for own in (False, True):
                    accessor(ctx, repo, grid, gradient, f, attr, n, masked,
                             own)
    f = find_func(repo, 'ShallotGrid.get_gradients')
    for masked in (False, True):
        for own in (False, True):
            gradients(ctx, repo, grid, gradient, f, masked, own)
    f = find_func(repo, 'ShallotGrid.get_grid_point_data')
    pars = [a.arg for a in f.node.args.args][1:4]
    ctx.anchor(len(pars) == 3, 'indices of get_grid_point_data')
    for masked in (False, True):
        record(ctx, repo, grid, gradient, f, pars, masked)


RECORD = (('disk_radius', 'inclination', 'tilt', None, None),
          (None, 'fx_map', 'fy_map', 'diagnostic_map'))


def record(ctx, repo, grid, gradient, f, pars, masked):
    """The values of the point record under its mask switch. Where only the
    own mask of a value is set and the combined mask is not asked for, and for
    a gradient where only the masks of others are set, nothing is claimed."""
    from .c23 import flag, index, parts
    hold = {}
    r = run(repo, f, cls=grid, env=flag(f, 4, masked),
            setup=with_gradients(repo, grid, gradient, 2, hold))
    where = 'ShallotGrid.%s(masked=%s)' % (f.name, masked)
    groups = parts(r, r.value) if r.st is not None and not r.failed else None
    if not groups or len(groups) != 3 or not hold:
        ctx.open('record', where, r.failed or 'record is not a triple')
        return
    ctx.analysed(r)
    ip, me = r.ip, hold['me'].args[0]
    at = mk('tuple', *[index(r.env[p]) for p in pars])

    def here(v):
        return rewrite(strip_all(ip.den(v, r.st)), lambda x: x.args[0]
                       if x.op == 'item' and x.args[1] is at else x)
    refs, datas = [], {}
    for a in [x for x in OWNERS] + [x for _, x in ACCESSORS
                                    if x not in OWNERS]:
        v = ip.get_field(me, a, r.st0)
        if v.op == 'gamma' and v.args[0].op == 'isnone':
            v = v.args[2]
        if v.op == 'ref' and a != 'gradient_fit':
            refs.append((a, v))
            datas[a] = field(ip, v, 'data', r.st0)
    for k, g in enumerate(hold['els']):
        refs.append(('gradient %d' % k, g))
        datas['gradient %d' % k] = field(ip, g, 'data', r.st0)
    atoms = mask_atoms(ip, refs, r.st0)
    comb = [i for i, a in enumerate(refs)
            if a[0] in OWNERS or a[0].startswith('gradient ')]
    jobs = []
    for grp, nms in zip(groups, RECORD):
        vs = parts(r, grp)
        if vs is None or len(vs) != len(nms):
            ctx.open('record', where, 'group is no tuple')
            continue
        jobs += [(nm, here(v)) for nm, v in zip(nms, vs) if nm]
    vs = parts(r, groups[2])
    if vs is None or len(vs) != 2:
        ctx.open('record', where, 'gradient group is no pair')
    else:
        col = strip_all(ip.den(vs[1], r.st))
        jobs += [('gradient %d' % k, here(row_of(ip, col, const(k), r.st)))
                 for k in range(len(hold['els']))]
    for nm, t in jobs:
        if nm not in datas:
            raise AnalysisError('anchor vanished: attribute ' + nm)
        mine = [i for i, a in enumerate(refs) if a[0] == nm][0]
        rows = []
        for d in (FIFTY, NAN):
            base = {x: Q(100 + k) for k, x in enumerate(datas.values())}
            base[datas[nm]] = d
            for row in mask_rows(len(refs), comb, mine):
                others = any(row[i] for i in comb if i != mine)
                if row[mine] and not masked or nm.startswith('grad') and \
                        masked and others and not row[mine]:
                    continue
                val = dict(base)
                for a, x in zip(atoms, row):
                    assign(val, a, x)
                rows.append((val, NAN if masked and (
                    others or row[mine]) else d, ', '.join(
                    'mask of %s %s' % (refs[i][0], word(row[i]))
                    for i in range(len(refs)) if row[i] is not None) or
                    'no mask is present'))
        compare(ctx, 'record', '%s, %s' % (where, nm), r, t, rows)


def single(ctx, repo, cls):
    f = cls.find('get_data')
    ctx.anchor(f, cls.name + '.get_data')
    for masked in (False, True):
        where = '%s.get_data(masked=%s)' % (cls.name, masked)
        r = run(repo, f, cls=cls, env=flags(f, [masked]))
        if r.failed or r.st is None:
            ctx.open('accessor', where, r.failed or 'no normal return')
            continue
        ctx.analysed(r)
        ip, me = r.ip, r.env['self']
        data = field(ip, me, 'data', r.st0)
        atom = mask_atoms(ip, [('mask', me)], r.st0)[0]
        rows = []
        for d in (Q(3), Q(0), NAN):
            for m in (None, False, True):
                val = {data: d}
                assign(val, atom, m)
                rows.append((val, NAN if masked and m else d,
                             'the mask is %s' % word(m)))
        compare(ctx, 'accessor', where, r,
                strip_all(ip.den(r.value, r.st)), rows, r.st)


def word(m):
    return {None: 'absent', False: 'clear', True: 'set'}[m]


def flags(f, vals):
    names = [a.arg for a in f.node.args.args if a.arg not in ('self', 'cls')]
    return {k: const(v) for k, v in zip(names, vals)}


def accessor(ctx, repo, grid, gradient, f, attr, n, masked, own):
    where = 'ShallotGrid.%s(masked=%s, property_masked=%s), %d gradients' % (
        f.name, masked, own, n)
    hold = {}
    r = run(repo, f, cls=grid, env=by_name(f, masked, own),
            setup=with_gradients(repo, grid, gradient, n, hold))
    if r.failed or not hold:
        ctx.open('accessor', where, r.failed or 'not interpreted')
        return
    if r.st is None:
        ctx.open('accessor', where, 'no normal return')
        return
    ctx.analysed(r)
    ip, me = r.ip, hold['me'].args[0]
    refs, datas, absent = [], {}, []
    for k, a in enumerate(OWNERS + tuple(
            x for _, x in ACCESSORS if x not in OWNERS)):
        v = ip.get_field(me, a, r.st0)
        if v.op == 'gamma' and v.args[0].op == 'isnone':
            absent.append((v.args[0], v.args[0].args[0]))
            v = v.args[2]
        if v.op != 'ref':
            continue
        refs.append((a, v))
        datas[a] = field(ip, v, 'data', r.st0)
    refs += [('gradient %d' % k, g) for k, g in enumerate(hold['els'])]
    if attr not in datas:
        raise AnalysisError('anchor vanished: attribute ' + attr)
    for k, g in enumerate(hold['els']):
        datas['gradient %d' % k] = field(ip, g, 'data', r.st0)
    atoms = mask_atoms(ip, refs, r.st0)
    comb = [i for i, a in enumerate(refs)
            if a[0] in OWNERS or a[0].startswith('gradient ')]
    mine = [i for i, a in enumerate(refs) if a[0] == attr][0]
    rows = []
    for d in (FIFTY, NAN):
        base = {t: Q(100 + k) for k, t in enumerate(datas.values())}
        base[datas[attr]] = d
        for t, leaf in absent:
            base[t] = False
            base.setdefault(leaf, 'present')
        for row in mask_rows(len(refs), comb, mine):
            val = dict(base)
            for a, x in zip(atoms, row):
                assign(val, a, x)
            hidden = masked and any(row[i] for i in comb) or \
                own and bool(row[mine])
            rows.append((val, NAN if hidden else d, ', '.join(
                'mask of %s %s' % (refs[i][0], word(row[i]))
                for i in range(len(refs)) if row[i] is not None) or
                'no mask is present'))
    compare(ctx, 'accessor', where, r, strip_all(ip.den(r.value, r.st)),
            rows)


def mask_rows(k, comb, mine):
    """All single and paired states over each uniform background."""
    out = []
    for base in (None, False):
        for i, j in itertools.combinations_with_replacement(range(k), 2):
            for x, y in itertools.product((None, False, True), repeat=2):
                row = [base] * k
                row[i], row[j] = x, y
                if tuple(row) not in out:
                    out.append(tuple(row))
    for x in (True,):
        out.append(tuple([True] * k))
        for i in range(k):
            row = [True] * k
            row[i] = False
            out.append(tuple(row))
    return out


def by_name(f, masked, own):
    names = [a.arg for a in f.node.args.args if a.arg not in ('self', 'cls')]
    out = {}
    for k in names:
        out[k] = const(own if 'property' in k else masked)
    return out


def gradients(ctx, repo, grid, gradient, f, masked, own):
    hold = {}
    r = run(repo, f, cls=grid, env=by_name(f, masked, own),
            setup=with_gradients(repo, grid, gradient, 2, hold))
    where = 'ShallotGrid.get_gradients(masked=%s, property_masked=%s)' % (
        masked, own)
    if r.failed or r.st is None or not hold:
        ctx.open('gradients', where, r.failed or 'no normal return')
        return
    ctx.analysed(r)
    ip, st = r.ip, r.st
    v = r.value
    seq = ip.exact_seq(v, st)
    if seq is None or len(seq) < 4:
        ctx.open('gradients', where, 'result not determined')
        return
    me = hold['me'].args[0]
    refs = [(a, ip.get_field(me, a, r.st0)) for a in OWNERS] + [
        ('gradient %d' % k, g) for k, g in enumerate(hold['els'])]
    atoms = mask_atoms(ip, refs, r.st0)
    datas = [field(ip, g, 'data', r.st0) for g in hold['els']]
    cube = strip_all(ip.den(seq[3], st))
    for k, g in enumerate(hold['els']):
        t = strip_all(row_of(ip, cube, const(k), st))
        rows = []
        for d in (FIFTY, NAN):
            base = {t2: Q(100 + j) for j, t2 in enumerate(datas)}
            base[datas[k]] = d
            for row in mask_rows(len(refs), None, None):
                val = dict(base)
                for a, x in zip(atoms, row):
                    assign(val, a, x)
                hidden = masked and any(row) or own and bool(
                    row[len(OWNERS) + k])
                rows.append((val, NAN if hidden else d, ', '.join(
                    'mask of %s %s' % (refs[i][0], word(row[i]))
                    for i in range(len(refs)) if row[i] is not None) or
                    'no mask is present'))
        compare(ctx, 'gradients', '%s, gradient %d' % (where, k), r, t, rows)
    # the scalar columns are the gradient's own
    scaled = find_func(repo, 'GridGradient.get_scaled_gradient')
    for j, nm in ((0, 'position'), (1, 'scaled gradient'),
                  (2, 'measured_error')):
        col = strip_all(ip.den(seq[j], st))
        for k, g in enumerate(hold['els']):
            got = strip_all(row_of(ip, col, const(k), st))
            val, want = {}, None
            for h in hold['els']:
                for n2 in SCALARS:
                    t, ab = raw(ip, h, n2, r.st0)
                    val[t] = len(val) + 1 + FINE
                    if h is g and n2 == nm:
                        want = val[t]
                    if ab is not None:
                        val[mk('isnone', ab)] = False
                        val.setdefault(ab, val[t])
            if j == 1:
                own_scale(ctx, '%s, %s of gradient %d' % (where, nm, k), r,
                          got, val, scaled, g)
                continue
            compare(ctx, 'gradients', '%s, %s of gradient %d' % (
                where, nm, k), r, got, [(val, want, 'every gradient has '
                                         'its own settings')])


def own_scale(ctx, where, r, got, val, scaled, g):
    """The column holds what the gradient itself reports."""
    ip, st = r.ip, r.st
    v, raised = call_in(ip, scaled, [g], {}, st)
    if v is None:
        ctx.open('gradients', where, 'scaled gradient not determined')
        return
    pt = Single(val)
    try:
        a = num(pt.ev(got))
        b = num(pt.ev(strip_all(ip.den(v, st))))
    except (Unknown, Raises) as e:
        ctx.open('gradients', where, '%s: %s' % (type(e).__name__, e))
        return
    same = nan(a) and nan(b) or not (nan(a) or nan(b)) and (
        abs(a - b) <= abs(b) * Q(1, 10 ** 11))
    ctx.decide(same, 'gradients', where, '%s where the gradient reports %s' % (
        float(a), float(b)), r.fn.node.lineno)


FINE = Q(1, 2 ** 26)      # lost in any narrower type than a double
FIFTY = 50 + FINE
SCALARS = ('position', 'measured_error', 'measured_gradient',
           'orbital_scale', 'transmission_change')


def row_of(ip, t, k, st):
    """Row k of a stacked array term, through its row stores."""
    if t.op == 'gamma':
        return gamma(t.args[0], row_of(ip, t.args[1], k, st),
                     row_of(ip, t.args[2], k, st))
    if t.op in ('astype',):
        return mk('astype', row_of(ip, t.args[0], k, st), t.args[1])
    if t.op == 'store':
        c, i, v = t.args
        if i is k:
            return v
        if is_int(i):
            return row_of(ip, c, k, st)
        if i.op == 'tuple' and i.args and is_int(i.args[0]):
            if i.args[0] is not k:
                return row_of(ip, c, k, st)
            rest = i.args[1:]
            if len(rest) == 1:
                return mk('store', row_of(ip, c, k, st), rest[0], v)
        if i.op == 'tuple' and len(i.args) == 2 and i.args[0].op == 'slice' \
                and i.args[0].args == (NONE, NONE, NONE):
            return mk('store', row_of(ip, c, k, st), i.args[1],
                      v if is_const(v) or v is T else v)
        return mk('item', t, k)
    return npmodel.item(ip, t, k, st)
