"""Decision-table extraction over value-flow terms. Each operation that
computes a mask is interpreted abstractly with symbolic arrays; the resulting
mask term is evaluated at one generic grid point for every order type of the
values it depends on (data undefined / below / equal to / above the limit,
every mask absent / set / clear, zero to four gradients). Masks are elementwise
terms over these atoms, so agreement in every row is agreement for every grid.
The truth table must be the one the property prescribes."""
import itertools
from ..common import *
from ..pointwise import *


WHOLE = {'np.any': truth, 'any': truth, 'np.all': truth, 'all': truth,
         'np.sum': num, 'np.count_nonzero': lambda x: Q(truth(x)),
         'np.mean': num, 'np.max': num, 'np.min': num, 'np.nanmax': num,
         'np.nanmin': num, 'np.median': num, 'np.nanmean': num}
SEQ = ('list', 'tuple', 'segs', 'seq', 'map', 'np.stack', 'stack')


class Single(Point):
    """The grid has one point: it is what a reduction is taken over."""

    def ev0(self, t):
        if t.op in ('np.prod', 'size') and len(t.args) == 1 and (
                t.op == 'size' or 'shape' in show(t.args[0], 1)):
            return Q(1)
        if t.op in WHOLE and len(t.args) == 1 and t.args[0].op not in SEQ:
            try:
                return Point.ev0(self, t)
            except Unknown:
                x = self.ev(t.args[0])
                if x is None or isinstance(x, str):
                    raise
                return WHOLE[t.op](x)
        return Point.ev0(self, t)


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None,
               'classes ShallotGrid and GridGradient')
    combined(ctx, repo, grid, gradient)
    hill(ctx, repo, grid)
    gradient_mask(ctx, repo, gradient)
    rescaled(ctx, repo, grid, gradient)


FINE = Q(1, 10 ** 12)
OWNERS = ('disk_radius', 'inclination', 'tilt')


def field(ip, ref, name, st):
    """Value-flow term of a public attribute in state st."""
    return strip_all(ip.den(ip.get_field(ref.args[0], name, st), st))


def raw(ip, ref, name, st):
    """(term, condition under which it is absent or None)"""
    v = ip.get_field(ref.args[0], name, st)
    if v.op == 'gamma' and v.args[0].op == 'isnone' and v.args[1] is NONE:
        return strip_all(ip.den(v.args[2], st)), v.args[0].args[0]
    return strip_all(ip.den(v, st)), None


def with_gradients(repo, grid, gradient, n, hold):
    def setup(ip, st, env):
        me = env['self']
        els = [ip.sym(dict(kind='inst', cls=gradient),
                      mk('root', 'gradient %d' % k)) for k in range(n)]
        o = ip.obj(me.args[0], st).clone()
        o.fields['gradients'] = ip.new_list(els, st) if n else NONE
        st.heap[me.args[0]] = o
        hold.update(me=me, els=els)
    return setup


def mask_atoms(ip, refs, st):
    """[(owner, mask term, absence term)]"""
    return [(lbl,) + raw(ip, x, 'mask', st) for lbl, x in refs]


def assign(val, atom, v):
    lbl, term, absent = atom
    if absent is not None:
        val[absent] = None if v is None else 'present'
        val[mk('isnone', absent)] = v is None
        if v is None:
            val[term] = Unknown('absent mask')
            return
    val[term] = v if v is not None else Unknown('absent mask')


def combined(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.get_combined_mask')
    for n in (0, 1, 2, 4):
        hold = {}
        r = run(repo, f, cls=grid,
                setup=with_gradients(repo, grid, gradient, n, hold))
        where = 'ShallotGrid.get_combined_mask, %d gradients' % n
        if r.failed or not hold:
            ctx.open('union', where, r.failed or 'not interpreted')
            continue
        ctx.analysed(r)
        ip = r.ip
        refs = [(a, ip.get_field(hold['me'].args[0], a, r.st0))
                for a in OWNERS] + [('gradient %d' % k, g) for k, g in
                                    enumerate(hold['els'])]
        atoms = mask_atoms(ip, refs, r.st0)
        if r.st is None:
            ctx.open('union', where, 'no normal return')
            continue
        t = strip_all(ip.den(r.value, r.st))
        rows = table_rows(len(atoms))
        compare(ctx, 'union', where, r, t, [
            (dict_row(atoms, row), any(x is True for x in row),
             ', '.join('%s %s' % (a[0], {None: 'absent', True: 'excludes',
                                         False: 'admits'}[x])
                       for a, x in zip(atoms, row))) for row in rows])


def table_rows(k):
    if k <= 5:
        return list(itertools.product((None, False, True), repeat=k))
    out = []
    for base in (None, False, True):
        for i, j in itertools.combinations(range(k), 2):
            for x, y in itertools.product((None, False, True), repeat=2):
                row = [base] * k
                row[i], row[j] = x, y
                out.append(tuple(row))
    return sorted(set(out), key=str)


def dict_row(atoms, row):
    val = {}
    for a, x in zip(atoms, row):
        assign(val, a, x)
    return val


def compare(ctx, rule, where, r, t, rows, st=None):
    """Evaluate the result in every row; rows: (assignment, expected, text)."""
    und, wrong, why = 0, None, ''
    for val, want, text in rows:
        pt = Single(val)
        if st is not None and consistent(st, pt) is False:
            continue
        try:
            got = pt.ev(t)
        except (Unknown, Raises) as e:
            und += 1
            why = '%s: %s' % (type(e).__name__, e)
            continue
        if isinstance(want, bool):
            try:
                same = truth(got) == want
            except Unknown:
                und += 1
                continue
        elif got is None or isinstance(got, str):
            same = False
        else:
            a, b = num(got), num(want)
            same = nan(a) and nan(b) or a == b
        if not same and wrong is None:
            wrong = '%s where %s' % (
                ('excluded' if got else 'not excluded') if isinstance(
                    want, bool) else 'value %s instead of %s' % (
                        txt(got), txt(want)), text)
    if wrong is not None:
        ctx.bad(rule, where, wrong, r.fn.node.lineno)
    elif und:
        ctx.open(rule, where, '%d of %d rows undecided (%s)' % (
            und, len(rows), why))
    else:
        ctx.ok(rule, where, '%d rows agree' % len(rows))
    return wrong is None and not und


def txt(x):
    return 'NaN' if nan(x) else str(x)


def hill(ctx, repo, grid):
    f = find_func(repo, 'ShallotGrid.generate_hill_radius_mask')
    where = 'ShallotGrid.generate_hill_radius_mask'
    r = run(repo, f, cls=grid)
    ctx.analysed(r)
    if r.failed or r.st is None:
        ctx.open('hill', where, r.failed or 'no normal return')
        return
    ip = r.ip
    me = r.env['self']
    prop = ip.get_field(me.args[0], 'disk_radius', r.st0)
    data = field(ip, prop, 'data', r.st0)
    old = mask_atoms(ip, [('old mask', prop)], r.st0)[0]
    limit = [k for k in r.env if k != 'self']
    ctx.anchor(limit, 'limit of generate_hill_radius_mask')
    lim = r.env[limit[0]]
    now = ip.get_field(me.args[0], 'disk_radius', r.st)
    t, absent = raw(ip, now, 'mask', r.st)
    rows = []
    for d, want in ((NAN, True), (Q(2), False), (Q(3), False), (Q(4), True),
                    (3 - FINE, False), (3 + FINE, True)):
        for o in (None, False, True):
            val = {data: d, lim: Q(3)}
            assign(val, old, o)
            rows.append((val, want, 'the disk radius is %s the limit and the '
                         'mask was %s' % (
                             'undefined, whatever' if nan(d) else
                             'below' if d < 3 else 'equal to' if d == 3
                             else 'above', {None: 'absent', False: 'clear',
                                            True: 'set'}[o])))
    # also the extremes: no limit at all and a point of size 0
    for d, l, want in ((Q(0), Q(0), False), (FINE, Q(0), True), (Q(10**9), Q(10**9) - FINE, True),
                       (NAN, Q(0), True)):
        val = {data: d, lim: l}
        assign(val, old, None)
        rows.append((val, want, 'disk radius %s, limit %s' % (txt(d), l)))
    if absent is not None:
        rows = [(dict(v, **{}), w, x) for v, w, x in rows]
    compare(ctx, 'hill', where, r, t, rows, r.st)


SCALES = (dict(m=Q(1, 2), o=Q(1, 2), t=Q(1, 2)),
          dict(m=Q(1, 8), o=Q(2), t=Q(1)),
          dict(m=Q(0), o=Q(1), t=Q(1)),
          dict(m=Q(1), o=Q(1), t=Q(1)))


def scaled_of(ip, g, st):
    s = st.copy()
    f = ip.obj(g.args[0], st).cls.find('get_scaled_gradient')
    if f is None:
        raise AnalysisError('anchor vanished: get_scaled_gradient')
    v, raised = call_in(ip, f, [g], {}, s)
    return None if v is None else strip_all(ip.den(v, s))


def gradient_mask(ctx, repo, gradient):
    f = find_func(repo, 'GridGradient.determine_mask')
    where = 'GridGradient.determine_mask'
    r = run(repo, f, cls=gradient)
    ctx.analysed(r)
    if r.failed or r.st is None:
        ctx.open('gradient', where, r.failed or 'no normal return')
        return
    ip = r.ip
    me = r.env['self']
    old = mask_atoms(ip, [('old mask', me)], r.st0)[0]
    base = {}
    for o in (None, False, True):
        val = {}
        assign(val, old, o)
        base[o] = val
    params = {}
    for k, v in r.env.items():
        if k != 'self':
            params[k] = v
    judge(ctx, 'gradient', where, r, me, r.st, params, list(base.values()))


def settings(params, s):
    """Row values of the numeric arguments, by the role they end up in."""
    out = []
    for absent in (False, True):
        val = {}
        for k, v in params.items():
            kind = k[0] if k[0] in 'mo' else 't'
            x = s[kind] if 'error' not in k else Q(1)
            leaf = v
            if v.op == 'gamma' and v.args[0].op == 'isnone':
                val[v.args[0]] = absent
                val[v.args[0].args[0]] = None if absent else x
                leaf = v.args[2]
                if absent:
                    continue
            val[leaf] = x
        out.append(val)
    return out


def judge(ctx, rule, where, r, g, st, params, bases, extra=None):
    """mask at the exit = undefined or below the scaled gradient there."""
    ip = r.ip
    data = field(ip, g, 'data', st)
    t, absent = raw(ip, g, 'mask', st)
    sc = scaled_of(ip, g, st)
    if sc is None:
        ctx.open(rule, where, 'scaled gradient not determined')
        return
    rows = []
    for s in SCALES:
        for val in settings(params, s):
            for b in bases:
                v = dict(b)
                v.update(extra(s) if extra else {})
                v.update(val)
                try:
                    lim = num(Point(v).ev(sc))
                except (Unknown, Raises) as e:
                    ctx.open(rule, where, 'scaled gradient: %s' % e)
                    return
                if nan(lim) or lim > 1:
                    continue
                for d, want, txt_ in (
                        (NAN, True, 'undefined'),
                        (lim - FINE, True, 'below the scaled'),
                        (lim, False, 'equal to the scaled'),
                        (lim + FINE, False, 'above the scaled')):
                    if not nan(d) and (d < 0 or d > 1):
                        continue
                    rows.append((dict(v, **{}) | {data: d}, want,
                                 'the disk gradient is %s one' % txt_))
    if not rows:
        ctx.open(rule, where, 'no rows')
        return
    compare(ctx, rule, where, r, t, rows, st)


def rescaled(ctx, repo, grid, gradient):
    """After rescaling, every mask belongs to the new scaling."""
    f = find_func(repo, 'ShallotGrid.update_gradient_scaling')
    hold = {}
    r = run(repo, f, cls=grid,
            setup=with_gradients(repo, grid, gradient, 2, hold))
    where = 'ShallotGrid.update_gradient_scaling'
    if r.failed or r.st is None or not hold:
        ctx.open('rescaled', where, r.failed or 'no normal return')
        return
    ctx.analysed(r)
    ip, st = r.ip, r.st
    lst = ip.get_field(hold['me'].args[0], 'gradients', st)
    # which gradients are in the list under which conditions
    def leaves(v, conds):
        if v.op == 'gamma':
            yield from leaves(v.args[1], conds + [(v.args[0], True)])
            yield from leaves(v.args[2], conds + [(v.args[0], False)])
        else:
            yield v, conds
    n = 0
    for v, conds in leaves(lst, []):
        if v is NONE:
            continue
        seq = ip.exact_seq(v, st)
        if seq is None:
            ctx.open('rescaled', where, 'gradients not determined')
            return
        for k, g in enumerate(seq):
            for gg, c2 in leaves(g, []):
                if gg.op != 'ref':
                    continue
                n += 1
                one(ctx, r, hold, gg, k, conds + c2, where)
    ctx.anchor(n, 'gradients after rescaling')


def one(ctx, r, hold, g, k, conds, where):
    ip, st = r.ip, r.st
    old = hold['els'][k]
    data = field(ip, g, 'data', st)
    t, absent = raw(ip, g, 'mask', st)
    sc = scaled_of(ip, g, st)
    sc0 = scaled_of(ip, old, r.st0)
    if sc is None or sc0 is None:
        ctx.open('rescaled', where, 'scaled gradient not determined')
        return
    # new and old settings are independent inputs
    rows = []
    leaves = [x for x in subterms(sc) if x.op in ('fld', 'param', 'item')]
    m0 = mask_atoms(ip, [('mask', old)], r.st0)[0]
    olds = {}
    for nm, x in (('measured_gradient', Q(1, 4)), ('orbital_scale', Q(1)),
                  ('transmission_change', Q(1, 2)),
                  ('measured_error', Q(1))):
        tt, ab = raw(ip, old, nm, r.st0)
        olds[tt] = x
        if ab is not None:
            olds[ab] = x
            olds[mk('isnone', ab)] = False
    try:
        lim0 = num(Point(olds).ev(sc0))
    except (Unknown, Raises):
        lim0 = Q(1, 2)
    # the mask term as it stands must be a function of data and the new limit
    cases = []
    new_scale = [x for x in subterms(sc) if x not in olds and
                 x.op not in ('const',)]
    for given_scale in (False, True):
        for given_trans in (False, True):
            val = dict(olds)
            for p, v in r.env.items():
                if v.op == 'gamma' and v.args[0].op == 'isnone':
                    is_t = 'transmission' in p
                    given = given_trans if is_t else given_scale
                    val[v.args[0]] = not given
                    val[v.args[0].args[0]] = 'given' if given else None
                    if not is_t:
                        val[v.args[2]] = Q(1, 2)
            cases.append((val, given_scale, given_trans))
    orb, orb_ab = raw(ip, g, 'orbital_scale', st)
    tra, tra_ab = raw(ip, g, 'transmission_change', st)
    und = 0
    for val, gs, gt in cases:
        v = dict(val)
        # resolve the conditions that select the new values, then give the
        # remaining opaque new values (scale from velocity, new change) a
        # number of their own
        pt = Point(v)
        skip = False
        for c, pol in conds:
            try:
                if truth(pt.ev(c)) != pol:
                    skip = True
            except (Unknown, Raises):
                skip = None if not skip else skip
        if skip:
            continue
        for term, x in ((orb, Q(1, 2)), (tra, Q(1, 4))):
            leaf = pick(pt, term)
            if leaf is None:
                und += 1
                continue
            if leaf not in v and leaf.op != 'const':
                v[leaf] = x
        pt = Point(v)
        try:
            lim = num(pt.ev(sc))
        except (Unknown, Raises):
            und += 1
            continue
        for d, want, w in ((NAN, True, 'undefined'),
                           (lim - FINE, True, 'below'),
                           (lim, False, 'equal to'),
                           (lim + FINE, False, 'above')):
            vv = dict(v)
            vv[data] = d
            assign(vv, m0, nan(d) or d < lim0)
            rows.append((vv, want, 'the disk gradient is %s the scaled one '
                         '(velocity or limb darkening %s, transmission '
                         'changes %s)' % (w, 'given' if gs else 'not given',
                                          'given' if gt else 'not given')))
    if not rows:
        ctx.open('rescaled', where, 'no rows')
        return
    compare(ctx, 'rescaled', '%s, gradient %d' % (where, k), r, t, rows, None)


def pick(pt, t):
    while t.op == 'gamma':
        try:
            t = t.args[1 if truth(pt.ev(t.args[0])) else 2]
        except (Unknown, Raises):
            return None
    return t
