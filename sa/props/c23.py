"""Index-provenance analysis. The value-flow term of every component of a
reported record is followed back - through masking stores, copies, views and
conditionals - to the stored array and the index it is read at. Every component
must come from the attribute it names and all of them from the same three
indices, dx/dy/rf from their own axis. For extracted solutions the point of a
row must also have left the searched values before the next search."""
from ..common import *
from ..prov import *
from ..located import Located, Tag, Unknown, Raises, Q
from .c13 import field, raw, with_gradients

RECORD = (('disk_radius', 'inclination', 'tilt', 'dx', 'dy'),
          ('rf', 'fx', 'fy', 'diagnostic'))
ATTR = {'disk_radius': 'disk_radius', 'inclination': 'inclination',
        'tilt': 'tilt', 'fx': 'fx_map', 'fy': 'fy_map',
        'diagnostic': 'diagnostic_map', 'fit': 'gradient_fit'}
AXIS = {'dy': 0, 'dx': 1, 'rf': 2}
VECTOR = {'dy': 'dy', 'dx': 'dx', 'rf': 'rf_array'}
MAINAX = {'dy': 0, 'dx': 1, 'rf': 0}
ARGMIN = ('np.nanargmin', 'np.argmin')


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None, 'grid classes')
    record(ctx, repo, grid, gradient)
    solutions(ctx, repo, grid, gradient)
    closest(ctx, repo, grid, gradient)


def owners(ip, me, st):
    """stored array term -> name of the quantity"""
    out = {}
    for nm, attr in ATTR.items():
        v = ip.get_field(me.args[0], attr, st)
        for x in branches(v):
            if x.op == 'ref':
                out[field(ip, x, 'data', st)] = nm
    p = ip.get_field(me.args[0], 'parameters', st)
    for nm, attr in VECTOR.items():
        out[field(ip, p, attr, st)] = nm
    return out


def point_of(nm, ix):
    """{axis: index} of a read of quantity nm at ix; None if not resolved."""
    if any(x is ALL for x in ix):
        return None
    if nm in AXIS:
        if len(ix) <= MAINAX[nm] or nm == 'rf' and len(ix) != 1 or \
                nm != 'rf' and len(ix) != 3:
            return None
        return {AXIS[nm]: ix[MAINAX[nm]]}
    return dict(enumerate(ix)) if len(ix) == 3 else None


def judge(src, nm, names, want):
    """src: sources of one component; want: {axis: index}. (ok, problem)"""
    und, hit, wrong = None, False, None
    for s in src:
        if s[0] == 'nan':
            continue
        if s[0] != 'leaf':
            und = 'depends on ' + show(s[1], 3)
            continue
        got = names.get(s[1])
        if got is None:
            und = 'reads ' + show(s[1], 3)
            continue
        if got != nm:
            wrong = 'is read from %s' % got
            continue
        p = point_of(got, s[2])
        if p is None:
            und = 'index %s' % ', '.join(
                x if x is ALL else show(x, 3) for x in s[2])
        elif any(p[k] is not want.get(k, p[k]) for k in p):
            if any(distinct(p[k], want[k]) for k in p if k in want):
                wrong = 'is read at (%s) instead of (%s)' % (
                    text(p, p), text(want, p))
            else:
                und = 'index not resolved'
        else:
            hit = True
    if wrong:
        return False, wrong
    return (True, '') if hit and not und else (None, und or 'no source')


def distinct(a, b):
    """Different index terms of one program point: really different?"""
    if a is b:
        return False
    simple = lambda x: x.op in ('param', 'const', 'idx') or \
        x.op == 'item' and is_int(x.args[1])
    return simple(a) and simple(b)


def text(p, keys):
    return ', '.join(show(p[k], 3) for k in sorted(keys) if k in p)


# ------------------------------------------------------------ point record
def record(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.get_grid_point_data')
    pars = [a.arg for a in f.node.args.args][1:4]
    ctx.anchor(len(pars) == 3, 'indices of get_grid_point_data')
    for masked in (True, False):
        for n in (0, 2):
            point(ctx, repo, grid, gradient, f, pars, masked, n)


def point(ctx, repo, grid, gradient, f, pars, masked, n):
    hold = {}
    r = run(repo, f, cls=grid, env=flag(f, 4, masked),
            setup=with_gradients(repo, grid, gradient, n, hold))
    base = 'ShallotGrid.get_grid_point_data(masked=%s)' % masked
    groups = parts(r, r.value) if r.st is not None and not r.failed else None
    if not groups or len(groups) != 3:
        ctx.open('record', base, r.failed or 'record is not a triple')
        return
    ctx.analysed(r)
    ip = r.ip
    names = owners(ip, hold['me'], r.st0)
    want = dict(enumerate(index(r.env[p]) for p in pars))
    src = Sources(r.st)
    if n == 0:
        for grp, nms in zip(groups, RECORD):
            vs = parts(r, grp)
            if vs is None or len(vs) != len(nms):
                ctx.open('record', base, 'group is no tuple')
                continue
            for nm, v in zip(nms, vs):
                v = strip_all(ip.den(v, r.st))
                ok, why = judge(src.get(v), nm, names, want)
                if ok is None:
                    w = sampled(r, hold['me'], v, nm, names, pars)
                    ok, why = (False, w) if w else (ok, why)
                report(ctx, 'record', '%s, %s' % (base, nm), ok, why, f)
        return
    vs = parts(r, groups[2])
    if vs is None or len(vs) != 2:
        ctx.open('record', base, 'gradient group is no pair')
        return
    pos, grads = [strip_all(ip.den(v, r.st)) for v in vs]
    for k, g in enumerate(hold['els']):
        nm = dict(names)
        for j, h in enumerate(hold['els']):
            nm[field(ip, h, 'data', r.st0)] = 'gradient %d' % j
        ok, why = judge(src.get(grads, [const(k)]), 'gradient %d' % k, nm,
                        want)
        report(ctx, 'record', '%s, gradient %d' % (base, k), ok, why, f)
        mine = field(ip, g, 'position', r.st0)
        got = src.get(pos, [const(k)])
        others = {field(ip, h, 'position', r.st0) for h in hold['els']}
        leaves = [s[1] for s in got if s[0] == 'leaf']
        ok = True if got == {('leaf', mine, ())} else \
            False if any(l in others and l is not mine for l in leaves) or \
            got and all(s[0] == 'const' for s in got) else None
        report(ctx, 'record', '%s, position %d' % (base, k), ok,
               'is not the position of gradient %d' % k, f)


SHAPES = ((2, 3, 3), (3, 2, 5), (3, 3, 1), (1, 2, 3))


def factor(k, n):
    """The radius factors run from the largest down to one and back."""
    return Tag('rf', min(k, n - 1 - k))


def sampled(r, me, v, nm, names, pars):
    """A small grid and a point of it where the component is another value;
    None when there is none among those tried (which decides nothing)."""
    for y, x, n in SHAPES:
        shape = {'dy': (y, 1, 1), 'dx': (1, x, 1), 'rf': (n,)}
        arrays = {}
        for t, k in names.items():
            def at(ix, k=k):
                return Tag(k, *ix)
            arrays[t] = (shape.get(k, (y, x, n)), at if k != 'rf' else
                         lambda ix: factor(ix[0], n))
        val = {}
        p = r.ip.get_field(me.args[0], 'parameters', r.st0)
        one = field(r.ip, p, 'rf', r.st0) if p is not None and \
            p.op == 'ref' else NONE
        arrays[one] = ((n + 1) // 2,), lambda ix: factor(n // 2 + ix[0], n)
        gs = mk('fld', p.args[0], 'grid_shape') if p is not None and \
            p.op == 'ref' else NONE
        for k, c in enumerate((y, x, n)):
            val[mk('item', gs, const(k))] = Q(c)
            val[mk('item', gs, const(k - 3))] = Q(c)
        for t in subterms(v):
            if t.op == 'isnone' and t.args[0].op == 'fld':
                val[t] = 'mask' in str(t.args[0].args[1])
        for i in range(y):
            for j in range(x):
                for k in range(n):
                    at = (i, j, k)
                    pt = Located(dict(val, **{}), arrays)
                    pt.val.update({r.env[q]: Q(c) for q, c in zip(pars, at)})
                    want = Tag(nm, *at)
                    if nm in AXIS:
                        e = [0] * len(shape[nm])
                        e[MAINAX[nm]] = at[AXIS[nm]]
                        want = Tag(nm, *e) if nm != 'rf' else factor(k, n)
                    text = 'at (%d, %d, %d) of a %d x %d x %d grid' % (
                        at + (y, x, n))
                    try:
                        got = pt.at(v, ())
                    except Unknown:
                        return None
                    except Raises as e:
                        return '%s it raises (%s)' % (text, e)
                    if not isinstance(got, Tag):
                        return None
                    if got != want:
                        return '%s it is %s instead of %s' % (
                            text, got.key, want.key)
    return None


def flag(f, k, v):
    ps = [a.arg for a in f.node.args.args]
    return {ps[k]: const(v)} if len(ps) > k else {}


def parts(r, v):
    if v is None:
        return None
    v = simp(v, r.st)
    got = []
    for x in branches(v):
        if x is NONE:
            continue
        d = x if x.op == 'tuple' else None
        if d is None:
            d = r.ip.den(x, r.st)
        if d.op not in ('tuple', 'list'):
            return None
        got.append(d)
    if not got:
        return None
    if len(got) == 1:
        return list(got[0].args)
    return None


def report(ctx, rule, where, ok, why, f):
    ctx.decide(ok, rule, where, why, f.node.lineno)


# --------------------------------------------------------------- solutions
SOLUTION = ('fit', 'disk_radius', 'inclination', 'tilt', 'dx', 'dy')


def solutions(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.extract_solutions')
    base = 'ShallotGrid.extract_solutions'
    hold = {}
    r = run(repo, f, cls=grid,
            setup=with_gradients(repo, grid, gradient, 2, hold))
    vs = None
    if not r.failed and r.st is not None:
        vs = parts(r, r.value)
    if vs is None or len(vs) != 6:
        ctx.open('solution', base, r.failed or 'six arrays expected')
        return
    ctx.analysed(r)
    ip = r.ip
    names = owners(ip, hold['me'], r.st0)
    src = Sources(r.st)
    j = mk('param', 'row')
    got = []
    for nm, v in zip(SOLUTION, vs):
        v = strip_all(ip.den(v, r.st))
        v = pick_present(v)
        got.append((nm, row_sources(src, v, j)))
    # the working copy of the fit: loop variables that start as the fit
    fit = [t for t, nm in names.items() if nm == 'fit']
    inits = loop_table(r)
    for t in {s[1] for _, ss in got for s in ss if s[0] == 'leaf'}:
        if t.op == 'mu' and t in inits:
            s0 = Sources(r.st).get(inits[t][0], [ALL] * 3)
            if any(s[0] == 'leaf' and s[1] in fit for s in s0):
                names[t] = 'fit'
    want = {}
    for nm, ss in got:
        for s in ss:
            if s[0] == 'leaf' and names.get(s[1]) not in (None,) + tuple(
                    AXIS) and point_of(names[s[1]], s[2]):
                want = want or point_of(names[s[1]], s[2])
    if not want:
        ctx.open('solution', base, 'no point resolved')
        return
    for nm, ss in got:
        if ss and all(s[0] == 'nan' for s in ss):
            ctx.bad('solution', '%s, %s' % (base, nm),
                    'is read after the point has been removed',
                    f.node.lineno)
            continue
        ok, why = judge(ss, nm, names, want)
        report(ctx, 'solution', '%s, %s' % (base, nm), ok, why, f)
    axes_in_order(ctx, base, want, f)
    removal(ctx, base, want, inits, f)


def pick_present(v):
    while v.op == 'gamma' and (v.args[1] is NONE or v.args[2] is NONE):
        v = v.args[2] if v.args[1] is NONE else v.args[1]
    return v


def row_sources(src, v, j):
    return src.get(v, [j]) if v.op not in ('item',) else \
        src.get(v) | set()


def loop_table(r):
    """loop variable -> (entry value, value after one iteration)"""
    out = {}
    for f in r.ip.folds.values():
        if isinstance(f.init, T):
            out[f.mu] = (f.init, f.next)
    return out


def unravelled(want):
    """(flat index term, shape) when the axes are those of one unravel."""
    ts = [want.get(k) for k in range(3)]
    if any(t is None or t.op != 'item' or
           t.args[0].op != 'np.unravel_index' for t in ts):
        return None
    if len({t.args[0] for t in ts}) != 1:
        return None
    return ts


def axes_in_order(ctx, base, want, f):
    ts = unravelled(want)
    if ts is None:
        ctx.open('axes', base, 'indices are not unravelled')
        return
    ks = [t.args[1] for t in ts]
    ok = ks == [const(0), const(1), const(2)] or \
        ks == [const(0), const(1), const(-1)]
    ctx.decide(ok, 'axes', base, 'the indices are taken as axes (%s) of the '
               'searched array' % ', '.join(show(k) for k in ks),
               f.node.lineno)


def cases(t, conds):
    """Leaves of a conditional term with the conditions they hold under."""
    if t.op != 'gamma':
        return [(t, conds)]
    c, neg = t.args[0], False
    while c.op == 'not':
        c, neg = c.args[0], not neg
    if c in conds:
        return cases(t.args[1 if conds[c] != neg else 2], conds)
    return cases(t.args[1], {**conds, c: not neg}) + cases(
        t.args[2], {**conds, c: neg})


def removal(ctx, base, want, inits, f):
    """The point found has left the searched values in the next round."""
    ts = unravelled(want)
    flat = ts[0].args[0].args[0] if ts else None
    if flat is None or flat.op not in ARGMIN:
        ctx.open('distinct', base, 'search not recognised')
        return
    pt = mk('tuple', *ts)
    verdict, why = True, ''
    for m, conds in cases(strip_all(flat.args[0]), {}):
        m = strip_all(m)
        if m.op != 'mu' or m not in inits:
            if not contains(m, lambda x: x.op in ('mu', 'idx', 'bv')):
                verdict, why = False, 'every round searches the same values'
            else:
                verdict = None if verdict else verdict
            continue
        for x, _ in cases(inits[m][1], conds):
            x = strip_all(x)
            if x is m:
                verdict, why = False, 'the point found stays in the search'
            elif x.op == 'store' and x.args[0] is m and \
                    x.args[2].op in ('nan',) and flat.op == 'np.nanargmin':
                if x.args[1] is not pt:
                    e = x.args[1]
                    if e.op == 'tuple' and len(e.args) == 3 and any(
                            distinct(a, b) for a, b in zip(e.args, ts)):
                        verdict, why = False, 'another point is removed'
                    elif verdict:
                        verdict = None
            elif verdict:
                verdict = None
    ctx.decide(verdict, 'distinct', base, why or 'not recognised',
               f.node.lineno)


# ------------------------------------------------------------ closest point
def closest(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.determine_closest_grid_point')
    for masked in (True, False):
        base = 'ShallotGrid.determine_closest_grid_point(masked=%s)' % masked
        hold = {}
        r = run(repo, f, cls=grid, env=flag(f, 5, masked),
                setup=with_gradients(repo, grid, gradient, 0, hold))
        vs = parts(r, r.value) if r.st is not None and not r.failed else None
        if vs is None or len(vs) != 3:
            ctx.open('closest', base, r.failed or 'triple expected')
            continue
        ctx.analysed(r)
        ip = r.ip
        names = owners(ip, hold['me'], r.st0)
        src = Sources(r.st)
        ix = index_triple(r, vs[1])
        if ix is None:
            ctx.open('closest', base, 'indices not resolved')
            continue
        want = dict(enumerate(ix))
        cs = parts(r, vs[0])
        if cs is None or len(cs) != 3:
            ctx.open('closest', base, 'coordinates are no triple')
        else:
            for nm, c in zip(('dy', 'dx', 'rf'), cs):
                ok, why = judge(src.get(strip_all(ip.den(c, r.st))), nm,
                                names, want)
                report(ctx, 'closest', '%s, %s' % (base, nm), ok, why, f)
        distance(ctx, r, base, want, strip_all(ip.den(vs[2], r.st)), f)


def index_triple(r, v):
    d = r.ip.den(v, r.st)
    if d.op in ('tuple', 'list') and len(d.args) == 3:
        return [index(r.ip.den(x, r.st)) for x in d.args]
    if d.op == 'np.unravel_index':
        return [mk('item', d, const(k)) for k in range(3)]
    return None


def distance(ctx, r, base, want, d, f):
    axes_in_order(ctx, base, want, f)
    ts = unravelled(want)
    flat = ts[0].args[0].args[0] if ts else None
    if flat is None or flat.op not in ARGMIN:
        bad = flat is not None and flat.op in ('np.nanargmax', 'np.argmax')
        ctx.decide(False if bad else None, 'distance', base,
                   'the largest distance is searched' if bad else
                   'search not recognised', f.node.lineno)
        return
    w = flat.args[0]
    if d.op in ('np.nanmin', 'np.min') and len(d.args) == 1:
        same = d.args[0] is w or deep_simp(d.args[0], r.st) is deep_simp(
            w, r.st)
        kind = d.args[0].op == w.op
        ok = True if same else None
        if not same and not (contains_fields(d) >= contains_fields(w)):
            ok = False
        ctx.decide(ok, 'distance', base, 'the distance reported is the '
                   'minimum of other values than the ones searched',
                   f.node.lineno)
        return
    if d.op == 'item':
        e = d.args[1]
        ok = d.args[0] is w and (e is ts[0].args[0] or list(e.args) == [
            want[k] for k in range(3)])
        ctx.decide(True if ok else None, 'distance', base, '',
                   f.node.lineno)
        return
    if d.op in ('np.nanmax', 'np.max', 'np.nanmean', 'np.mean'):
        ctx.bad('distance', base, 'the distance reported is not that of the '
                'point', f.node.lineno)
        return
    ctx.open('distance', base, 'distance not resolved: ' + show(d, 3))


def contains_fields(t):
    return {x for x in subterms(t) if x.op == 'fld'}
