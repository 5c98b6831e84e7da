"""What is set is what is read back, evaluated. Every constructor, setter and
setting operation is interpreted with symbolic arguments; the attribute that
is named after an argument is read at the normal exit and its value-flow term
evaluated for many accepted values (limits of the domain, values with many
digits, very small and very large ones, small arrays). It must be the value
given, element by element for arrays; a setter of one value leaves the others
alone; omitted settings take their documented defaults."""
import itertools
from ..common import *
from ..located import *
from .c03 import Table
from .c08 import Grid
from .c13 import field, with_gradients
from .c16 import read

THIRD, FINE, TINY, HUGE = Q(1, 3), Q(123456789012, 10 ** 10), \
    Q(1, 10 ** 9), 10 ** 9 + Q(1, 7)
NARROW = {'float32', 'float16', 'int', 'int32', 'int64', 'int16', 'int8',
          'half', 'single'}
RING = [dict(zip(('inner_radius', 'outer_radius', 'transmission',
                  'inclination', 'tilt'), v)) for v in (
    (THIRD, FINE, Q(123456789, 10 ** 9), 33 + THIRD, -77 - THIRD),
    (TINY, HUGE, 0, 0, -180), (2, 3, 1, 90, 180), (1, 1 + TINY, TINY, TINY,
                                                   -TINY),
    (FINE, FINE + 1, 1 - TINY, 90 - TINY, 180 - TINY), (5, 7, Q(1, 2), 45,
                                                        0),
    (1, 2, THIRD, 1, -180 + TINY), (40, 50, 0, 89, 90))]
DATA = ((2, 3, 1), lambda ix: (THIRD, FINE, NAN, -TINY, HUGE, 0)[
    ix[0] * 3 + ix[1]])
FLAGS = ((2, 3, 1), lambda ix: (ix[0] + 2 * ix[1]) % 3 == 0)


def check(ctx):
    repo = ctx.repo
    C = {n: repo.classes.get(n) for n in (
        'Ring', 'RingSystem', 'GridProperty', 'GridGradient', 'ShallotGrid')}
    for n, c in C.items():
        ctx.anchor(c is not None, 'class ' + n)
    ring = C['Ring']
    route(ctx, ring, '__init__', RING)
    for nm in RING[0]:
        f = ring.setters.get(nm)
        if f is not None:
            setter(ctx, ring, nm, f)
    for n in (1, 2, 3):
        system(ctx, C['RingSystem'], n)
    contrast = [dict(zip(('vmin', 'vmax', 'num_colors'), v)) for v in (
        (THIRD, FINE, 2), (-HUGE, HUGE, 11), (-TINY, TINY, 257), (0, 1, 12),
        (Q(1, 10), Q(99, 100), 3), (FINE, THIRD, 5), (THIRD, THIRD, 4))]
    for c in ('GridProperty', 'GridGradient'):
        route(ctx, C[c], 'set_contrast_parameters', contrast,
              same=('color_map',), arrays={'data': DATA})
        defaults(ctx, C[c])
        route(ctx, C[c], 'set_mask', [{}], given={'mask': FLAGS},
              arrays={'data': DATA})
        route(ctx, C[c], '__init__', [{}] if c == 'GridProperty' else
              [{'position': v} for v in (THIRD, -FINE, 0, TINY, -HUGE)],
              same=('name', 'unit', 'grid_parameters'), given={'data': DATA})
    names = ('measured_gradient', 'orbital_scale', 'transmission_change',
             'measured_error')
    route(ctx, C['GridGradient'], 'determine_mask',
          [dict(zip(names, v)) for v in (
              (0, 0, TINY, 0), (THIRD, Q(1, 7), 1, FINE), (TINY, 1, Q(1, 2),
                                                       TINY),
              (Q(1, 7), Q(1, 9), THIRD, HUGE), (FINE, TINY, 1 - TINY, THIRD),
              (Q(123456789, 10 ** 10), 1, Q(1, 2), 1))],
          arrays={'data': DATA})
    route(ctx, C['ShallotGrid'], 'set_eclipse_parameters',
          [dict(zip(('eclipse_duration', 'transverse_velocity',
                     'limb_darkening'), v)) for v in (
              (THIRD, FINE, 0), (FINE, HUGE, 1), (TINY, TINY, TINY),
              (HUGE, THIRD, THIRD), (1, 2, 1 - TINY))])
    scaling(ctx, C['ShallotGrid'], C['GridGradient'])
    diagnostics(ctx, repo)


class Stored(Grid):
    """Conversions to a narrower type are not followed."""

    def ev0(self, t):
        if t.op in ('np.nanmin', 'np.nanmax', 'np.min', 'np.max') and \
                len(t.args) == 1:
            vs = [num(self.at(t.args[0], i))
                  for i in self.indices(self.shape(t.args[0]))]
            vs = [v for v in vs if not nan(v)]
            if vs and 'nan' in t.op:
                return (max if 'max' in t.op else min)(vs)
        return Grid.ev0(self, t)


def equal(a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return bool(a) == bool(b)
    a, b = num(a), num(b)
    if nan(a) or nan(b):
        return nan(a) and nan(b)
    return abs(a - b) <= 1e-13 * abs(b)


def shown(v):
    if isinstance(v, bool) or not isinstance(v, (int, float, Q)):
        return str(v)
    return repr(v) if isinstance(v, int) else '%.13g' % float(v)


def bind(val, x, v):
    for b in branches(x):
        if b is not NONE:
            val[b] = v if isinstance(v, Tag) else Q(v)
            val[mk('isnone', b)] = False


def names_for(repo, cls, ip, ref, p, st):
    """The value of the attribute named like an argument."""
    for nm in (p, '_' + p):
        o = ip.obj(ref.args[0], st)
        if cls.find_getter(nm) or o is not None and nm in o.fields or \
                nm in repo.field_specs(cls):
            return read(ip, ref, nm, st)
    return None


def compare(tab, pt, t, want, text):
    """One stored value, number or array, against the one that was given."""
    try:
        if isinstance(want, tuple):
            s, fn = want
            got = pt.shape(t)
            if got != s:
                tab.row(False, '%s: shape %s instead of %s' % (text, got, s))
                return
            cells = [(pt.at(t, ix), fn(ix)) for ix in
                     itertools.product(*map(range, s))]
        else:
            cells = [(pt.ev(t), want)]
        low = narrowed(t)
        for a, b in cells:
            if not equal(a, b):
                tab.row(False, '%s: %s instead of %s' % (
                    text, shown(a), shown(b)))
                return
        tab.row(not low, '%s: converted to %s' % (text, low))
    except Unknown as e:
        tab.row(None, '%s: %s' % (text, e))
    except Raises as e:
        tab.row(False, '%s: raises (%s)' % (text, e))


def narrowed(t):
    """The narrower type that the whole stored value is converted to."""
    while t.op in ('astype', 'copy', 'np.copy'):
        if t.op == 'astype' and len(t.args) > 1:
            k = t.args[1]
            nm = k.args[-1] if isinstance(k, T) and k.args else k
            if isinstance(nm, str) and nm.split('.')[-1] in NARROW:
                return nm
        t = t.args[0]
    return None


def route(ctx, cls, method, rows, same=(), given=(), arrays=()):
    repo = ctx.repo
    f = cls.find(method)
    where = '%s.%s' % (cls.name, method)
    if f is None:
        ctx.open('stored', where, 'no such operation')
        return
    r = run(repo, f, cls=cls)
    if r.failed or r.st is None:
        ctx.open('stored', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    ip, me = r.ip, r.env['self']
    given = {p: v for p, v in dict(given).items() if p in r.env}
    base = {}
    for nm, a in dict(arrays).items():
        for b in branches(field(ip, me, nm, r.st0)):
            if b is not NONE:
                base[b] = a
    for p, a in given.items():
        for b in branches(r.env[p]):
            if b is not NONE:
                base[strip_all(ip.den(b, r.st0))] = a
    for p in sorted({p for row in rows for p in row} | set(same) |
                    set(given)):
        if p not in r.env:
            continue
        tab = Table(ctx, '%s, %s' % (where, p), f.node.lineno)
        v = names_for(repo, cls, ip, me, p, r.st)
        if v is None:
            tab.row(None, 'no attribute of this name')
        elif p in same:
            identical(tab, r, p, v)
        else:
            t = strip_all(ip.den(v, r.st))
            for row in rows:
                pt = point(r, row, base, given)
                want = given.get(p, row.get(p))
                compare(tab, pt, t, want, '' if isinstance(
                    want, tuple) else 'given ' + shown(want))
        tab.done('stored')


def point(r, row, base, given):
    val = {}
    for p, v in row.items():
        if p in r.env:
            bind(val, r.env[p], v)
    for p in given:
        for b in branches(r.env[p]):
            if b is not NONE:
                val[mk('isnone', b)] = False
    return Stored(val, base)


def identical(tab, r, p, v):
    """Objects and texts: the very value of the argument."""
    xs = [b for b in branches(r.env[p]) if b is not NONE]
    vs = [b for b in branches(v) if b is not NONE]
    if all(b in xs for b in vs if not is_const(b)) and any(
            b in xs for b in vs):
        tab.row(True, '')
        return
    others = {b for q, x in r.env.items() if q != p and isinstance(x, T)
              for b in branches(x)} - {NONE}
    wrong = [b for b in vs if b in others or is_const(b)]
    tab.row(False if wrong and len(wrong) == len(vs) else None,
            '%s is stored instead' % show(vs[0], 3) if vs else 'not stored')


def setter(ctx, cls, nm, f):
    """Setting one value of a ring: it is stored, the others stay."""
    r = run(ctx.repo, f, cls=cls)
    where = '%s.%s = ...' % (cls.name, nm)
    if r.failed or r.st is None:
        ctx.open('stored', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    ip, me = r.ip, r.env['self']
    p = f.node.args.args[1].arg
    was = {q: strip_all(read(ip, me, q, r.st0)) for q in RING[0]}
    now = {q: strip_all(read(ip, me, q, r.st)) for q in RING[0]}
    tabs = {q: Table(ctx, '%s, %s' % (where, q if q == nm else q +
                                      ' is kept'), f.node.lineno)
            for q in RING[0]}
    for old, new in itertools.product(RING[:3], RING):
        val = {was[q]: Q(old[q]) for q in was if was[q].op != 'const'}
        for x in was.values():
            val[mk('isnone', x)] = False
        new = dict(new)
        if nm == 'inner_radius' and new[nm] >= old['outer_radius']:
            new[nm] = old['outer_radius'] * Q(9, 11)
        if nm == 'outer_radius' and new[nm] <= old['inner_radius']:
            new[nm] = old['inner_radius'] * Q(11, 9)
        bind(val, r.env[p], new[nm])
        pt = Stored(val, {})
        for q, tab in tabs.items():
            compare(tab, pt, now[q], new[nm] if q == nm else old[q],
                    'set to ' + shown(new[nm]))
    for tab in tabs.values():
        tab.done('stored')


def system(ctx, cls, n):
    """The constructor of a ring system: one ring per entry, in order."""
    repo = ctx.repo
    f = cls.find('__init__')
    given, ps = {}, {'inner_radii': 'inner_radius',
                     'outer_radii': 'outer_radius',
                     'transmissions': 'transmission'}

    def setup(ip, st, env):
        for p in ps:
            if p not in env:
                continue
            given[p] = [mk('param', '%s[%d]' % (p, k)) for k in range(n)]
            for x in given[p]:
                st.facts[mk('isnone', x)] = False
                st.facts[mk('isnan', x)] = False
            env[p] = ip.new_arr(mk('list', *given[p]), st)
    r = run(repo, f, cls=cls, setup=setup)
    where = 'RingSystem.__init__, %d rings' % n
    if r.failed or r.st is None or len(given) < 3:
        ctx.open('stored', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    ip, me = r.ip, r.env['self']
    line = f.node.lineno
    own = {q: Table(ctx, '%s, %s' % (where, q), line)
           for q in ('planet_radius', 'inclination', 'tilt')}
    each = {q: Table(ctx, '%s, %s of the rings' % (where, q), line)
            for q in ps.values()}
    els = members(ip, ip.get_field(me.args[0], 'rings', r.st), r.st)
    if els is None or any(e.op != 'ref' for e in els):
        ctx.open('stored', where, 'the rings are not determined')
        return
    ctx.decide(len(els) == n, 'stored', where + ', number of rings',
               '%d rings are stored' % len(els), line)
    for k0, row in enumerate(RING):
        val = {}
        want = dict(planet_radius=(FINE, 0, TINY, HUGE)[k0 % 4],
                    inclination=row['inclination'], tilt=row['tilt'])
        for p, v in want.items():
            if p in r.env:
                bind(val, r.env[p], v)
        at, rings = Q(1, 9), []
        for k in range(n):
            x = RING[(k0 + k) % len(RING)]
            rings.append(dict(inner_radius=at, outer_radius=at +
                              x['outer_radius'],
                              transmission=x['transmission']))
            at += x['outer_radius'] * Q(8, 7)
        for p, q in ps.items():
            for k in range(n):
                bind(val, given[p][k], rings[k][q])
        pt = Stored(val, {})
        for q, tab in own.items():
            compare(tab, pt, strip_all(read(ip, me, q, r.st)), want[q],
                    'given ' + shown(want[q]))
        if len(els) != n:
            continue
        for k, e in enumerate(els):
            for q, tab in each.items():
                compare(tab, pt, strip_all(ip.den(read(ip, e, q, r.st),
                                                  r.st)),
                        rings[k][q], 'ring %d given %s' % (
                            k, shown(rings[k][q])))
    for tab in list(own.values()) + list(each.values()):
        tab.done('stored')


def scaling(ctx, cls, gradient):
    """Velocity and limb darkening of a later update; those left out stay."""
    f = cls.find('update_gradient_scaling')
    if f is None:
        ctx.open('stored', 'ShallotGrid.update_gradient_scaling',
                 'no such operation')
        return
    names = ('transverse_velocity', 'limb_darkening')
    for given in (names, names[:1], names[1:]):
        hold = {}
        base = with_gradients(ctx.repo, cls, gradient, 2, hold)

        def setup(ip, st, env):
            base(ip, st, env)
            for p in [a.arg for a in f.node.args.args][1:]:
                if p not in given:
                    env[p] = NONE
        r = run(ctx.repo, f, cls=cls, setup=setup)
        where = 'ShallotGrid.update_gradient_scaling(%s)' % ', '.join(given)
        if r.failed or r.st is None:
            ctx.open('stored', where, r.failed or 'no normal exit')
            continue
        ctx.analysed(r)
        ip, me = r.ip, r.env['self']
        for p in names:
            old = names_for(ctx.repo, cls, ip, me, p, r.st0)
            new = names_for(ctx.repo, cls, ip, me, p, r.st)
            tab = Table(ctx, '%s, %s' % (where, p), f.node.lineno)
            for a, b in ((THIRD, FINE), (TINY, THIRD), (Q(1, 2), 1),
                         (1, TINY), (THIRD, 0)):
                if p == names[0] or b <= 1:
                    if new is None:
                        tab.row(None, 'no attribute of this name')
                        continue
                    val = {}
                    for x in given:
                        bind(val, r.env[x], b)
                    bind(val, old, a)
                    compare(tab, Stored(val, {}), strip_all(new),
                            b if p in given else a, 'was %s, given %s' % (
                                shown(a), shown(b) if p in given else
                                'nothing'))
            tab.done('stored')


CURVES = [((5,), lambda ix: (FINE, THIRD, -TINY, THIRD, HUGE)[ix[0]]),
          ((3,), lambda ix: (0, TINY, NAN)[ix[0]]),
          ((2,), lambda ix: (THIRD + ix[0], -HUGE)[ix[0]]),
          ((1,), lambda ix: THIRD), ((0,), lambda ix: 0)]
# (row, column, number of the curves saved there); the last save counts
SAVES = (((0, 0, 0), (1, 0, 1), (0, 1, 2)),
         ((2, 1, 0), (1, 2, 1), (2, 1, 2), (0, 0, 3)),
         ((1, 1, 4), (1, 1, 0), (1, 1, 1), (2, 2, 4)))


def diagnostics(ctx, repo):
    """The curves saved for a grid point are the ones that are returned."""
    cls = repo.classes.get('GridDiagnostics')
    ctx.anchor(cls is not None, 'class GridDiagnostics')
    get, put, ctor = (cls.find(n) for n in (
        'get_diagnostic', 'save_diagnostic', '__init__'))
    ctx.anchor(get and put and ctor, 'GridDiagnostics interface')

    def setup(ip, st, env):
        g = [v for k, v in env.items() if k != 'self'][0]
        o = ip.obj(g.args[0], st).clone()
        o.fields['slice_shape'] = mk('tuple', const(3), const(3))
        o.fields['grid_shape'] = mk('tuple', const(3), const(3), const(5))
        st.heap[g.args[0]] = o
    r = run(repo, ctor, cls=cls, setup=setup)
    tab = Table(ctx, 'GridDiagnostics.save_diagnostic, the curves of a point',
                put.node.lineno)
    if r.failed or r.st is None:
        tab.row(None, r.failed or 'constructor')
        tab.done('stored')
        return
    ctx.analysed(r)
    for seq in SAVES:
        ip, me, st = r.ip, r.env['self'], r.st.copy()
        base, last, ok = {}, {}, True
        for j, (y, x, c) in enumerate(seq):
            pair = []
            for k, nm in enumerate(('fy', 'radius')):
                a = ip.sym(dict(kind='array', rank=1, dtype='float64'),
                           mk('param', '%s of save %d' % (nm, j)))
                s, fn = CURVES[c]
                want = (s, lambda ix, fn=fn, k=k: fn(ix) + k * THIRD)
                base[strip_all(ip.den(a, st))] = want
                pair.append((a, want))
            v, raised = call_in(ip, put, [me, const(y), const(x)] + [
                a for a, _ in pair], {}, st)
            ok = ok and v is not None
            last[y, x] = [w for _, w in pair]
        if not ok:
            tab.row(None, 'saving is not determined')
            continue
        for (y, x), wants in sorted(last.items()):
            s = st.copy()
            v, raised = call_in(ip, get, [me, const(y), const(x)], {}, s)
            got = None if v is None else ip.exact_seq(v, s)
            if got is None or len(got) != 2:
                tab.row(None, 'the curves of (%d, %d)' % (y, x))
                continue
            for nm, g, want in zip(('fy', 'disk radius'), got, wants):
                compare(tab, Stored({}, base), strip_all(ip.den(g, s)), want,
                        'saved for %s: %s of (%d, %d)' % (
                            [q[:2] for q in seq], nm, y, x))
    tab.done('stored')


def members(ip, v, st):
    """The elements of a list or array of known length."""
    out = ip.exact_seq(v, st)
    if out is None:
        d = ip.den(v, st)
        if d.op in ('list', 'tuple'):
            out = list(d.args)
    return out


def defaults(ctx, cls):
    """Contrast settings that are left out: viridis, 11 colours and the
    limits of the data."""
    f = cls.find('set_contrast_parameters')
    if f is None:
        return
    names = [a.arg for a in f.node.args.args][1:]
    where = '%s.set_contrast_parameters()' % cls.name
    r = run(ctx.repo, f, cls=cls, env={n: NONE for n in names})
    if r.failed or r.st is None:
        ctx.open('default', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    ip, me = r.ip, r.env['self']
    for what, data in (('some data undefined', DATA),
                       ('all data undefined', (DATA[0], lambda ix: NAN)),
                       ('all data defined', (DATA[0], lambda ix: ix[0] * Q(
                           5, 3) - ix[1]))):
        vs = [data[1](ix) for ix in itertools.product(*map(range, data[0]))]
        vs = [v for v in vs if not nan(v)]
        base = {field(ip, me, 'data', r.st0): data}
        pt = Stored({}, base)
        tab = Table(ctx, '%s, %s' % (where, what), f.node.lineno)
        for nm, want in (('vmin', min(vs) if vs else None),
                         ('vmax', max(vs) if vs else None),
                         ('num_colors', 11), ('color_map', 'viridis')):
            v = names_for(ctx.repo, cls, ip, me, nm, r.st)
            if v is None:
                tab.row(None, 'no attribute ' + nm)
                continue
            try:
                t = choose(pt, strip_all(v))
                if want is None or isinstance(want, str):
                    ok = t is (NONE if want is None else const(want))
                    tab.row(True if ok else False if is_const(t) or
                            want is None and plainly(pt, t) else None,
                            '%s is %s instead of %s' % (nm, show(t, 3), want))
                elif t is NONE:
                    tab.row(False, '%s is None instead of %s' % (
                        nm, shown(want)))
                else:
                    compare(tab, pt, t, want, nm)
            except Unknown as e:
                tab.row(None, '%s: %s' % (nm, e))
            except Raises as e:
                tab.row(False, '%s: raises (%s)' % (nm, e))
        tab.done('default')


def plainly(pt, t):
    try:
        num(pt.ev(t))
        return True
    except (Unknown, Raises, TypeError):
        return False


def choose(pt, v):
    while v.op == 'gamma':
        v = strip_all(v.args[1 if truth(pt.ev(v.args[0])) else 2])
    return v
