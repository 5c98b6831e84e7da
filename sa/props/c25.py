"""Accepted-range analysis. Every public operation that takes an index is
interpreted for each index around the ends of a container of known size. The
path conditions of its normal exit, evaluated for that index and size, say
whether the index is accepted; the accepted set must be exactly the positions
that exist (for inserting a ring: the gaps between them), and every refusal
must be a validation error. Diagnostics are decided through their public
interface: store one entry per position, look up every position, before and
after extension."""
import itertools
from ..common import *
from ..pointwise import *
from .c13 import with_gradients

SIZES = {'dy': 5, 'dx': 7, 'rf_array': 9, 'rf': 5}
AXES = ('dy', 'dx', 'rf_array')
LEAK = ('IndexError', 'KeyError', 'AttributeError', 'UnboundLocalError')


class Sized(Point):
    """Sizes of coordinate vectors and cubes along each axis are known."""

    def ev0(self, t):
        if t.op in ('len', 'np.size', 'size', 'np.prod'):
            k = (length if t.op == 'len' else sized)(t.args[0])
            if k is not None:
                return Q(k)
        if t.op == 'item' and is_int(t.args[1]):
            k = shape_item(t.args[0], cval(t.args[1]))
            if k is not None:
                return Q(k)
        if t.op in ('arrout',):
            return self.arrout(*t.args)
        if t.op in ('notnum', 'notisa', 'notrank', 'notdtype'):
            return False
        return Point.ev0(self, t)

    def arrout(self, d, lo, hi, excl):
        xs = [num(self.ev(x)) for x in self.elems(d)]
        for x in xs:
            for b, s in ((lo, 1), (hi, -1)):
                if b is NONE:
                    continue
                y = num(self.ev(b))
                if (x - y) * s < 0 or excl is True and x == y or nan(x):
                    return True
        return False


SAME_SIZE = ('np.flatten', 'flatten', 'np.ravel', 'np.copy', 'astype',
             'np.squeeze', 'neg', 'np.abs', 'np.flip')


def sized(t):
    """Number of elements of t, a coordinate vector; None if not known."""
    if t.op == 'fld':
        return SIZES.get(t.args[1])
    if t.op in SAME_SIZE and t.args:
        if t.op in ('neg', 'np.abs', 'np.copy', 'np.flip', 'astype') and \
                t.args[0].op == 'fld' and t.args[0].args[1] == 'dx':
            return SIZES['dx']
        return sized(t.args[0])
    if t.op == 'item' and t.args[1].op == 'slice':
        n = length(t.args[0])
        cut = t.args[1].args
        if n is None or any(x is not NONE and not is_int(x) for x in cut):
            return None
        return len(range(n)[slice(*[None if x is NONE else cval(x)
                                    for x in cut])])
    if t.op == 'item' and t.args[1].op == 'tuple':
        b = t.args[0]
        full = [x for x in t.args[1].args if x.op == 'slice']
        if b.op == 'fld' and b.args[1] in ('dy', 'dx') and len(full) == 1 \
                and all(x is NONE for x in full[0].args) and len(
                    t.args[1].args) <= 3:
            ax = ('dy', 'dx').index(b.args[1])
            if t.args[1].args.index(full[0]) == ax:
                return SIZES[b.args[1]]
    return None


def length(t):
    """len(t)."""
    if t.op == 'fld' and t.args[1] == 'dx':
        return 1
    if t.op in ('neg', 'np.abs', 'np.copy', 'astype', 'np.flip') and t.args:
        return length(t.args[0])
    return sized(t)


def shape_item(s, k):
    if s.op == 'fld' and s.args[1] == 'grid_shape' and -3 <= k < 3:
        return SIZES[AXES[k]]
    if s.op == 'fld' and s.args[1] == 'slice_shape' and -2 <= k < 2:
        return SIZES[AXES[:2][k]]
    if s.op in ('shape', 'np.shape') and -3 <= k < 3:
        b = strip_all(s.args[0])
        if b.op == 'fld' and b.args[1] in ('data', 'mask'):
            return SIZES[AXES[k]]
        if b.op == 'fld' and b.args[1] in ('dy', 'dx'):
            n = [1, 1, 1]
            n[('dy', 'dx').index(b.args[1])] = SIZES[b.args[1]]
            return n[k]
    return None


def outcome(r, val):
    """(accepted?, {exceptions that leave}) for this row."""
    acc, excs = False, {}
    for st, how, o in exits(r):
        pt = Sized(val)
        e = agrees(st, pt, val)
        if e is False:
            continue
        if o is None:
            acc = True if e is True else None
        else:
            for x in o.excs or ['?']:
                excs[x] = max(excs.get(x, False), e is True)
    return acc, excs


def agrees(st, pt, val):
    und = False
    for t, p in st.facts.items():
        try:
            v = pt.ev(t)
        except (Unknown, Raises):
            if contains(t, lambda x: x in val or x.op in ('len', 'shape')) \
                    and t.op in ('lt', 'le', 'eq', 'or', 'and', 'arrout'):
                und = True
            continue
        if isinstance(v, bool) and v != p:
            return False
    return None if und else True


class Rows:
    def __init__(self, ctx, where, line):
        self.ctx, self.where, self.line = ctx, where, line
        self.n = 0
        self.bad, self.opn = {}, None

    def add(self, r, val, good, text):
        self.n += 1
        if r.failed:
            self.opn = r.failed
            return
        acc, excs = outcome(r, val)
        if good and acc is False:
            self.bad['refuses'] = '%s is refused' % text
        elif not good and acc is True:
            self.bad['accepts'] = '%s is accepted' % text
        elif acc is None:
            self.opn = '%s: not determined' % text
        for x, sure in excs.items():
            if x in LEAK and sure and not acc:
                self.bad['leaks'] = '%s raises %s' % (text, x)

    def done(self):
        for k, d in sorted(self.bad.items()):
            self.ctx.bad(k, self.where, d, self.line)
        if not self.bad and self.opn:
            self.ctx.open('range', self.where, self.opn)
        elif not self.bad:
            self.ctx.ok('range', self.where, '%d index/size pairs' % self.n)


def check(ctx):
    repo = ctx.repo
    rings(ctx, repo)
    gradients(ctx, repo)
    points(ctx, repo)
    slices(ctx, repo)
    diagnostics(ctx, repo)


def rings(ctx, repo):
    system, ring = repo.classes.get('RingSystem'), repo.classes.get('Ring')
    ctx.anchor(system is not None and ring is not None, 'ring classes')
    for name, extra in (('add_ring', 1), ('remove_ring', 0),
                        ('replace_ring', 0)):
        f = system.find(name)
        ctx.anchor(f, 'RingSystem.' + name)
        rows = Rows(ctx, 'RingSystem.' + name, f.node.lineno)
        for n in range(4):
            for i in range(-2, n + 3):
                def setup(ip, st, env):
                    me = env['self']
                    els = [ip.sym(dict(kind='inst', cls=ring),
                                  mk('root', 'ring %d' % k))
                           for k in range(n)]
                    arr = ip.new_arr(mk('list', *els), st)
                    ao = ip.obj(arr.args[0], st).clone()
                    ao.elem = dict(kind='inst', cls=ring)
                    st.heap[arr.args[0]] = ao
                    o = ip.obj(me.args[0], st).clone()
                    o.fields['rings'] = arr
                    st.heap[me.args[0]] = o
                    ix = [k for k, v in env.items() if k != 'self' and not (
                        v.op == 'ref' and getattr(ip.obj(
                            v.args[0], st), 'cls', None) is ring)]
                    if not ix:
                        raise AnalysisError('anchor vanished: ring index')
                    env[ix[0]] = const(i)
                r = run(repo, f, cls=system, setup=setup)
                if rows.n == 0:
                    ctx.analysed(r)
                rows.add(r, {}, 0 <= i < n + extra,
                         'index %d with %d rings' % (i, n))
        rows.done()


def gradients(ctx, repo):
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None, 'grid classes')
    f = find_func(repo, 'ShallotGrid.remove_gradients')
    rows = Rows(ctx, 'ShallotGrid.remove_gradients', f.node.lineno)
    for n in (1, 2, 3):
        vecs = [(i,) for i in range(-2, n + 2)] + [
            (0, i) for i in (-1, n - 1, n)]
        for ix in vecs:
            hold = {}
            base = with_gradients(repo, grid, gradient, n, hold)

            def setup(ip, st, env):
                base(ip, st, env)
                k = [a for a in env if a != 'self'][0]
                env[k] = ip.new_arr(mk('list', *[const(x) for x in ix]), st)
            r = run(repo, f, cls=grid, setup=setup)
            if rows.n == 0:
                ctx.analysed(r)
            rows.add(r, {}, all(0 <= x < n for x in ix),
                     'index vector %s with %d gradients' % (list(ix), n))
    rows.done()


def points(ctx, repo):
    grid = repo.classes.get('ShallotGrid')
    f = find_func(repo, 'ShallotGrid.get_grid_point_data')
    names = [a.arg for a in f.node.args.args][1:4]
    ctx.anchor(len(names) == 3, 'indices of get_grid_point_data')
    for ax, nm in enumerate(names):
        size = SIZES[AXES[ax]]
        rows = Rows(ctx, 'ShallotGrid.get_grid_point_data, %s' % nm,
                    f.node.lineno)
        for i in sorted({-2, -1, 0, 1, 4, 5, 6, 7, 8, 9, size - 1, size,
                         size + 1}):
            env = {k: const(0) for k in names}
            env[nm] = const(i)
            r = run(repo, f, cls=grid, env=env)
            if rows.n == 0:
                ctx.analysed(r)
            rows.add(r, {}, 0 <= i < size, '%s = %d on an axis of %d points'
                     % (nm, i, size))
        rows.done()


def slices(ctx, repo):
    viewer = repo.classes.get('GridPropertyViewer')
    prop = repo.classes.get('GridProperty')
    ctx.anchor(viewer is not None and prop is not None, 'viewer classes')
    entries = [(viewer, viewer.find('__init__')),
               (prop, prop.find('plot_slice'))]
    for cls, f in entries:
        ctx.anchor(f, cls.name)
        where = '%s.%s' % (cls.name, f.name)
        rows = Rows(ctx, where + ', axis', f.node.lineno)
        for a in range(-2, 6):
            r = run(repo, f, cls=cls, env={'axis': const(a)})
            val = index_row(r, Q(0))
            rows.add(r, val, 0 <= a <= 2, 'axis %d' % a)
        rows.done()
        for a in range(3):
            r = run(repo, f, cls=cls, env={'axis': const(a)})
            ctx.analysed(r)
            n = SIZES[AXES[a]]
            rows = Rows(ctx, '%s, index on axis %d' % (where, a),
                        f.node.lineno)
            for i in sorted({-2, -1, 0, 1, 4, 5, 6, 7, 8, 9, n - 1, n,
                             n + 1}):
                rows.add(r, index_row(r, Q(i)), 0 <= i < n,
                         'slice %d of %d' % (i, n))
            rows.done()


def index_row(r, i):
    val = {}
    v = r.env.get('index')
    if v is None:
        raise AnalysisError('anchor vanished: index of a viewer')
    for x in branches(v):
        if x is not NONE:
            val[x] = i
    if v.op == 'gamma':
        val[v.args[0]] = False
    return val


# ------------------------------------------------------------- diagnostics
def diagnostics(ctx, repo):
    cls = repo.classes.get('GridDiagnostics')
    par = repo.classes.get('GridParameters')
    ctx.anchor(cls is not None and par is not None, 'GridDiagnostics')
    get, put = cls.find('get_diagnostic'), cls.find('save_diagnostic')
    ext, ctor = cls.find('extend'), cls.find('__init__')
    ctx.anchor(get and put and ext and ctor, 'GridDiagnostics interface')
    for ny, nx in ((2, 2), (3, 4)):
        diag_size(ctx, repo, cls, par, get, put, ext, ctor, ny, nx)


def diag_size(ctx, repo, cls, par, get, put, ext, ctor, ny, nx):
    hold = {}

    def setup(ip, st, env):
        g = [v for k, v in env.items() if k != 'self'][0]
        o = ip.obj(g.args[0], st).clone()
        o.fields['slice_shape'] = mk('tuple', const(ny), const(nx))
        o.fields['grid_shape'] = mk('tuple', const(ny), const(nx), const(5))
        st.heap[g.args[0]] = o
    r = run(repo, ctor, cls=cls, setup=setup)
    size = '%d by %d' % (ny, nx)
    if r.failed or r.st is None:
        ctx.open('range', 'GridDiagnostics, ' + size, r.failed or 'ctor')
        return
    ctx.analysed(r)
    ip, me = r.ip, r.env['self']
    # 1. saving: exactly the existing positions
    full = r.st
    curves = {}
    bad, opn, n = {}, None, 0
    for y, x in itertools.product(range(-1, ny + 2), range(-1, nx + 2)):
        s = full.copy()
        fy = ip.sym(dict(kind='array', rank=1, dtype='float64'),
                    mk('param', 'fy%d,%d' % (y, x)))
        dr = ip.sym(dict(kind='array', rank=1, dtype='float64'),
                    mk('param', 'dr%d,%d' % (y, x)))
        acc, excs, v = attempt(ip, put, [me, const(y), const(x), fy, dr], s)
        n += 1
        good = 0 <= y < ny and 0 <= x < nx
        judge(bad, 'save_diagnostic', good, acc, excs, y, x, size)
        if good and acc:
            full = s
            curves[y, x] = (fy, dr)
    # 2. looking up what was saved
    for y, x in itertools.product(range(-1, ny + 2), range(-1, nx + 2)):
        acc, excs, v = attempt(ip, get, [me, const(y), const(x)],
                               full.copy())
        n += 1
        good = 0 <= y < ny and 0 <= x < nx
        judge(bad, 'get_diagnostic', good, acc, excs, y, x, size)
        if good and acc and (y, x) in curves:
            e = same_curves(ip, v, curves[y, x], full)
            if e is False:
                bad['usable', 'GridDiagnostics.get_diagnostic'] = \
                    'position (%d, %d) of %s returns another entry' % (
                        y, x, size)
    # 3. after extension every position of the larger grid is found
    s = full.copy()
    acc, excs, v = attempt(ip, ext, [me], s)
    if acc:
        ey, ex = 2 * ny - 1, 2 * nx - 1
        mapping = []
        for axis, (m, k) in enumerate(((ey, ny), (ex, nx))):
            row = []
            for e in range(-1, m + 2):
                at = [ny - 1, nx - 1]
                at[axis] = e
                acc, excs, v = attempt(
                    ip, get, [me, const(at[0]), const(at[1])], s.copy())
                n += 1
                good = 0 <= e < m
                validated = 'ValueError' not in excs
                if good and not validated:
                    bad['refuses', 'GridDiagnostics.get_diagnostic, '
                        'extended'] = 'position %d of %d is refused' % (e, m)
                if not good:
                    if acc or validated:
                        bad['accepts', 'GridDiagnostics.get_diagnostic, '
                            'extended'] = 'position %d of %d passes ' \
                            'validation' % (e, m)
                    continue
                row.append(found(ip, v, curves, axis, s) if acc else 'none')
            mapping.append(row)
        check_mapping(bad, mapping, ny, nx)
    for (k, w), d in sorted(bad.items()):
        ctx.bad(k, w, d, get.node.lineno)
    if not bad:
        ctx.ok('range', 'GridDiagnostics, ' + size, '%d lookups' % n)


def check_mapping(bad, mapping, ny, nx):
    for axis, (row, k) in enumerate(zip(mapping, (ny, nx))):
        want = [abs(e - (k - 1)) for e in range(2 * k - 1)]
        if any(x == '?' for x in row):
            continue
        if row != want:
            # one construct per way of going wrong
            shift = [abs(e - k) for e in range(2 * k - 1)]
            off = [x if x < k else 'none' for x in shift]
            how = 'entry abs(e - n) instead of abs(e - (n - 1))' if all(
                a == b or a == 'none' for a, b in zip(row, off)) else \
                'entries %s instead of %s' % (row, want)
            bad['usable', 'GridDiagnostics.get_diagnostic, extended: ' +
                how] = 'the extended positions of %d rows look up %s ' \
                'instead of %s' % (k, row, want)


def attempt(ip, f, args, st):
    """(returns?, exceptions, value); st is updated to the normal exit."""
    v, raised = call_in(ip, f, args, {}, st)
    excs = set()
    for o in raised:
        excs |= set(o.excs or ['?'])
    return v is not None, excs, v


def judge(bad, name, good, acc, excs, y, x, size):
    w = 'GridDiagnostics.' + name
    if good and not acc:
        bad['refuses', w] = '(%d, %d) of %s is refused' % (y, x, size)
    if not good and acc:
        bad['accepts', w] = '(%d, %d) of %s is accepted' % (y, x, size)
    if not good and not acc and any(e in LEAK for e in excs) and \
            'ValueError' not in excs:
        bad['leaks', w] = '(%d, %d) of %s raises %s' % (
            y, x, size, '/'.join(sorted(excs)))


def same_curves(ip, v, want, st):
    seq = ip.exact_seq(v, st)
    if seq is None or len(seq) != 2:
        return None
    for a, w in zip(seq, want):
        a = strip_all(ip.den(a, st))
        w = strip_all(ip.den(w, st))
        if a is w:
            continue
        return False if a.op in ('param', 'const') else None
    return True


def found(ip, v, curves, axis, st):
    for (y, x), w in curves.items():
        if same_curves(ip, v, w, st) is True:
            return (y, x)[axis]
    return '?'
