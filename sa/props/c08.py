"""Shape and element analysis of value-flow terms. Every operation that
produces grid coordinates (constructing, extending, loading grid parameters;
constructing and loading a grid) is interpreted once with symbolic coordinates;
the terms of the final coordinates and of everything derived from them are then
evaluated shape by shape and element by element for coordinate vectors that do
and do not start at the origin. Derived state must be the function of the final
coordinates that it is documented to be; a term built from coordinates that
have since been replaced has another shape or other elements."""
import itertools
from ..common import *
from ..located import *

COORD = ('dy', 'dx', 'rf', 'rf_array')
CUBES = ('disk_radius', 'inclination', 'tilt', 'fx_map', 'fy_map')
NY, NX, NR = 2, 3, 3
X0 = {'dy': (Q(0), Q(4)), 'dx': (Q(0), Q(1), Q(2))}
X1 = {'dy': (Q(1), Q(5)), 'dx': (Q(-1), Q(0), Q(1))}
# next to nothing is not nothing
NEAR = {'dy': (Q(1, 10 ** 12), Q(10 ** 9)), 'dx': (Q(1, 10 ** 12), Q(1), Q(2))}
RF = (Q(1), Q(2), Q(3))


def check(ctx):
    repo = ctx.repo
    par = repo.classes.get('GridParameters')
    grid = repo.classes.get('ShallotGrid')
    ctx.anchor(par is not None and grid is not None, 'grid classes')
    constructed(ctx, repo, par)
    extended(ctx, repo, par)
    loaded(ctx, repo, par)
    for name in ('__init__', 'load'):
        whole_grid(ctx, repo, grid, name)


# ------------------------------------------------------------------ tables
def vectors(zero_y, zero_x):
    pick = {True: X0, False: X1, None: NEAR}
    v = {'dy': pick[zero_y]['dy'], 'dx': pick[zero_x]['dx'], 'rf': RF,
         'rf_array': RF[::-1] + RF[1:]}
    return v


def array_of(nm, vec):
    if nm == 'dy':
        return (len(vec), 1, 1), lambda ix: vec[ix[0]]
    if nm == 'dx':
        return (1, len(vec), 1), lambda ix: vec[ix[1]]
    return (len(vec),), lambda ix: vec[ix[0]]


class Grid(Located):
    """Located, with the attributes of grid parameters that were there."""

    def __init__(self, val, arrays, before=None, flags=()):
        Located.__init__(self, val, arrays)
        self.before = before
        self.flags = dict(flags)

    def ev0(self, t):
        o, a = t.op, t.args
        if self.before is not None:
            v = self.before
            if o == 'item' and a[0].op == 'fld' and is_int(a[1]) and \
                    a[0].args[1] in ('grid_shape', 'slice_shape'):
                s = (len(v['dy']), len(v['dx']), len(v['rf_array']))
                if a[0].args[1] == 'slice_shape':
                    s = s[:2]
                return Q(s[cval(a[1])])
            if o == 'fld' and a[1] == 'extendable':
                return v['dy'][0] == 0 and v['dx'][0] == 0
        if o == 'exists':
            if t in self.flags:
                return self.flags[t]
        return Located.ev0(self, t)

    def dims(self, t):
        if t.op == 'fld' and self.before is not None and t.args[1] in (
                'grid_shape', 'slice_shape'):
            v = self.before
            s = (len(v['dy']), len(v['dx']), len(v['rf_array']))
            return s if t.args[1] == 'grid_shape' else s[:2]
        return Located.dims(self, t)


class Tab:
    """Obligations of one operation over all rows."""

    def __init__(self, ctx, where, line):
        self.ctx, self.where, self.line = ctx, where, line
        self.n, self.bad, self.und = 0, {}, {}
        self.seen = {}

    def check(self, what, get, want, text):
        self.n += 1
        self.seen[what] = self.seen.get(what, 0) + 1
        try:
            got = get()
        except Raises as e:
            self.bad.setdefault(what, '%s: %s' % (text, e))
            return
        except Unknown as e:
            self.und.setdefault(what, '%s: %s' % (text, e))
            return
        if not same(got, want):
            self.bad.setdefault(what, '%s: %s instead of %s' % (
                text, word(got), word(want)))

    def done(self):
        for what in sorted(self.seen):
            w = '%s, %s' % (self.where, what)
            if what in self.bad:
                self.ctx.bad('current', w, self.bad[what], self.line)
            elif what in self.und:
                self.ctx.open('current', w, self.und[what])
            else:
                self.ctx.ok('current', w, '%d values' % self.seen[what])


def same(a, b):
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if nan(a) or nan(b):
        return nan(a) and nan(b)
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-12 * (1 + abs(b))


def word(x):
    if isinstance(x, (tuple, list)):
        return '(%s)' % ', '.join(map(word, x))
    return 'NaN' if nan(x) else str(float(x) if isinstance(x, Q) and
                                    x.denominator != 1 else x)


def flat(pt, t):
    s = pt.shape(t)
    return tuple(pt.at(t, i) for i in pt.indices(s))


def leaves_of(t):
    return {x for x in subterms(t) if x.op == 'file0' or
            x.op == 'fld' and x.args[1] in COORD}


# -------------------------------------------------------------- parameters
def derived(tab, ip, st, ref, pt, text):
    """Everything grid parameters derive from their vectors."""
    get = lambda nm: strip_all(ip.den(ip.get_field(ref.args[0], nm, st), st))
    try:
        dy, dx = flat(pt, get('dy')), flat(pt, get('dx'))
        rf = flat(pt, get('rf_array'))
    except (Unknown, Raises) as e:
        tab.check('coordinates', lambda: raise_(e), None, text)
        return None
    tab.check('grid_shape', lambda: dims_of(pt, get('grid_shape')),
              (len(dy), len(dx), len(rf)), text)
    tab.check('slice_shape', lambda: dims_of(pt, get('slice_shape')),
              (len(dy), len(dx)), text)
    tab.check('extendable', lambda: truth(pt.ev(get('extendable'))),
              dy[0] == 0 and dx[0] == 0, text)
    return dy, dx, rf


def dims_of(pt, t):
    if t.op == 'fld':
        return pt.dims(t)
    while t.op == 'gamma':
        t = t.args[1 if truth(pt.ev(t.args[0])) else 2]
    if t.op in ('tuple', 'list'):
        return tuple(num(pt.ev(x)) for x in t.args)
    return pt.dims(t)


def raise_(e):
    raise e


def constructed(ctx, repo, par):
    f = par.find('__init__')
    tab = Tab(ctx, 'GridParameters()', f.node.lineno)
    r = run(repo, f, cls=par)
    if r.failed or r.st is None:
        ctx.open('current', 'GridParameters()', r.failed or 'no exit')
        return
    ctx.analysed(r)
    names = [a.arg for a in f.node.args.args][1:]
    ctx.anchor(len(names) == 8, 'parameters of GridParameters')
    for x, y in itertools.product((Q(0), Q(-1), Q(1)), repeat=2):
        for nx, ny, nr in ((3, 2, 4), (2, 5, 1), (1, 1, 2)):
            row = [x, Q(2), Q(nx), y, Q(4), Q(ny), Q(3), Q(nr)]
            val = {r.env[k]: v for k, v in zip(names, row)}
            pt = Grid(val, {})
            if consistent(r.st, pt) is False:
                continue
            derived(tab, r.ip, r.st, r.env['self'], pt,
                    'x from %s (%d), y from %s (%d), %d rf' % (
                        x, nx, y, ny, nr))
    tab.done()


def extended(ctx, repo, par):
    f = par.find('extend_grid')
    ctx.anchor(f, 'GridParameters.extend_grid')
    tab = Tab(ctx, 'GridParameters.extend_grid', f.node.lineno)
    r = run(repo, f, cls=par)
    if r.failed or r.st is None:
        ctx.open('current', tab.where, r.failed or 'no exit')
        return
    ctx.analysed(r)
    ip, me = r.ip, r.env['self']
    v = vectors(True, True)
    arrays = {strip_all(ip.den(ip.get_field(me.args[0], nm, r.st0), r.st0)):
              array_of(nm, v[nm]) for nm in COORD}
    pt = Grid({}, arrays, v)
    got = derived(tab, ip, r.st, me, pt, 'extending %d x %d' % (NY, NX))
    if got is not None:
        for nm, g in zip(('dy', 'dx'), got):
            tab.check('mirrored ' + nm, lambda: g, mirror(v[nm]),
                      'extending %s' % word(v[nm]))
    for zy, zx in ((False, True), (True, False), (False, False)):
        pt = Grid({}, arrays, vectors(zy, zx))
        tab.check('refusal', lambda: agrees(r.st, pt), False,
                  'extending dy from %d, dx from %d' % (not zy, not zx))
    tab.done()


def agrees(st, pt):
    """Is this exit reached in the row? Undecided raises."""
    out = True
    for t, p in st.facts.items():
        try:
            v = pt.ev(t)
        except (Unknown, Raises):
            continue
        if isinstance(v, bool) and v != p:
            return False
    return out


def mirror(v):
    return tuple(-x for x in v[:0:-1]) + tuple(v)


def loaded(ctx, repo, par):
    f = par.find('load')
    ctx.anchor(f, 'GridParameters.load')
    tab = Tab(ctx, 'GridParameters.load', f.node.lineno)
    r = run(repo, f, cls=par)
    if r.failed or r.st is None or r.value is None or r.value.op != 'ref':
        ctx.open('current', tab.where, r.failed or 'no object returned')
        return
    ctx.analysed(r)
    for zy, zx in itertools.product((True, False, None), repeat=2):
        v = vectors(zy, zx)
        arrays = file_arrays(r.ip, r.value, r.st, v)
        derived(tab, r.ip, r.st, r.value, Grid({}, arrays),
                'file with dy from %s, dx from %s' % (v['dy'][0],
                                                      v['dx'][0]))
    tab.done()


def file_arrays(ip, ref, st, v):
    arrays = {}
    for nm in COORD:
        t = strip_all(ip.den(ip.get_field(ref.args[0], nm, st), st))
        for x in leaves_of(t):
            if x.op == 'file0' and all(
                    not contains(c, lambda y: y is x)
                    for c in conditions(t)) or x.op == 'fld' and \
                    x.args[1] == nm:
                arrays.setdefault(x, array_of(nm, v[nm]))
            elif x.op == 'file0' and nm in show(x, 6).rsplit('/', 1)[-1]:
                arrays.setdefault(x, array_of(nm, v[nm]))
    return arrays


def conditions(t):
    return {x.args[0] for x in subterms(t) if x.op == 'gamma'}


# -------------------------------------------------------------------- grid
def whole_grid(ctx, repo, grid, name):
    f = grid.find(name)
    ctx.anchor(f, 'ShallotGrid.' + name)
    where = 'ShallotGrid.load' if name == 'load' else 'ShallotGrid()'
    tab = Tab(ctx, where, f.node.lineno)
    r = run(repo, f, cls=grid)
    if r.failed or r.st is None:
        ctx.open('current', where, r.failed or 'no exit')
        return
    ctx.analysed(r)
    ip, st = r.ip, r.st
    me = r.value if name == 'load' else r.env['self']
    if me is None or me.op != 'ref':
        ctx.open('current', where, 'grid not resolved')
        return
    par = ip.get_field(me.args[0], 'parameters', st)
    if par.op != 'ref':
        ctx.open('current', where, 'parameters not resolved')
        return
    for zy, zx, files, row in itertools.product(
            (True, False, None), (True, False, None), (False, True),
            (None, 0, 1)):
        if name == '__init__' and (files or row is not None):
            continue
        v = vectors(zy, zx)
        ext = zy and zx
        text = 'coordinates from (%s, %s)' % (v['dy'][0], v['dx'][0])
        if row is not None:
            text += ', unfinished from row %d' % row
        pt = row_of(r, me, par, v, files, row)
        got = derived(tab, ip, st, par, pt, text)
        if got is None:
            continue
        want = (mirror(v['dy']), mirror(v['dx'])) if ext else (
            v['dy'], v['dx'])
        for nm, g, w in zip(('dy', 'dx'), got, want):
            tab.check('final ' + nm, lambda: g, w, text)
        dependent(tab, ip, st, me, pt, got, ext, text)
        diagnostics(tab, ip, st, me, pt, ext, text, files)
    tab.done()


def row_of(r, me, par, v, files, row):
    ip, st = r.ip, r.st
    arrays = file_arrays(ip, par, st, v)
    terms = [strip_all(ip.den(ip.get_field(me.args[0], a, st), st))
             for a in ('circular_radius', 'shear')]
    scalars, flags, cubes = set(), {}, set()
    todo = list(terms)
    for a in CUBES:
        for x in branches(ip.get_field(me.args[0], a, st)):
            if x.op == 'ref':
                todo.append(strip_all(ip.den(ip.get_field(
                    x.args[0], 'data', st), st)))
    d = ip.get_field(me.args[0], 'diagnostics', st)
    for x in branches(d):
        if x.op == 'ref':
            todo.append(strip_all(ip.den(ip.get_field(
                x.args[0], '_extended', st), st))) if has(
                    ip, x, '_extended', st) else None
    for g in [d] + [ip.get_field(me.args[0], a, st) for a in CUBES]:
        todo += [c for c in conditions(g)]
    unfinished = set()
    for t in todo + list(st.facts):
        for x in subterms(t):
            if x.op == 'item' and x.args[0].op == 'file0' and is_int(
                    x.args[1]) and x.args[0] not in arrays:
                scalars.add(x.args[0])
            elif x.op == 'file0' and x not in arrays:
                cubes.add(x)
            elif x.op == 'exists':
                flags[x] = files
    for x in scalars:
        cubes.discard(x)
    # the checkpoint's marker: the scalar file the construction resumes at
    resume = {x for x in scalars if any(
        contains(c, lambda y: y is x) for a in CUBES for c in
        conditions(ip.get_field(me.args[0], a, st)))}
    for x in scalars:
        k = Q(row or 0) if x in resume else True
        arrays[x] = ((1,), lambda ix, k=k: k)
    for x in resume:
        for e in flags:
            if same_path(e.args[0], x.args[0]):
                flags[e] = row is not None
    shape = (len(v['dy']), len(v['dx']), len(v['rf_array']))
    for x in cubes:
        arrays[x] = (shape, lambda ix, x=x: Tag(x, ix))
    return Grid({}, arrays, v, flags)


def has(ip, ref, name, st):
    o = ip.obj(ref.args[0], st)
    return o is not None and o.fields is not None and name in o.fields


def same_path(a, b):
    return a is b or show(a, 9) == show(b, 9)


def dependent(tab, ip, st, me, pt, got, ext, text):
    dy, dx, rf = got
    fieldof = lambda a: strip_all(ip.den(ip.get_field(
        me.args[0], a, st), st))
    cr, sh = fieldof('circular_radius'), fieldof('shear')
    tab.check('circular_radius', lambda: (pt.shape(cr), flat(pt, cr)), (
        (len(dy), 1, 1), tuple(root(Q(1, 4) + y * y) for y in dy)), text)
    want = [[Q(0) if x == 0 and y == 0 else NAN if y == 0 else -x / y
             for x in dx] for y in dy]
    tab.check('shear', lambda: (pt.shape(sh), flat(pt, sh)), (
        (len(dy), len(dx), 1), tuple(v for w in want for v in w)), text)
    for a in CUBES:
        p = ip.get_field(me.args[0], a, st)
        tab.check(a, lambda: cube_shape(ip, st, pt, p),
                  (len(dy), len(dx), len(rf)), text)
    p = ip.get_field(me.args[0], 'diagnostic_map', st)
    tab.check('diagnostic_map', lambda: cube_shape(ip, st, pt, p),
              (len(dy), len(dx), len(rf)), text)


def choose(pt, v):
    while v.op == 'gamma':
        v = v.args[1 if truth(pt.ev(v.args[0])) else 2]
    return v


def cube_shape(ip, st, pt, p):
    p = choose(pt, p)
    if p.op != 'ref':
        raise Unknown('property not resolved')
    return pt.shape(strip_all(ip.den(ip.get_field(
        p.args[0], 'data', st), st)))


def diagnostics(tab, ip, st, me, pt, ext, text, files):
    d = ip.get_field(me.args[0], 'diagnostics', st)
    if d.op != 'gamma':
        return
    for x in branches(d):
        if x.op != 'ref' or not has(ip, x, '_extended', st):
            continue
        t = strip_all(ip.den(ip.get_field(x.args[0], '_extended', st), st))
        for c in conditions(d):
            if not (contains(c, lambda y: y.op == 'param')):
                continue
            pt.val.setdefault(c, True)
            pt.memo.clear()
        try:
            if choose(pt, d) is not x:
                continue
        except (Unknown, Raises):
            continue
        want = ext or files     # a file may say they were extended before
        if files and not ext:
            continue
        tab.check('diagnostics', lambda: truth(pt.ev(t)), want, text)
