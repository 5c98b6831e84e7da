"""Ring patches and the ring system plot, evaluated. get_patch and plot are
interpreted; the vertices handed to the matplotlib Path are evaluated with the
unit circle of the Ellipse patch given as points on a circle, for rings of
several sizes, inclinations, tilts and centres. They must lie on the projected
outer and inner ellipses, run round them in opposite directions (so that the
inner one is a hole) and carry the codes of both; opacity and colour are those
of the ring. In a plot every patch is about the given centre and the axis
limits enclose all of them."""
import math
from ..common import *
from ..located import Located, Tag, Unknown, Raises, Q, num, nan, NAN
from ..pointwise import truth
from .c03 import Table
from .c16 import read

EPS = 1e-9
UNIT = [(1, 0), (Q(4, 5), Q(3, 5)), (0, 1), (Q(-5, 13), Q(12, 13)), (-1, 0),
        (Q(-3, 5), Q(-4, 5)), (0, -1), (Q(12, 13), Q(-5, 13))]
PARTS = ('inner_radius', 'outer_radius', 'transmission', 'inclination',
         'tilt')
#       inner, outer, transmission, inclination, tilt
RINGS = ((1, 2, Q(1, 4), 0, 0), (1, 3, 0, 60, 0), (Q(1, 2), 2, 1, 60, 30),
         (1, 2, Q(1, 2), 35, -120), (2, 5, Q(3, 4), 80, 90), (0, 4, 0, 20, 45),
         (3, 4, Q(9, 10), 90, 10), (1, 2, Q(1, 10), 70, 180),
         (Q(101, 100), Q(1033, 500), Q(2347, 10000), Q(2517, 100),
          Q(1237, 100)), (10, 2500, Q(1, 1000), Q(897, 10), Q(-457, 10)))
CENTRES = ((0, 0), (3, -2), (Q(-1, 2), 7))
TRIG = {'np.sin': math.sin, 'np.cos': math.cos, 'np.tan': math.tan,
        'np.arctan': math.atan, 'np.arcsin': math.asin,
        'np.arccos': math.acos, 'np.rad2deg': math.degrees,
        'np.deg2rad': math.radians, 'math.sin': math.sin,
        'math.cos': math.cos, 'math.radians': math.radians}


class Plane(Located):
    def ev0(self, t):
        if t.op in TRIG and len(t.args) == 1:
            x = num(self.ev(t.args[0]))
            try:
                return x if nan(x) else TRIG[t.op](float(x))
            except ValueError:
                return NAN
        if t.op == 'pi':
            return math.pi
        return Located.ev0(self, t)


def check(ctx):
    repo = ctx.repo
    ring, system = repo.classes.get('Ring'), repo.classes.get('RingSystem')
    ctx.anchor(ring is not None and system is not None,
               'classes Ring and RingSystem')
    patch(ctx, repo, ring)
    for n in range(4):
        plot(ctx, repo, ring, system, n)


def given(val, ip, ref, st, values):
    """The values of a ring, as its public attributes are stored."""
    for nm, v in zip(PARTS, values):
        t = strip_all(read(ip, ref, nm, st))
        if t.op in ('const', 'opaque'):
            raise Unknown('stored ' + nm)
        val[t] = Q(v)


def circles(t):
    """Vertices of matplotlib's unit circle among the subterms."""
    for x in subterms(t):
        if x.op == 'attr' and x.args[1] in ('vertices', 'codes'):
            p = x.args[0]
            if p.op == 'opaque' and p.args[0] == 'm.get_path' and any(
                    y.op == 'extcall' and y.args[0] in (
                        'matplotlib.patches.Ellipse',
                        'matplotlib.patches.Circle') for y in p.args
                    if isinstance(y, T)) or p.op == 'extcall' and \
                    p.args[0] == 'matplotlib.path.Path.unit_circle':
                yield x


class Outline:
    """A PathPatch term: its vertices, codes and keywords."""

    def __init__(self, t):
        self.t = t
        self.ok = t.op == 'extcall' and t.args[0] == \
            'matplotlib.patches.PathPatch' and len(t.args) > 1
        if not self.ok:
            return
        p = t.args[1]
        self.kw = {x.args[0]: x.args[1] for x in t.args[2:] if x.op == 'kw'}
        self.ok = p.op == 'extcall' and p.args[0] == 'matplotlib.path.Path'
        if not self.ok:
            return
        pos = [x for x in p.args[1:] if x.op != 'kw']
        kw = {x.args[0]: x.args[1] for x in p.args[1:] if x.op == 'kw'}
        self.vertices = pos[0] if pos else kw.get('vertices')
        self.codes = pos[1] if len(pos) > 1 else kw.get('codes')
        self.ok = self.vertices is not None

    def place(self, val):
        arrays = {}
        for x in circles(self.t):
            if x.args[1] == 'vertices':
                arrays[x] = (len(UNIT), 2), lambda ix: Q(UNIT[ix[0]][ix[1]])
            else:
                arrays[x] = (len(UNIT),), lambda ix: Tag('code', ix[0])
        return Plane(val, arrays)


def judge(pt, out, values, centre, color, tabs):
    shape, hole, codes, look = tabs
    inner, outer, tau, inc, tilt = values
    text = 'ring %s..%s, inclination %s, tilt %s, centre (%s, %s)' % (
        inner, outer, inc, tilt, centre[0], centre[1])
    n = len(UNIT)
    try:
        s = pt.shape(out.vertices)
        if len(s) != 2 or s[1] != 2:
            raise Unknown('shape of the vertices')
        rows = [(float(num(pt.at(out.vertices, (k, 0)))),
                 float(num(pt.at(out.vertices, (k, 1)))))
                for k in range(s[0])]
        if s[0] != 2 * n:
            raise Unknown('other vertices than two ellipses')
    except Unknown as e:
        shape.row(None, str(e))
        hole.row(None, str(e))
        rows = None
    except Raises as e:
        shape.row(False, '%s: raises (%s)' % (text, e))
        rows = None
    if rows:
        c, d = math.cos(math.radians(tilt)), math.sin(math.radians(tilt))
        flat = math.cos(math.radians(inc))
        local = [((x - centre[0]) * c + (y - centre[1]) * d,
                  (y - centre[1]) * c - (x - centre[0]) * d)
                 for x, y in rows]
        halves = [local[:n], local[n:]]
        if fits(halves[0], inner, flat) and inner != outer:
            halves.reverse()
        for h, r, nm in zip(halves, (outer, inner), ('outer', 'inner')):
            shape.row(fits(h, r, flat), '%s: the %s edge runs through %s, '
                      'which is not on an ellipse of axes %s, %.4g' % (
                          text, nm, ', '.join('(%.3g, %.3g)' % p for p in h
                                              if not on(p, r, flat)),
                          r, r * flat))
        if inner and flat > EPS:
            hole.row(area(halves[0]) * area(halves[1]) < 0, '%s: both edges '
                     'run in the same direction' % text)
    try:
        if out.codes is None:
            raise Unknown('no codes')
        got = [pt.at(out.codes, (k,)) for k in range(pt.shape(out.codes)[0])]
        codes.row(got == [Tag('code', k) for k in range(n)] * 2, text +
                  ': other path codes than those of two ellipses')
    except Unknown as e:
        codes.row(None, str(e))
    except Raises as e:
        codes.row(False, '%s: raises (%s)' % (text, e))
    try:
        a = out.kw.get('alpha')
        if a is None:
            raise Unknown('opacity set elsewhere')
        a = float(num(pt.ev(a)))
        look.row(abs(a - float(1 - tau)) < EPS, '%s: opacity %s of a ring of '
                 'transmission %s' % (text, a, float(tau)))
    except Unknown as e:
        look.row(None, str(e))
    except Raises as e:
        look.row(False, '%s: raises (%s)' % (text, e))
    f = [out.kw[k] for k in ('facecolor', 'fc', 'color') if k in out.kw]
    if f:
        f = strip_all(f[0])
        look.row(True if f is color else False if f.op in (
            'param', 'const') else None, text + ': not the given colour')


def on(p, r, flat):
    if abs(flat) < EPS or r == 0:
        return abs(p[1]) < 1e-6 and abs(p[0]) <= r + 1e-6
    return abs((p[0] / r) ** 2 + (p[1] / (r * flat)) ** 2 - 1) < 1e-6


def fits(half, r, flat):
    return all(on(p, r, flat) for p in half) and (
        r == 0 or max(p[0] for p in half) > 0.8 * r)


def area(ps):
    return sum(p[0] * q[1] - p[1] * q[0]
               for p, q in zip(ps, ps[1:] + ps[:1]))


def tables(ctx, where, line):
    return [Table(ctx, '%s: %s' % (where, x), line) for x in (
        'the edges are the projected ellipses', 'the inner edge bounds a '
        'hole', 'the codes are those of two ellipses',
        'opacity and colour')]


def patch(ctx, repo, ring):
    f = find_func(repo, 'Ring.get_patch')
    r = run(repo, f, cls=ring)
    where = 'Ring.get_patch'
    if r.failed or r.st is None:
        ctx.open('shape', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    out = Outline(r.ip.den(r.value, r.st))
    if not out.ok:
        ctx.open('shape', where, 'not a patch of a path')
        return
    tabs = tables(ctx, where, f.node.lineno)
    ps = [a.arg for a in f.node.args.args][1:4]
    for values in RINGS:
        for centre in CENTRES:
            val = {r.env[p]: Q(c) for p, c in zip(ps, centre)}
            try:
                given(val, r.ip, r.env['self'], r.st0, values)
            except Unknown as e:
                tabs[0].row(None, str(e))
                continue
            judge(out.place(val), out, values, centre, r.env[ps[2]], tabs)
    for t in tabs:
        t.done('shape')


# -------------------------------------------------------------------- plot
ALLOWED = {'TypeError', 'ValueError', 'InvalidBoundsError'}


def plot(ctx, repo, ring, system, n):
    f = find_func(repo, 'RingSystem.plot')
    where = 'RingSystem.plot, %d rings' % n
    hold = {}

    def setup(ip, st, env):
        me = env['self']
        els = [ip.sym(dict(kind='inst', cls=ring), mk('root', 'ring %d' % k))
               for k in range(n)]
        o = ip.obj(me.args[0], st).clone()
        o.fields['rings'] = ip.new_arr(mk('list', *els), st)
        st.heap[me.args[0]] = o
        hold.update(me=me, els=els)
    r = run(repo, f, cls=system, setup=setup)
    ps = [a.arg for a in f.node.args.args][1:5]
    always = sorted({e for o in r.raises for e in o.excs or ()} - ALLOWED) \
        if r.st is None and not r.failed else []
    if always:
        ctx.bad('plot', where, 'never succeeds: ' + '/'.join(always),
                f.node.lineno)
        return
    if r.failed or r.st is None:
        ctx.open('plot', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    ip, st = r.ip, r.st
    ax = next((x for x in branches(r.env[ps[0]]) if x is not NONE), NONE)
    calls = [n for n in ip.nodes if n.kind == 'extmeth' and
             any(x is ax for x in branches(n.data[0]))]
    line = f.node.lineno
    drawn = []                  # (call, ring patch or None, disc or None)
    for c in calls:
        if c.data[1] == 'add_patch' and not c.loops and c.data[2]:
            x = ip.den(c.data[2][0], st)
            o = Outline(x)
            drawn.append((c, o if o.ok else None,
                          x if x.op == 'extcall' and x.args[0] ==
                          'matplotlib.patches.Circle' else None))
    other = [c for c in calls if c.loops or c.data[1] in (
        'add_collection', 'add_artist', 'plot', 'fill', 'fill_between')]
    murky = bool(other) or any(not o and not d for _, o, d in drawn)
    if murky:
        ctx.open('plot', where + ': patches', 'added in another way')
    tabs = tables(ctx, where, line)
    disc = Table(ctx, where + ': the disc of the planet', line)
    limits = Table(ctx, where + ': the limits enclose everything', line)
    every = Table(ctx, where + ': patches', line)
    for k0 in range(len(RINGS)):
        centre = CENTRES[k0 % len(CENTRES)]
        chosen = system_of(n, k0)
        val = {r.env[p]: Q(c) for p, c in zip(ps[1:3], centre)}
        val[mk('isnone', ax)] = False
        planet = Q(1, 2) if k0 % 3 else Q(203, 2)
        try:
            for e, v in zip(hold['els'], chosen):
                given(val, ip, e, r.st0, v)
                val[e] = Tag('ring', hold['els'].index(e))
            val[strip_all(read(ip, hold['me'], 'planet_radius',
                               r.st0))] = planet
            for nm, v in zip(PARTS[3:], RINGS[k0][3:]):
                val[strip_all(read(ip, hold['me'], nm, r.st0))] = Q(v)
        except Unknown as e:
            limits.row(None, str(e))
            continue
        pt = Plane(val, {})
        outlines, discs = [], []
        for c, o, d in drawn:
            v = reached(pt, c, hold)
            if v is not False and (o or d):
                (outlines if o else discs).append((o or d, v))
        if not murky:
            for kind, seq, m in (('ring patches', outlines, n),
                                 ('discs', discs, 1)):
                sure = sum(v is True for _, v in seq)
                every.row(False if sure > m or len(seq) < m else
                          True if sure == len(seq) else None,
                          'rings %s: %d %s are drawn' % ('; '.join(
                              '%s..%s, transmission %s' % v[:3]
                              for v in chosen), len(seq), kind))
        outlines = [o for o, _ in outlines]
        if not murky and len(outlines) == n:
            for o, k in zip(outlines, whose(outlines, n)):
                v = chosen[k]
                judge(o.place(val), o, v, centre, r.env[ps[3]], tabs)
        for d, _ in discs:
            disc.row(*circle(pt, d, centre, planet))
        size = max([planet] + [v[1] for v in chosen])
        for way, c in zip('xy', centre):
            limits.row(*enclosed(ip, st, pt, calls, way, c, size))
    for t in tabs if n else ():
        t.done('plot')
    disc.done('plot')
    every.done('plot')
    limits.done('plot')


def reached(pt, call, hold):
    """Whether the rings let the call happen: True, False or None."""
    mine = set(hold['els']) | {hold['me']} | {
        mk('root', 'ring %d' % k) for k in range(len(hold['els']))}
    out = True
    for c, b in call.pc:
        if not any(x in mine for x in subterms(c)):
            continue
        try:
            if truth(pt.ev(c)) is not b:
                return False
        except (Unknown, Raises):
            out = None
    return out


def whose(outlines, n):
    """The ring each patch is of (patches may be added in any order)."""
    out = []
    for o in outlines:
        ks = [k for k in range(n)
              if mk('root', 'ring %d' % k) in set(subterms(o.vertices))]
        out.append(ks[0] if len(ks) == 1 else None)
    return out if sorted(out, key=str) == list(range(n)) else range(n)


def system_of(n, k):
    """n rings without overlap, of one inclination and tilt"""
    inc, tilt = RINGS[k][3:]
    out, at = [], Q(1) + k
    for j in range(n):
        out.append((at, at + 1 + j, RINGS[(k + j) % len(RINGS)][2], inc,
                    tilt))
        at += 2 + 2 * j
    return out


def circle(pt, t, centre, radius):
    pos = [x for x in t.args[1:] if x.op != 'kw']
    kw = {x.args[0]: x.args[1] for x in t.args[1:] if x.op == 'kw'}
    xy = pos[0] if pos else kw.get('xy')
    rad = pos[1] if len(pos) > 1 else kw.get('radius')
    if xy is None or rad is None:
        return None, 'circle'
    try:
        got = [num(pt.at(xy, (0,))), num(pt.at(xy, (1,))), num(pt.ev(rad))]
    except Unknown as e:
        return None, str(e)
    except Raises as e:
        return False, 'raises (%s)' % e
    want = list(centre) + [radius]
    return got == want, 'centre %s, %s and radius %s instead of %s, %s and ' \
        '%s' % tuple(float(x) for x in got + want)


def enclosed(ip, st, pt, calls, way, c, size):
    """Do the last limits set along this axis hold c - size .. c + size?"""
    lim = None
    for n in calls:
        name, args, kw = n.data[1], n.data[2], n.data[3]
        if name == 'set_%slim' % way:
            lim = list(args) or [kw[k] for k in ('left', 'bottom') if
                                 k in kw] + [kw[k] for k in (
                                     'right', 'top') if k in kw]
        elif name == 'set' and way + 'lim' in kw:
            lim = [kw[way + 'lim']]
        elif name in ('axis', 'autoscale', 'autoscale_view', 'relim',
                      'margins', 'invert_%saxis' % way):
            return None, 'limits by ' + name
    if lim is None:
        return None, 'no limits set'
    try:
        if len(lim) == 1:
            d = ip.den(lim[0], st)
            lo, hi = [float(num(pt.at(d, (k,)))) for k in (0, 1)]
        else:
            lo, hi = [float(num(pt.ev(ip.den(x, st)))) for x in lim]
    except Unknown as e:
        return None, str(e)
    except Raises as e:
        return False, 'raises (%s)' % e
    return lo <= c - size and hi >= c + size, '%s from %s to %s does not ' \
        'enclose %s to %s' % (way, lo, hi, float(c - size), float(c + size))
