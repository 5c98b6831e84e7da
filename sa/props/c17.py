"""Recurrence evaluation for splitting and merging. The term of the array of
rings at the normal exit (a recurrence over the rings present before) is
unfolded for a finite table of ring systems that exhausts what the two
operations may distinguish: touching edges, gaps within and beyond the
tolerance, equal and different transmissions, every order of these over up to
four rings; all division counts up to four over up to three rings. The ringlet
edges are compared exactly (rational arithmetic), so an edge formula that is
right for the table is right for the polynomial it is."""
import itertools
import os
from ..common import *
from ..ledger import *
from .c03 import Table
from .c16 import read

PARTS = ('inner_radius', 'outer_radius', 'transmission')


def check(ctx):
    repo = ctx.repo
    system, ring = repo.classes.get('RingSystem'), repo.classes.get('Ring')
    ctx.anchor(system is not None and ring is not None,
               'classes RingSystem and Ring')
    for name, go in (('split_rings', splits), ('merge_rings', merges)):
        f = system.find(name)
        ctx.anchor(f is not None, 'RingSystem.' + name)
        args = [a.arg for a in f.node.args.args if a.arg != 'self']
        ctx.anchor(len(args) == 1, 'the argument of RingSystem.' + name)
        r = run(repo, f, cls=system)
        ctx.analysed(r)
        if r.failed or r.st is None:
            ctx.open('rings', 'RingSystem.' + name, r.failed or 'no exit')
            continue
        go(ctx, Case(ctx, r, ring, args[0]), f)


class Case:
    """One analysed operation and the evaluation of its result."""

    def __init__(self, ctx, r, ring, arg):
        self.ctx, self.r, self.ring = ctx, r, ring
        ip, self.arg = r.ip, mk('param', arg)
        oid = r.env['self'].args[0]
        v = ip.get_field(oid, 'rings', r.st0)
        self.before = ip.den(v, r.st0)
        self.after = ip.get_field(oid, 'rings', r.st)
        self.stored = {}
        item = ip.sym(dict(kind='inst', cls=ring), mk('generic', 'ring'))
        for p in PARTS:
            t = read(ip, item, p, r.st0)
            t = strip_all(t) if t is not None else None
            ctx.anchor(t is not None and t.op == 'fld',
                       'stored %s of a ring' % p)
            self.stored[p] = t.args[1]

    def ledger(self, rings, arg, ty):
        things = [Thing({self.stored[p]: x for p, x in zip(PARTS, w)},
                        'ring %d' % k) for k, w in enumerate(rings)]
        val = {self.before: things, self.arg: arg,
               mk('ref', self.before): things}
        return Ledger(self.r.ip, self.r.st, val, {self.arg: ty})

    def result(self, rings, arg, ty):
        """Edges and transmissions afterwards, or None."""
        led = self.ledger(rings, arg, ty)
        try:
            v = led.ev(self.r.ip.den(self.after, self.r.st))
            if not isinstance(v, list):
                return None
            return [tuple(num(led.attr(x, self.stored[p]))
                          for p in PARTS) for x in v]
        except Raises as e:
            return 'raises ' + str(e)
        except (Unknown, RecursionError) as e:
            if os.environ.get('VERIF_DEBUG'):
                print('unknown:', e)
            return None


def text(rings):
    if isinstance(rings, str):
        return rings
    return '[%s]' % ', '.join('%s..%s t=%s' % r for r in rings)


def judge(tab, got, want, what):
    if got is None:
        tab.row(None, what)
    else:
        tab.row(got == want, '%s: %s instead of %s' % (
            what, text(got), text(want)))


def splits(ctx, case, f):
    where = 'RingSystem.split_rings'
    systems = [[(Q(1), Q(4), Q(1, 4))],
               [(Q(1), Q(2), Q(1, 4)), (Q(2), Q(7), Q(3, 4))],
               [(Q(1), Q(2), Q(1)), (Q(5), Q(6), Q(0)),
                (Q(6), Q(13, 2), Q(1, 2))]]

    def want(rings, ds):
        out = []
        for (a, b, t), d in zip(rings, ds):
            for j in range(d):
                out.append((a + (b - a) * j / d, a + (b - a) * (j + 1) / d,
                            t))
        return out
    one = Table(ctx, where + ': one count', f.node.lineno)
    for rings in [[]] + systems:
        for d in (2, 3, 4, 5):
            judge(one, case.result(rings, Q(d), 'int'), want(
                rings, [d] * len(rings)), '%s into %d' % (text(rings), d))
    one.done('split')
    each = Table(ctx, where + ': a count per ring', f.node.lineno)
    for rings in systems:
        for ds in itertools.product((1, 2, 3, 4), repeat=len(rings)):
            judge(each, case.result(rings, [Q(d) for d in ds], 'array'),
                  want(rings, ds), '%s into %s' % (text(rings), list(ds)))
    each.done('split')


def merges(ctx, case, f):
    where = 'RingSystem.merge_rings'
    tab = {k: Table(ctx, where + ': ' + k, f.node.lineno) for k in (
        'single and empty systems', 'equal transmissions',
        'different transmissions', 'mixed')}
    for tol in (Q(1, 100), Q(0)):
        gaps = [Q(0), tol / 2, tol * 3 / 2, -Q(1, 4)] if tol else [Q(1, 1000), Q(2)]
        for n in range(5 if tol else 4):
            for gs in itertools.product(gaps, repeat=max(n - 1, 0)):
                for ts in itertools.product((Q(1, 4), Q(1, 2)), repeat=n):
                    rings = build(gs, ts)
                    k = 'single and empty systems' if n < 2 else \
                        'equal transmissions' if len(set(ts)) == 1 else \
                        'different transmissions' if all(
                            x != y for x, y in zip(ts, ts[1:])) else 'mixed'
                    judge(tab[k], case.result(rings, tol, 'float'),
                          merged(rings, tol), '%s, tolerance %s' % (
                              text(rings), tol))
    # transmissions that differ by little are different transmissions
    near = Table(ctx, where + ': nearly equal transmissions', f.node.lineno)
    for d in (Q(1, 10 ** 4), Q(1, 10 ** 7), Q(1, 10 ** 12)):
        for ts in itertools.product((Q(1, 4), Q(1, 4) + d, Q(1, 4) - d),
                                    repeat=2):
            rings = build((Q(0),), ts)
            judge(near, case.result(rings, Q(1, 100), 'float'),
                  merged(rings, Q(1, 100)), text(rings))
    near.done('merge')
    # gaps next to the tolerance
    near = Table(ctx, where + ': gaps next to the tolerance', f.node.lineno)
    for tol in (Q(1, 100), Q(1, 10 ** 9), Q(3)):
        for g in (tol * (1 - Q(1, 10 ** 6)), tol * (1 + Q(1, 10 ** 6)),
                  tol + Q(1, 10 ** 7), -tol * (1 + Q(1, 10 ** 6)),
                  -tol * (1 - Q(1, 10 ** 6))):
            rings = build((g,), (Q(1, 4), Q(1, 4)))
            if rings[1][0] <= 0:
                continue
            judge(near, case.result(rings, tol, 'float'), merged(rings, tol),
                  '%s, tolerance %s' % (text(rings), tol))
    near.done('merge')
    for t in tab.values():
        t.done('merge')
    omitted(ctx, f, case)


def build(gs, ts):
    out, edge = [], Q(1)
    for k, t in enumerate(ts):
        if k:
            edge += gs[k - 1]
        out.append((edge, edge + 1 + k, t))
        edge += 1 + k
    return out


def merged(rings, tol):
    out = []
    for a, b, t in rings:
        if out and abs(a - out[-1][1]) < tol and t == out[-1][2]:
            out[-1] = (out[-1][0], b, t)
        else:
            out.append((a, b, t))
    return out


def omitted(ctx, f, case):
    """Without a tolerance: rounding-size gaps join, visible ones do not."""
    d = f.node.args.defaults
    if not d:
        return
    ip = Interp(ctx.repo)
    st = State()
    me = ip.sym(dict(kind='inst', cls=ctx.repo.classes['RingSystem']),
                mk('root', 'RingSystem'))
    r = Run(ip, st.copy(), {'self': me}, f)
    v, r.raises = call_in(ip, f, [me], {}, st)
    if v is None:
        ctx.open('merge', 'RingSystem.merge_rings()', 'no exit')
        return
    r.st = st
    c = Case(ctx, r, case.ring, 'tolerance')
    tab = Table(ctx, 'RingSystem.merge_rings()', f.node.lineno)
    for g in (Q(0), Q(1, 10 ** 12), Q(1, 10)):
        for ts in itertools.product((Q(1, 4), Q(1, 2)), repeat=2):
            rings = build([g], ts)
            judge(tab, c.result(rings, Q(0), 'float'), merged(
                rings, Q(1, 1000)), '%s' % text(rings))
    tab.done('merge')
