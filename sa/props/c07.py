"""Typestate analysis of the cached gradient fit. Every public operation of a
grid (and every operation of another class that can reach one) is interpreted
from a state in which gradients and a fit computed from them are both present.
At every exit, normal or exceptional, the paths on which a fit can still be
read are separated; on those no gradient, list of gradients, scaling value or
eclipse parameter may differ from its value at entry. A fit that is stored
anew must range over the whole current list of gradients. The list
operations are interpreted once more on lists of one to three distinct
gradients with a fit present, where the guards on the way out are decided: no
exit with another list may still hold the old fit."""
from ..common import *
from ..poly import *
from ..pointwise import *
from .c13 import with_gradients
from .c24 import base_row, final_lists, pick

GRADIENT = ('data', 'measured_gradient', 'measured_error', 'orbital_scale',
            'transmission_change', 'position')


def leaves(v, st, budget):
    """(value, state) of every path through the guards of v."""
    v = simp(v, st)
    if v.op != 'gamma' or budget[0] <= 0:
        return [(v, st)]
    budget[0] -= 1
    out = []
    for i, pol in ((1, True), (2, False)):
        s = st.copy()
        if s.assume(v.args[0], pol):
            out += leaves(v.args[i], s, budget)
    return out


def is_none(v):
    return v.op == 'const' and v is NONE


def relevant(ch, grad_cls, ip):
    k, t, p = root_of(ch.oid)
    if k != 'root':
        return False
    if p == '':
        return ch.what in ('.gradients',) or ch.what[1:] in eclipse_fields(
            ip.repo).values()
    if p.startswith('.gradients'):
        if ch.what == '[]':
            return True
        return any(ch.what == '.' + f for f in GRADIENT)
    return False


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    ctx.anchor(grid is not None, 'class ShallotGrid')
    specs = repo.field_specs(grid)
    ctx.anchor('gradient_fit' in specs and 'gradients' in specs,
               'the fields gradients and gradient_fit of ShallotGrid')
    held = {}

    def both(ip, st, env):
        oid = env['self'].args[0]
        for f in ('gradients', 'gradient_fit'):
            v = ip.get_field(oid, f, st)
            held[f] = v
            if v.op == 'gamma':
                st.assume(v.args[0], False)
    ops = public_methods(repo, lambda c, n, f: c is grid and
                         f.kind == 'method' and not n.startswith('_'))
    ops += [(grid, f) for f in grid.setters.values()]
    cleared = fresh = 0
    for cls, f in ops:
        r = run(repo, f, cls=cls, setup=both)
        ctx.analysed(r)
        where = '%s.%s' % (cls.name, f.name)
        if r.failed:
            ctx.open('stale-fit', where, r.failed)
            continue
        oid = r.env['self'].args[0]
        bad = n = 0
        for st, what, o in exits(r):
            v = r.ip.get_field(oid, 'gradient_fit', st)
            old = simp(held['gradient_fit'], r.st0)
            for leaf, s in leaves(v, st, [64]):
                n += 1
                if is_none(leaf):
                    cleared += 1
                    continue
                if leaf.op == 'ref' and leaf is not old and \
                        not pre_existing(leaf.args[0]):
                    fresh += 1
                    covers(ctx, r, where, oid, leaf, s)
                    continue
                if leaf is not old:
                    ctx.open('stale-fit', where, 'fit is %s' % show(leaf, 3))
                    continue
                for ch, e in changes(r, s):
                    if not relevant(ch, None, r.ip):
                        continue
                    bad += 1
                    ctx.decide(False if e is False else None, 'stale-fit',
                               '%s -> %s' % (where, ch.name),
                               'the old fit is still stored after %s: %s' % (
                                   what, ch),
                               o.node.line if o and o.node else None)
        if not bad:
            ctx.ok('stale-fit', where, '%d paths to %d exits' % (
                n, len(exits(r))))
    ctx.anchor(cleared, 'operations that clear the fit')
    if not fresh:
        ctx.open('fit-covers', 'ShallotGrid', 'no operation stores a fit')
    loaded(ctx, repo, grid)
    emptied(ctx, repo, grid)


def emptied(ctx, repo, grid):
    gradient = repo.classes.get('GridGradient')
    f = grid.find('remove_gradients')
    g = grid.find('add_gradients')
    ctx.anchor(gradient and f and g, 'operations on the list of gradients')
    names = [a.arg for a in g.node.args.args][1:3]
    for fn, cases in ((f, [(n, (i,)) for n in (1, 2, 3) for i in range(n)] +
                       [(2, (0, 1)), (3, (2, 0)), (3, (0, 1, 2))]),
                      (g, [(n, (m,)) for n in (1, 2) for m in (1, 2)])):
        where = 'ShallotGrid.' + fn.name
        bad = unclear = None
        count = 0
        for n, ix in cases:
            hold = {}
            base = with_gradients(repo, grid, gradient, n, hold)

            def setup(ip, st, env):
                base(ip, st, env)
                v = ip.get_field(hold['me'].args[0], 'gradient_fit', st)
                if v.op == 'gamma':
                    st.assume(v.args[0], False)
                hold['fit'] = simp(v, st)
                if fn is f:
                    k = [a for a in env if a != 'self'][0]
                    env[k] = ip.new_arr(mk('list', *map(const, ix)), st)
                    return
                for nm in names:
                    xs = [mk('param', '%s[%d]' % (nm, k))
                          for k in range(ix[0])]
                    for x in xs:
                        st.facts[mk('isnone', x)] = False
                        st.facts[mk('isnan', x)] = False
                    env[nm] = ip.new_arr(mk('list', *xs), st)
                for a in [a.arg for a in g.node.args.args][3:]:
                    env[a] = NONE
            r = run(repo, fn, cls=grid, setup=setup)
            text = '%s of %d gradients' % (list(ix), n) if fn is f else \
                '%d more to %d gradients' % (ix[0], n)
            if r.failed or r.st is None or not hold:
                unclear = unclear or text
                continue
            val = base_row(r, hold)
            for j, nm in enumerate(names if fn is g else ()):
                for k in range(ix[0]):
                    val[mk('param', '%s[%d]' % (nm, k))] = Q(7 * j + k + 1,
                                                             101)
            pt = Point(val)
            fit = simp(pick(pt, simp(r.ip.get_field(
                hold['me'].args[0], 'gradient_fit', r.st), r.st)), r.st)
            seqs = [q for q, _ in final_lists(r, hold['me'], pt)]
            if fit is NONE or fit is not hold['fit']:
                count += 1
            elif len(seqs) == 1 and seqs[0] is not None and \
                    len(seqs[0]) != n:
                bad = bad or '%s leaves a list of %d and the fit of the ' \
                    'list of %d' % (text, len(seqs[0]), n)
            else:
                unclear = unclear or text
        if bad:
            ctx.bad('fit-of-list', where, bad, fn.node.lineno)
        elif unclear:
            ctx.open('fit-of-list', where, unclear)
        else:
            ctx.ok('fit-of-list', where, '%d cases' % count)


def covers(ctx, r, where, oid, leaf, st):
    """The new fit is accumulated over exactly the current gradients."""
    ip = r.ip
    g = simp(ip.get_field(oid, 'gradients', st), st)
    data = ip.get_field(leaf.args[0], 'data', st)
    if data is None or g.op != 'ref':
        ctx.open('fit-covers', where, 'not a list of gradients')
        return
    d = deep_simp(ip.den(data, st), st)
    own = lambda x: x.op == 'ref' and x is g or contains(
        x, lambda y: y.op in ('elem', 'item', 'fld') and
        root_of(y)[2].startswith('.gradients'))
    folds = [x for x in subterms(d) if x.op == 'fold' and own(x)]
    if not folds:
        if uninterpreted(d) or contains(d, lambda x: x.op == 'ofold'):
            ctx.open('fit-covers', where, show(d, 5))
        elif not own(d):
            ctx.bad('fit-covers', where, 'the stored fit does not depend on '
                    'the gradients of the grid: %s' % show(d, 5))
        else:
            ctx.open('fit-covers', where, show(d, 5))
        return
    count = ip.length(g, st)
    for f in folds:
        c = const_diff(f.args[0], count)
        if c is None:
            ctx.open('fit-covers', where, '%s iterations for %s' % (
                show(f.args[0], 4), show(count, 4)))
        elif c:
            ctx.bad('fit-covers', where, 'the fit ranges over %+d gradients '
                    'more than are present' % c)
        else:
            ctx.ok('fit-covers', where, 'one term per gradient present')


def loaded(ctx, repo, grid):
    """A new or loaded grid has no fit unless it computed one."""
    for nm in ('__init__', 'load'):
        f = grid.find(nm)
        if f is None:
            continue
        r = run(repo, f)
        ctx.analysed(r)
        where = 'ShallotGrid.' + nm
        if r.st is None:
            ctx.open('initial-fit', where, r.failed or 'no normal return')
            continue
        v = r.env['self'] if nm == '__init__' else r.value
        if v is None or v.op != 'ref':
            ctx.open('initial-fit', where, 'no object')
            continue
        x = r.ip.get_field(v.args[0], 'gradient_fit', r.st)
        for leaf, s in leaves(x, r.st, [16]) if x is not None else []:
            if is_none(leaf):
                ctx.ok('initial-fit', where, 'absent')
            elif leaf.op == 'ref':
                covers(ctx, r, where, v.args[0], leaf, s)
            else:
                ctx.open('initial-fit', where, show(leaf, 3))
