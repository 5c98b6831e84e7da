"""Frame conditions and list-operation terms. Adding, removing and rescaling
gradients are interpreted on lists of zero to four distinct symbolic gradients
and index or value vectors of known length with symbolic entries (every index
vector of length up to three, repeated and unordered ones included). At the
normal exit the list of gradients is read off the abstract heap: which
gradient objects it holds in which order, and for each the terms of its
settings, which must be the entries given for that gradient - compared by
evaluation at several assignments of distinct values - or the ones it had."""
import itertools
from ..common import *
from ..pointwise import *
from .c13 import field, raw, with_gradients, scaled_of

SETTINGS = ('position', 'measured_gradient', 'measured_error',
            'transmission_change', 'orbital_scale')


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    gradient = repo.classes.get('GridGradient')
    ctx.anchor(grid is not None and gradient is not None,
               'classes ShallotGrid and GridGradient')
    removal(ctx, repo, grid, gradient)
    scale = addition(ctx, repo, grid, gradient)
    rescaling(ctx, repo, grid, gradient, scale)


class Tally:
    def __init__(self, ctx, rule, where, line):
        self.ctx, self.rule, self.where, self.line = ctx, rule, where, line
        self.bad = self.open = None
        self.n = 0

    def add(self, verdict, text):
        self.n += 1
        if verdict is False and self.bad is None:
            self.bad = text
        elif verdict is None and self.open is None:
            self.open = text

    def done(self):
        if self.bad is not None:
            self.ctx.bad(self.rule, self.where, self.bad, self.line)
        elif self.open is not None:
            self.ctx.open(self.rule, self.where, self.open)
        elif self.n:
            self.ctx.ok(self.rule, self.where, '%d cases' % self.n)
        else:
            self.ctx.open(self.rule, self.where, 'nothing interpreted')


def final_lists(r, me, pt):
    """[(sequence or None, list value)] that the grid can hold in this row."""
    ip, st = r.ip, r.st
    v = ip.get_field(me.args[0], 'gradients', st)
    out = []

    def walk(v):
        if v.op == 'gamma':
            try:
                b = truth(pt.ev(v.args[0]))
            except (Unknown, Raises):
                walk(v.args[1])
                walk(v.args[2])
                return
            walk(v.args[1 if b else 2])
            return
        out.append(((), v) if v is NONE else (ip.exact_seq(v, st), v))
    walk(v)
    return out


def reordered(ip, v, st):
    return contains(ip.den(v, st), lambda x: x.op in (
        'sorted', 'np.sort', 'rev', 'list.sort'))


def same_gradient(r, g, old, pt):
    """g is the gradient old with all its settings as they were."""
    ip = r.ip
    if g.op == 'gamma':
        vs = [same_gradient(r, x, old, pt) for x in branches(g)]
        return True if all(v is True for v in vs) else None
    if g.op != 'ref':
        return None
    if g is not old:
        o = ip.obj(g.args[0], r.st)
        if o is None or o.kind != 'inst':
            return None
    if g is not old and g.args[0].op == 'root':
        return False
    for nm in SETTINGS + ('data', 'mask'):
        a = pick(pt, strip_all(ip.den(ip.get_field(g.args[0], nm, r.st),
                                      r.st)))
        b = pick(pt, strip_all(ip.den(ip.get_field(old.args[0], nm, r.st0),
                                      r.st0)))
        if a is not b:
            e = differs(a, b, r.st)
            return False if e is False else None
    return True


def pick(pt, t):
    while t.op == 'gamma':
        try:
            t = t.args[1 if truth(pt.ev(t.args[0])) else 2]
        except (Unknown, Raises):
            return t
    return t


def base_row(r, hold):
    """Distinct values for the settings of the gradients there are."""
    val = {}
    k = 0
    for g in hold['els']:
        for nm in SETTINGS:
            t, ab = raw(r.ip, g, nm, r.st0)
            k += 1
            val[t] = Q(k, 97)
            if ab is not None:
                val.setdefault(ab, 'present')
                val[mk('isnone', ab)] = False
    me = hold['me']
    o = r.st0.heap.get(me.args[0]) or r.ip.obj(me.args[0], r.st0)
    for nm, x in (('_eclipse_duration', Q(3)), ('_transverse_velocity', Q(5)),
                  ('_limb_darkening', Q(1, 4))):
        try:
            t, ab = raw(r.ip, me, kept(r, nm), r.st0)
        except Exception:
            continue
        val[t] = x
        if ab is not None:
            val[mk('isnone', ab)] = False
            val.setdefault(ab, x)
    val[PI] = Q(22, 7)
    return val


# ---------------------------------------------------------------- removing
def removal(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.remove_gradients')
    where = 'ShallotGrid.remove_gradients'
    tl = Tally(ctx, 'remove', where, f.node.lineno)
    for n in (1, 2, 4):
        for m in range(1, 4 if n > 1 else 3):
            for ix in itertools.product(range(n), repeat=m):
                hold = {}
                base = with_gradients(repo, grid, gradient, n, hold)

                def setup(ip, st, env):
                    base(ip, st, env)
                    k = [a for a in env if a != 'self'][0]
                    env[k] = ip.new_arr(mk('list', *[const(x) for x in ix]),
                                        st)
                r = run(repo, f, cls=grid, setup=setup)
                text = 'removing %s of %d gradients' % (list(ix), n)
                if r.failed or not hold:
                    tl.add(None, '%s: %s' % (text, r.failed))
                    continue
                if tl.n == 0:
                    ctx.analysed(r)
                if r.st is None:
                    tl.add(None, text + ': no normal return')
                    continue
                want = [g for k, g in enumerate(hold['els']) if k not in ix]
                judge_list(tl, r, hold, want, text,
                           Point(base_row(r, hold)))
    tl.done()


def judge_list(tl, r, hold, want, text, pt, new=0):
    for seq, v in final_lists(r, hold['me'], pt):
        if seq is None:
            tl.add(False if reordered(r.ip, v, r.st) else None,
                   '%s: the order of the gradients changes' % text if
                   reordered(r.ip, v, r.st) else
                   '%s: list not determined' % text)
            return None
        if len(seq) != len(want) + new:
            tl.add(False, '%s leaves %d gradients instead of %d' % (
                text, len(seq), len(want) + new))
            return None
        seq = [pick(pt, g) for g in seq]
        for k, (g, w) in enumerate(zip(seq, want)):
            e = same_gradient(r, g, w, pt)
            tl.add(e, '%s: position %d of the list is not the gradient that '
                   'belongs there, or it was altered' % (text, k))
    return seq


# ------------------------------------------------------------------ adding
def addition(ctx, repo, grid, gradient):
    f = find_func(repo, 'ShallotGrid.add_gradients')
    names = [a.arg for a in f.node.args.args][1:]
    ctx.anchor(len(names) >= 4, 'add_gradients(times, gradients, errors, '
               'transmission changes)')
    tl = Tally(ctx, 'add', 'ShallotGrid.add_gradients', f.node.lineno)
    tm = Tally(ctx, 'mask', 'ShallotGrid.add_gradients', f.node.lineno)
    scale = None
    rows = [(n, m, er, tr, None) for n in (0, 1, 2) for m in (1, 2, 3)
            for er in (False, True) for tr in (False, True)]
    rows += [(1, 2, er, er, x) for er in (False, True)
             for x in (Q(0), Q(70), Q(10) ** 7, Q(1, 10 ** 9))]
    for n, m, er, tr, size in rows:
        hold = {}
        base = with_gradients(repo, grid, gradient, n, hold)
        given = {}

        def setup(ip, st, env):
            base(ip, st, env)
            for nm, on in zip(names, (True, True, er, tr)):
                if on:
                    given[nm] = [mk('param', '%s[%d]' % (nm, k))
                                 for k in range(m)]
                    for x in given[nm]:
                        st.facts[mk('isnone', x)] = False
                        st.facts[mk('isnan', x)] = False
                    env[nm] = ip.new_arr(mk('list', *given[nm]), st)
                else:
                    env[nm] = NONE
        r = run(repo, f, cls=grid, setup=setup)
        text = 'adding %d to %d gradients (errors %s, transmission changes ' \
            '%s)' % (m, n, 'given' if er else 'absent',
                     'given' if tr else 'absent')
        if r.failed or r.st is None or not hold:
            tl.add(None, '%s: %s' % (text, r.failed or 'no normal return'))
            continue
        if tl.n == 0:
            ctx.analysed(r)
        val = base_row(r, hold)
        pool = {}
        for i, nm in enumerate(names):
            for k, x in enumerate(given.get(nm, ())):
                pool[nm, k] = val[x] = Q(7 * i + k + 1, 101) * (
                    1 if i else -1 if k == 1 else 1)
                val[mk('isnone', x)] = False
        if size is not None:
            x = given[names[1]][0]
            pool[names[1], 0] = val[x] = size
            text += ', one of %s' % float(size)
        pt = Point(val)
        seq = judge_list(tl, r, hold, hold['els'], text, pt, m)
        if not seq:
            continue
        dur = val[raw(r.ip, hold['me'], kept(r, '_eclipse_duration'), r.st0)[0]]
        one = Q(1)
        for k in range(m):
            g = seq[n + k]
            if g.op != 'ref':
                tl.add(None, text + ': new gradient not determined')
                continue
            want = {'position': -pool[names[0], k] / dur,
                    'measured_gradient': abs(pool[names[1], k]),
                    'measured_error': pool.get((names[2], k), one),
                    'transmission_change': pool.get((names[3], k), one)}
            for nm, w in want.items():
                t = field(r.ip, g, nm, r.st)
                tl.add(*equal(pt, t, w, '%s: %s of new gradient %d' % (
                    text, nm, k)))
            data = field(r.ip, g, 'data', r.st)
            own = [x for x in given[names[0]] if contains(
                data, lambda y: y is x)]
            tl.add(True if own == [given[names[0]][k]] else
                   False if any(x is not given[names[0]][k] for x in own)
                   else None, '%s: the disk gradients of new gradient %d are '
                   'computed for another time' % (text, k))
            scale = scale_of(r, hold, g, scale)
            in_step(tm, r, g, data, val, '%s, new gradient %d' % (text, k))
    tl.done()
    tm.done()
    return scale


def kept(r, name):
    return eclipse_fields(r.ip.repo)[name]


def scale_of(r, hold, g, scale):
    if scale is not None:
        return scale
    t = field(r.ip, g, 'orbital_scale', r.st)
    v, _ = raw(r.ip, hold['me'], kept(r, '_transverse_velocity'), r.st0)
    u, _ = raw(r.ip, hold['me'], kept(r, '_limb_darkening'), r.st0)

    def f(vv, uu):
        return num(Point({v: vv, u: uu, PI: Q(22, 7),
                          mk('isnone', v): False,
                          mk('isnone', u): False}).ev(t))
    try:
        f(Q(5), Q(1, 4))
    except (Unknown, Raises):
        return None
    return f


def equal(pt, t, w, text):
    try:
        x = pt.ev(t)
    except (Unknown, Raises) as e:
        return None, '%s not determined (%s)' % (text, e)
    if x is None:
        return False, '%s is absent' % text
    if isinstance(x, str):
        return None, text
    if num(x) == w:
        return True, ''
    return False, '%s is %s where %s was given' % (text, show(t, 5), w)


def in_step(tm, r, g, data, val, text):
    """The mask excludes exactly the points below the scaled gradient."""
    ip = r.ip
    t, absent = raw(ip, g, 'mask', r.st)
    sc = scaled_of(ip, g, r.st)
    if sc is None:
        tm.add(None, text)
        return
    pt = Point(val)
    try:
        lim = num(pt.ev(sc))
    except (Unknown, Raises) as e:
        tm.add(None, '%s: %s' % (text, e))
        return
    for d, want in ((NAN, True), (lim - Q(1, 10**6), True), (lim, False),
                    (lim + Q(1, 10**6), False)):
        try:
            got = truth(Point(dict(val) | {data: d}).ev(t))
        except (Unknown, Raises) as e:
            tm.add(None, '%s: %s' % (text, e))
            continue
        tm.add(got == want, '%s: the mask does not mark the points below '
               'its own scaled gradient' % text)


# --------------------------------------------------------------- rescaling
def rescaling(ctx, repo, grid, gradient, scale):
    f = find_func(repo, 'ShallotGrid.update_gradient_scaling')
    names = [a.arg for a in f.node.args.args][1:]
    ctx.anchor(len(names) >= 3, 'update_gradient_scaling(velocity, limb '
               'darkening, transmission changes)')
    tl = Tally(ctx, 'rescale', 'ShallotGrid.update_gradient_scaling',
               f.node.lineno)
    for n in (1, 2, 3):
        for on in itertools.product((False, True), repeat=3):
            hold, given = {}, {}
            base = with_gradients(repo, grid, gradient, n, hold)

            def setup(ip, st, env):
                base(ip, st, env)
                for k, nm in enumerate(names[:2]):
                    env[nm] = NONE
                    if on[k]:
                        env[nm] = given[nm] = mk('param', nm)
                        st.facts[mk('isnone', env[nm])] = False
                        st.facts[mk('isnan', env[nm])] = False
                env[names[2]] = NONE
                if on[2]:
                    given[names[2]] = [mk('param', 'change[%d]' % k)
                                       for k in range(n)]
                    for x in given[names[2]]:
                        st.facts[mk('isnone', x)] = False
                        st.facts[mk('isnan', x)] = False
                    env[names[2]] = ip.new_arr(
                        mk('list', *given[names[2]]), st)
            r = run(repo, f, cls=grid, setup=setup)
            text = 'rescaling %d gradients (%s)' % (n, ', '.join(
                '%s %s' % (nm, 'given' if o else 'absent')
                for nm, o in zip(names, on)))
            if r.failed or r.st is None or not hold:
                tl.add(None, '%s: %s' % (text, r.failed or 'no return'))
                continue
            if tl.n == 0:
                ctx.analysed(r)
            val = base_row(r, hold)
            new = {names[0]: Q(11), names[1]: Q(1, 3)}
            for nm in names[:2]:
                if nm in given:
                    val[given[nm]] = new[nm]
                    val[mk('isnone', given[nm])] = False
            for k, x in enumerate(given.get(names[2], ())):
                val[x] = Q(60 + k, 103)
                val[mk('isnone', x)] = False
            pt = Point(val)
            v0 = val[raw(r.ip, hold['me'], kept(r, '_transverse_velocity'),
                         r.st0)[0]]
            u0 = val[raw(r.ip, hold['me'], kept(r, '_limb_darkening'), r.st0)[0]]
            v1 = new[names[0]] if on[0] else v0
            u1 = new[names[1]] if on[1] else u0
            for nm, w in (('_transverse_velocity', v1),
                          ('_limb_darkening', u1)):
                t = field(r.ip, hold['me'], kept(r, nm), r.st)
                tl.add(*equal(pt, t, w, '%s: %s afterwards' % (
                    text, nm.strip('_'))))
            for seq, v in final_lists(r, hold['me'], pt):
                if seq is None:
                    tl.add(False if reordered(r.ip, v, r.st) else None,
                           text + ': list not determined')
                    continue
                if len(seq) != n:
                    tl.add(False, '%s leaves %d gradients' % (text, len(seq)))
                    continue
                for k, g in enumerate(seq):
                    old = hold['els'][k]
                    if g.op == 'gamma':
                        g = pick(pt, g)
                    if g.op != 'ref':
                        tl.add(None, text + ': gradient not determined')
                        continue
                    for nm in SETTINGS + ('data',):
                        a = pick(pt, field(r.ip, g, nm, r.st))
                        b = pick(pt, field(r.ip, old, nm, r.st0))
                        if nm == 'transmission_change' and on[2]:
                            tl.add(*equal(pt, a, val[given[names[2]][k]],
                                          '%s: %s of gradient %d' % (
                                              text, nm, k)))
                            continue
                        if nm == 'orbital_scale' and (on[0] or on[1]):
                            if scale is None:
                                tl.add(None, text + ': scale')
                                continue
                            tl.add(*equal(pt, a, scale(v1, u1),
                                          '%s: %s of gradient %d' % (
                                              text, nm, k)))
                            continue
                        if a is b:
                            tl.add(True, '')
                            continue
                        if b in val:
                            tl.add(*equal(pt, a, val[b],
                                          '%s: %s of gradient %d' % (
                                              text, nm, k)))
                        else:
                            e = differs(a, b, r.st)
                            tl.add(False if e is False else None,
                                   '%s: %s of gradient %d changes' % (
                                       text, nm, k))
    tl.done()
