"""Order-type analysis of stored settings. Every constructor, loader, setter
and public method of the library is interpreted with validation inlined; for
each write to a setting, wherever in the call tree it happens, the value must
be proved to lie in the documented domain under the facts of the path, or the
value finally stored at every exit must. Grids of coordinates: both ends, the
sample counts and the largest radius factor are judged on the value-flow term
of the stored vectors."""
from ..common import *
from ..exprs import without_none
from ..domain import *
from .c04 import run_new

SETTINGS = {
    'GridGradient': {'measured_gradient': (0, None),
                     'measured_error': (0, None),
                     'orbital_scale': (0, None),
                     'transmission_change': (0, 1)},
    # (1, None, True): an integer above 1
    'GridProperty': {'num_colors': (1, None, True)},
    'ShallotGrid': {'eclipse_duration': (0, None),
                    'transverse_velocity': (0, None),
                    'limb_darkening': (0, 1), 'num_fxfy': (0, None, True)},
}
BY_NAME = {nm: d for t in SETTINGS.values() for nm, d in t.items()}


KEPT = {}       # attribute -> the eclipse parameter kept in it


def spelled(name):
    return KEPT.get(name, name).lstrip('_')


class Settings(Order):
    """Stored settings satisfy their domain at entry (induction)."""
    known = set(BY_NAME) | {'gradients'}

    def relevant(self, want, whole):
        out, consts = Order.relevant(self, want, whole)
        for a in want:
            if a.op == 'fld' and root_of(a)[0] in ('root', 'param'):
                d = BY_NAME.get(spelled(str(a.args[1])))
                if d:
                    f = between(a, *d)
                    out.append((f, True, {a}))
                    consts |= {Q(x) for x in d[:2] if x is not None}
        return out, consts


def domain_of(cls, name):
    name = spelled(name)
    for k in cls.mro():
        d = SETTINGS.get(k.name, {}).get(name)
        if d:
            return d
    return None


def goal_of(v, d):
    return t_or(mk('isnone', v), between(v, *d))


def given(v, d, st):
    """Where it is not None it is the rest of its cases."""
    rest = without_none(v, st)
    if rest is v:
        return None, None
    s = State()
    s.facts = {rewrite(f, lambda t: rest if t is v else t): p
               for f, p in st.facts.items()}
    return Settings(s).holds(between(rest, *d), rest)


def check(ctx):
    repo = ctx.repo
    KEPT.update((k, n) for n, k in eclipse_fields(repo).items())
    Settings.known = set(BY_NAME) | {'gradients'} | {
        k.lstrip('_') for k in KEPT}
    for c in SETTINGS:
        ctx.anchor(c in repo.classes, 'class ' + c)
    ctx.anchor('GridParameters' in repo.classes, 'class GridParameters')
    found = set()
    for c in repo.classes.values():
        if c.is_enum or c.ext_names():
            continue
        init = c.find('__init__')
        if init is not None:
            ctor(ctx, repo, c, found)
    ops = public_methods(repo, lambda c, n, f: f.kind in (
        'method', 'classmethod') and not n.startswith('_'))
    ops += [(c, f) for c in repo.classes.values()
            for f in c.setters.values()]
    for c, f in ops:
        if not c.is_enum:
            operation(ctx, repo, c, f, found)
    for c, t in SETTINGS.items():
        for nm in t:
            if nm not in found:
                ctx.open('stored', '%s.%s' % (c, nm), 'never written')
    coordinates(ctx, repo)


def ctor(ctx, repo, cls, found):
    if not any(t in [k.name for k in cls.mro()] for t in SETTINGS):
        return
    r = run_new(repo, cls, prim_validate=False)
    ctx.analysed(r)
    judge(ctx, r, cls.name + '()', found)


def operation(ctx, repo, cls, f, found):
    r = run(repo, f, cls=cls, prim_validate=False)
    ctx.analysed(r)
    judge(ctx, r, '%s.%s' % (cls.name, f.name), found)


def judge(ctx, r, where, found):
    if r.failed:
        ctx.open('stored', where, r.failed)
    ip = r.ip
    worst = {}
    for node in ip.nodes:
        if node.kind != 'write' or node.data[1][0] != 'field':
            continue
        oid, (_, nm), v = node.data
        if not isinstance(nm, str) or v is UNDEF:
            continue
        cls = class_of(ip, oid, r)
        d = cls and domain_of(cls, nm)
        if not d:
            continue
        found.add(spelled(nm))
        st = State()
        st.facts = dict(node.facts or {})
        v = resolved(ip, v, r)
        res, row = Settings(st).holds(goal_of(v, d), v)
        if res is not True and given(v, d, st)[0] is True:
            res = True
        if res is not True:
            res, row = Settings(st).holds(goal_of(simp(v, st), d))
        if res is not True:
            res, row = finally_stored(r, oid, nm, d, res, row)
        key = (cls.name, spelled(nm))
        rank = {True: 0, None: 1, False: 2}
        old = worst.get(key)
        if old is None or rank[res] > rank[old[0]]:
            worst[key] = (res, row, v, node)
    for (c, nm), (res, row, v, node) in sorted(worst.items()):
        ctx.decide(res, 'stored', '%s -> %s.%s' % (where, c, nm),
                   '%s is stored outside its domain when %s' % (
                       nm, describe(row)) if row else show(v, 5),
                   node.line)


def resolved(ip, v, r):
    """v with array references replaced by what they denote."""
    sts = [x for x in [r.st] + [o.st for o in r.raises] if x is not None]

    def fn(t):
        if t.op == 'ref':
            for st in sts:
                o = ip.obj(t.args[0], st)
                if o is not None and o.kind == 'arr':
                    return ip.den(t, st)
        return t
    return rewrite(v, fn)


def class_of(ip, oid, r):
    for st in (r.st, r.st0):
        o = st and st.heap.get(oid)
        if o is not None:
            return o.cls
    o = ip.init_obj(oid)
    if o is not None:
        return o.cls
    for x in r.raises:
        o = x.st.heap.get(oid)
        if o is not None:
            return o.cls
    for n in ip.nodes:
        if n.kind == 'new' and n.data[0].args[0] is oid:
            return ip.repo.classes.get(n.data[1])
    return None


def finally_stored(r, oid, nm, d, res, row):
    """The value at the exits, where the object is known there."""
    seen = False
    worst, wrow = True, None
    for st, how, o in exits(r):
        ob = st.heap.get(oid)
        if ob is None or (o is not None and not pre_existing(oid)):
            continue
        v = ob.fields.get(nm)
        if v is None or v is UNDEF:
            continue
        seen = True
        a, b = Settings(st).holds(goal_of(
            resolved(r.ip, simp(v, st), r), d))
        if a is False:
            return a, b
        if a is None:
            worst, wrow = None, b
    if not seen:
        return res, row
    return worst, wrow


# -------------------------------------------------------------- coordinates
def coordinates(ctx, repo):
    cls = repo.classes['GridParameters']
    r = run_new(repo, cls, prim_validate=False)
    ctx.analysed(r)
    ends(ctx, r, r.self, 'GridParameters()')
    for c, f in public_methods(repo, lambda c, n, f: c is cls and
                               f.kind == 'method' and not n.startswith('_')):
        r = run(repo, f, cls=cls, prim_validate=False)
        ctx.analysed(r)
        ends(ctx, r, r.env['self'], 'GridParameters.' + f.name)


def ends(ctx, r, me, where):
    if r.failed or r.st is None:
        ctx.open('coordinates', where, r.failed or 'no normal exit')
        return
    ip, st = r.ip, r.st
    for nm in ('dx', 'dy', 'rf'):
        v = ip.get_field(me.args[0], nm, st)
        if v is None:
            ctx.open('coordinates', '%s: %s' % (where, nm), 'no value')
            continue
        t = deep_simp(strip_all(ip.den(v, st)), st)
        v0 = ip.get_field(me.args[0], nm, r.st0) if \
            me.args[0].op == 'root' else None
        if v0 is not None and t is strip_all(ip.den(v0, r.st0)):
            ctx.ok('coordinates', '%s: %s' % (where, nm), 'unchanged')
            continue
        for ln in cases(t, st):
            spaced(ctx, st, ln, nm, '%s: %s' % (where, nm), r)


def cases(t, st):
    if t.op == 'gamma':
        out = []
        for pol, x in ((True, t.args[1]), (False, t.args[2])):
            s = st.copy()
            if s.assume(t.args[0], pol):
                out += cases(x, s)
        return out
    return [(st, t)]


def spaced(ctx, st0, case, nm, where, r):
    st, t = case
    found = [x for x in subterms(t) if x.op in (
        'np.linspace', 'linspace') and len(x.args) >= 3]
    if len(found) != 1:
        ctx.open('coordinates', where, show(t, 5))
        return
    a, b, n = found[0].args[:3]
    o = Settings(st)
    line = r.fn.node.lineno
    if nm == 'rf':
        res, row = o.holds(between(b, 1, None))
        ctx.decide(res, 'coordinates', where + ' maximum', 'the largest '
                   'radius factor may be below 1: %s' % (
                       describe(row) or show(b, 4)), line)
    else:
        res, row = o.holds(mk('lt', a, b))
        ctx.decide(res, 'coordinates', where + ' ends', 'min %s, max %s: %s'
                   % (show(a, 4), show(b, 4), describe(row)), line)
    res, row = o.holds(mk('lt', const(0), n))
    ctx.decide(res, 'coordinates', where + ' samples', 'the number of '
               'samples %s may be below 1: %s' % (show(n, 4),
                                                  describe(row)), line)
