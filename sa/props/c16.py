"""Value-flow analysis of ring geometry. For the constructor and every public
operation of a ring system, every ring object that the stored array of rings
can hold at a normal exit is located in its value-flow term; the inclination
and tilt read through the public accessors of the ring must be the very value
the system has at that exit - not those of another ring, which can have been
altered since (rings that were there before are kept as they are, and so are
the system's own angles)."""
from ..common import *
from ..poly import *

ANGLES = ('inclination', 'tilt')


def check(ctx):
    repo = ctx.repo
    system, ring = repo.classes.get('RingSystem'), repo.classes.get('Ring')
    ctx.anchor(system is not None and ring is not None,
               'classes RingSystem and Ring')
    ctx.anchor(all(ring.find_getter(a) or a in repo.field_specs(ring)
                   for a in ANGLES), 'inclination and tilt of Ring')
    placed = 0
    ops = [system.find('__init__')]
    ops += [f for c, f in public_methods(
        repo, lambda c, n, f: c is system and f.kind == 'method' and
        not n.startswith('_'))]
    ops += list(system.setters.values())
    for f in ops:
        r = run(repo, f, cls=system)
        ctx.analysed(r)
        where = 'RingSystem.' + f.name
        if r.failed:
            ctx.open('shared', where, r.failed)
        if r.st is None:
            continue
        placed += operation(ctx, r, where, ring)
    ctx.anchor(placed, 'operations that place rings')


def read(ip, ref, name, st):
    """Value of a public attribute of an object in state st."""
    o = ip.obj(ref.args[0], st)
    g = o.cls.find_getter(name) if o is not None and o.cls else None
    if g:
        s = st.copy()
        v, raised = call_in(ip, g, [ref], {}, s)
        return v
    return ip.get_field(ref.args[0], name, st)


def rings_in(ip, t, st, ring, seen=None, depth=0):
    """References to ring objects inside the contents of an array term."""
    seen = seen if seen is not None else set()
    out = []
    for x in subterms(t):
        if x in seen:
            continue
        seen.add(x)
        if x.op != 'ref':
            continue
        o = ip.obj(x.args[0], st)
        if o is None:
            continue
        if o.kind == 'inst' and o.cls is not None and ring in o.cls.mro():
            out.append(x)
        elif o.kind in ('arr', 'list') and depth < 6 and not \
                pre_existing(x.args[0]):
            out += rings_in(ip, ip.den(x, st), st, ring, seen, depth + 1)
    return out


def operation(ctx, r, where, ring):
    ip, st = r.ip, r.st
    oid = r.env['self'].args[0]
    me = r.env['self']
    ctor = r.fn.name == '__init__'
    # 1. the system and the rings it has keep their angles
    if not ctor:
        bad = 0
        for ch, e in changes(r, st):
            k, t, p = root_of(ch.oid)
            if k != 'root' or ch.what.lstrip('._') not in ANGLES:
                continue
            if p == '':
                rings = ip.get_field(oid, 'rings', st)
                if rings is not None and ip.den(rings, st) is not \
                        ip.den(ip.get_field(oid, 'rings', r.st0), r.st0):
                    continue
                bad += 1
                ctx.decide(False if e is False else None, 'system-angle',
                           '%s -> %s' % (where, ch.name), 'the system '
                           'angle changes, its rings do not: %s' % ch)
            elif p.startswith('.rings[*]'):
                nm = ch.what.lstrip('._')
                v = equal_angle(ip, read(ip, me, nm, st), st, ch.after, nm,
                                st)
                if v is not True:
                    bad += 1
                    ctx.decide(v, 'ring-angle', '%s -> %s' % (
                        where, ch.name), 'a ring of the system gets another '
                        'angle: %s' % ch)
        if not bad:
            ctx.ok('kept', where)
    # 2. rings that are placed
    v = ip.get_field(oid, 'rings', st)
    if v is None:
        ctx.open('shared', where, 'no rings')
        return 0
    t = deep_simp(ip.den(v, st), st)
    found = [x for x in rings_in(ip, t, st, ring)
             if not (root_of(x.args[0])[0] == 'root' and root_of(
                 x.args[0])[2].startswith('.rings'))]
    for x in found:
        for nm in ANGLES:
            sysv = read(ip, me, nm, st)
            val = read(ip, x, nm, st)
            if sysv is None or val is None:
                ctx.open('shared', where, 'no value of ' + nm)
                continue
            e = equal_angle(ip, sysv, st, val, nm, st)
            k = root_of(x.args[0])[0]
            ctx.decide(e, 'shared', '%s: %s of %s' % (
                where, nm, 'the ring passed in' if k == 'param' else
                'a new ring'), '%s of the ring placed is %s, of the system '
                '%s' % (nm, show(val, 5), show(sysv, 5)))
    if not found and t is not ip.den(ip.get_field(oid, 'rings', r.st0),
                                     r.st0) and not ctor:
        if uninterpreted(t):
            ctx.open('shared', where, show(t, 4))
    return len(found)


def equal_angle(ip, a, sa, b, nm, st, budget=None):
    """True / False / None: is angle b the system's angle a?"""
    budget = budget if budget is not None else [32]
    b = simp(b, st)
    a = simp(a, st)
    if a is b:
        return True
    if b.op == 'gamma' or a.op == 'gamma':
        if budget[0] <= 0:
            return None
        budget[0] -= 1
        g = (b if b.op == 'gamma' else a).args[0]
        res = []
        for pol in (True, False):
            s = st.copy()
            if s.assume(g, pol):
                res.append(equal_angle(ip, a, sa, b, nm, s, budget))
        return False if False in res else None if None in res else True
    a, b = strip_all(a), strip_all(b)
    if a is b:
        return True
    for op, pol in (('eq', True), ('ne', False)):
        if decide(mk(op, a, b), st) is pol or decide(
                mk(op, b, a), st) is pol:
            return True
    k, t, p = root_of(b)
    if k == 'root' and p.startswith('.rings[*]') and nm in p:
        # a ring that is there can have been altered since, as can the system:
        # what is placed now takes the angles the system has now
        return False
    d = const_diff(a, b)
    if d is not None:
        return d == 0
    if uninterpreted(b):
        return None
    if contains(b, lambda x: x is a):
        return None if not arithmetic(b) else False
    if contains(b, lambda x: x.op in ('fld', 'item', 'elem') and root_of(
            x)[0] == 'root' and root_of(x)[2].startswith('.rings')):
        return None
    return False


def arithmetic(t):
    return t.op in ('add', 'sub', 'mul', 'div', 'neg')
