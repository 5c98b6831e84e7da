"""Order-type analysis of the parameters of rings and ring systems. The
constructors, every property setter and every public operation are
interpreted (validation helpers inlined); at each normal and raising exit the
parameters of every ring touched, read through its public accessors, must
satisfy the documented range under the facts of the path. Parameters of rings
that exist at entry are assumed to satisfy it (induction over histories)."""
from ..common import *
from ..domain import *
from .c16 import read

RING = [('inner_radius', 0, None, True), ('outer_radius', 0, None, True),
        ('transmission', 0, 1, False), ('inclination', 0, 90, False),
        ('tilt', -180, 180, False)]
SYSTEM = [('planet_radius', 0, None, False), ('inclination', 0, 90, False),
          ('tilt', -180, 180, False)]


class Params(Order):
    known = {x[0] for x in RING + SYSTEM}


def invariants(ip, ref, st, table=RING):
    """[(name, statement)] about the object as it is in state st."""
    v = {nm: read(ip, ref, nm, st) for nm, _, _, _ in table}
    out = []
    for nm, lo, hi, strict in table:
        if v[nm] is not None and v[nm] is not UNDEF:
            out.append((nm, between(ip.den(v[nm], st), lo, hi, strict)))
    a, b = v.get('inner_radius'), v.get('outer_radius')
    if a is not None and b is not None and UNDEF not in (a, b):
        out.append(('inner < outer', mk('lt', ip.den(a, st),
                                        ip.den(b, st))))
    return out


def assume_ring(ip, ref, st):
    """The induction hypothesis for a ring that exists at entry."""
    for nm, inv in invariants(ip, ref, st):
        st.assume(inv)


def run_new(repo, cls, **kw):
    """Interpret the constructor on a new instance."""
    ip = Interp(repo, **kw)
    st = State()
    ref = ip.new_inst(cls, st)
    r = run_in(ip, cls.find('__init__'), None, ref, None, cls, st)
    r.self = ref
    return r


def judge(ctx, r, ref, st, table, rule, where, seen):
    o = Params(st)
    for nm, inv in invariants(r.ip, ref, st, table):
        if (nm, where) in seen:
            continue
        v, row = o.holds(inv)
        if v is not True:
            seen.add((nm, where))
        ctx.decide(v, rule, '%s: %s' % (where, nm),
                   'stored although out of range when ' + describe(row)
                   if row else show(inv, 6), r.fn.node.lineno)


def check(ctx):
    repo = ctx.repo
    ring, system = repo.classes.get('Ring'), repo.classes.get('RingSystem')
    ctx.anchor(ring is not None and system is not None,
               'classes Ring and RingSystem')
    for nm, _, _, _ in RING:
        ctx.anchor(ring.find_getter(nm) or nm in repo.field_specs(ring),
                   'Ring.' + nm)
    # constructors
    for cls, table in ((ring, RING), (system, SYSTEM)):
        r = run_new(repo, cls, prim_validate=False)
        ctx.analysed(r)
        where = cls.name + '()'
        if r.failed or r.st is None:
            ctx.open('constructed', where, r.failed or 'no normal exit')
            continue
        judge(ctx, r, r.self, r.st, table, 'constructed', where, set())
        if cls is system:
            made(ctx, r, ring, where, set())
            rings(ctx, r, ring, r.st, where, set())
    # alterations
    for cls in (ring, system):
        ops = [f for c, f in public_methods(
            repo, lambda c, n, f: c is cls and f.kind == 'method' and
            not n.startswith('_'))]
        ops += list(cls.setters.values())
        for f in ops:
            operation(ctx, repo, cls, f, ring)


def operation(ctx, repo, cls, f, ring):
    def setup(ip, st, env):
        for v in env.values():
            o = ip.obj(v.args[0], st) if v.op == 'ref' else None
            if o is not None and o.kind == 'inst' and o.cls is not None and \
                    ring in o.cls.mro():
                assume_ring(ip, v, st)
    r = run(repo, f, cls=cls, setup=setup, prim_validate=False)
    ctx.analysed(r)
    where = '%s.%s' % (cls.name, f.name)
    if r.failed:
        ctx.open('kept', where, r.failed)
    n = 0
    seen = set()
    n += made(ctx, r, ring, where, seen)
    for st, how, o in exits(r):
        if o is not None and cls is not ring and not o.excs:
            continue
        n += rings(ctx, r, ring, st, where, seen)
    if not n:
        ctx.ok('kept', where, 'alters no ring')


def made(ctx, r, ring, where, seen):
    """Judge every ring built, as its constructor leaves it."""
    n = 0
    for node in r.ip.nodes:
        if node.kind != 'built' or node.func == '__init__':
            continue
        ref, st = node.data
        o = r.ip.obj(ref.args[0], st)
        if o is None or o.cls is None or ring not in o.cls.mro():
            continue
        n += 1
        judge(ctx, r, ref, st, RING, 'kept', where + ': a new ring', seen)
    return n


def rings(ctx, r, ring, st, where, seen):
    """Judge every ring altered on the way to state st, and new rings that
    were altered after they were built."""
    ip = r.ip
    n = 0
    built = {x.data[0].args[0]: x.data[1] for x in ip.nodes
             if x.kind == 'built'}
    for oid, o in list(st.heap.items()):
        if o.kind != 'inst' or o.cls is None or ring not in o.cls.mro() or \
                oid.op == 'dcopy':
            continue
        ref = mk('ref', oid)
        if pre_existing(oid):
            o0 = r.st0.heap.get(oid) or ip.init_obj(oid)
            if o0 is not None and o0.fields == o.fields:
                continue
            s = st
            if oid not in r.st0.heap:
                s = st.copy()
                for nm, inv in invariants(ip, ref, r.st0.copy()):
                    s.assume(inv)
            n += 1
            judge(ctx, r, ref, s, RING, 'kept', '%s: %s' % (
                where, label(oid)), seen)
        elif oid in built and st is r.st:
            b = built[oid].heap[oid]
            if any(b.fields.get(k) is not v for k, v in o.fields.items()):
                n += 1
                judge(ctx, r, ref, st, RING, 'kept', where +
                      ': a new ring, altered', seen)
    return n
