"""Failure-atomicity analysis. Every public mutator is interpreted from an
unknown valid object with unknown arguments; for each way it can end in a
raised validation or value error (each failing check, each explicit raise,
through every helper it calls) the abstract heap at the raise is compared with
the heap at entry: no field, list or array of the receiver or of an object it
holds may differ. Field domains established by C04/C05 are assumed, so a check
that re-validates a stored value cannot fail."""
from .. import state as S
from ..common import *

REJECT = {'ValueError', 'TypeError', 'AttributeError', 'RuntimeError',
          'AssertionError'}


def rejecting(ip, o):
    """Is this outcome a refusal of the input (and not an internal error)?"""
    for e in o.excs or []:
        mro = ip.exc_mro(e)
        if 'LoadError' in mro:
            return False
        if any(m in ('ValueError', 'TypeError') for m in mro):
            return True
        c = ip.repo.classes.get(e)
        if c is not None:
            return True
        if any(m in ('AttributeError', 'RuntimeError', 'AssertionError')
               for m in mro) and explicit(o):
            return True
    return False


def explicit(o):
    return o.why is None or (isinstance(o.why, (tuple, str)) and
                             'raise' in str(o.why))


def check(ctx):
    repo = ctx.repo
    S.FIELD_BOUNDS.clear()
    S.FIELD_BOUNDS.update(S.DOMAIN)
    for n, kept in eclipse_fields(ctx.repo).items():
        S.FIELD_BOUNDS[kept] = S.DOMAIN[n]
    nops = nr = 0
    ops = public_methods(repo, lambda c, n, f: f.kind == 'method')
    for c in repo.classes.values():
        for f in c.setters.values():
            ops.append((c, f))
    for cls, f in ops:
        if cls.is_enum or f.name == '__init__' or (
                f.name.startswith('_') and not f.name.startswith('__')):
            continue
        r = run(repo, f, cls=cls)
        ctx.analysed(r)
        if r.failed:
            continue        # noted as unresolved
        where = '%s.%s' % (cls.name, f.name)
        rej = [o for o in r.raises if rejecting(r.ip, o)]
        if not rej:
            continue
        nops += 1
        bad = set()
        for o in rej:
            nr += 1
            src = o.why if isinstance(o.why, tuple) else ('raise',)
            for ch, e in changes(r, o.st, o.node):
                if root_of(ch.oid)[0] != 'root':
                    continue
                bad.add(ch.name)
                ctx.decide(
                    False if e is False else None, 'atomic',
                    '%s -> %s' % (where, ch.name),
                    'already changed when %s is raised (%s, line %s): %s' % (
                        '/'.join(o.excs), ' '.join(map(str, src[:3])),
                        o.node.line if o.node else '?', ch),
                    o.node.line if o.node else None)
        if not bad:
            ctx.ok('atomic', where, '%d rejecting exits leave the receiver '
                   'as it was' % len(rej))
    S.FIELD_BOUNDS.clear()
    ctx.anchor(nops >= 20 and nr >= 60,
               'rejecting operations (%d with %d exits)' % (nops, nr))
    for name in ('GridProperty.set_contrast_parameters',
                 'GridGradient.determine_mask', 'GridParameters.extend_grid',
                 'ShallotGrid.add_gradients', 'RingSystem.add_ring',
                 'RingSystem.split_rings',
                 'ShallotGrid.set_eclipse_parameters'):
        find_func(repo, name)
