"""The list of rings, evaluated. Adding, replacing and removing a ring and the
accessors of a ring system are interpreted with a symbolic list, index and
ring; the term of the list at the normal exit, and the returned terms, are
unfolded for systems of up to four rings and every accepted index. Adding puts
the very ring at the index and shifts the later ones, replacing puts it in the
place of one ring, removing takes out exactly one; every other ring stays the
same object at the same relative place with its values. The accessors return
one value per ring, in order, of the ring they are named after."""
import os
from ..common import *
from ..ledger import *
from .c03 import Table
from .c16 import read
from .c17 import PARTS

ALONE = ('get_inner_radii', 'get_outer_radii', 'get_transmissions')


def check(ctx):
    repo = ctx.repo
    system, ring = repo.classes.get('RingSystem'), repo.classes.get('Ring')
    ctx.anchor(system is not None and ring is not None,
               'classes RingSystem and Ring')
    for name in ('add_ring', 'replace_ring', 'remove_ring'):
        f = system.find(name)
        ctx.anchor(f is not None, 'RingSystem.' + name)
        r = run(repo, f, cls=system)
        where = 'RingSystem.' + name
        if r.failed or r.st is None:
            ctx.open('edit', where, r.failed or 'no normal exit')
            continue
        ctx.analysed(r)
        edits(ctx, Rings(r, ring), f, name)
    for name, part in list(zip(ALONE, PARTS)) + [
            ('get_rings_data', None), ('get_num_rings', len)]:
        f = system.find(name)
        ctx.anchor(f is not None, 'RingSystem.' + name)
        r = run(repo, f, cls=system)
        where = 'RingSystem.' + name
        if r.failed or r.st is None:
            ctx.open('report', where, r.failed or 'no normal exit')
            continue
        ctx.analysed(r)
        reports(ctx, Rings(r, ring), f, where, part)


class Rings:
    def __init__(self, r, ring):
        self.r, self.ip = r, r.ip
        oid = r.env['self'].args[0]
        self.before = r.ip.den(r.ip.get_field(oid, 'rings', r.st0), r.st0)
        self.after = r.ip.get_field(oid, 'rings', r.st)
        item = r.ip.sym(dict(kind='inst', cls=ring), mk('generic', 'ring'))
        self.stored = {}
        for p in PARTS:
            t = read(r.ip, item, p, r.st0)
            t = strip_all(t) if t is not None else None
            if t is not None and t.op == 'fld':
                self.stored[p] = t.args[1]

    def things(self, rows):
        return [Thing({self.stored[p]: x for p, x in zip(PARTS, w)},
                      'ring %d' % k) for k, w in enumerate(rows)]

    def ledger(self, things, more=(), types=()):
        val = {self.before: things, mk('ref', self.before): things}
        val.update(more)
        return Ledger(self.ip, self.r.st, val, dict(types))


def systems():
    for taus in ((Q(1, 7), Q(2, 7), Q(3, 7), Q(4, 7)), (1, Q(1, 2), 0, 1),
                 (Q(1, 2),) * 4):
        for n in range(5):
            at, rows = Q(1), []
            for k in range(n):
                rows.append((at, at + k + 1, Q(taus[k])))
                at += 2 * k + 5
            yield rows


def arrangements():
    """Rings in any order, overlapping, alike."""
    for rows in systems():
        yield rows
        if len(rows) > 1:
            yield rows[::-1]
    yield [(Q(1), Q(9), Q(1, 2)), (Q(1), Q(2), Q(1, 2)), (Q(4), Q(5), Q(0))]
    yield [(Q(2), Q(3), Q(1))] * 3
    yield [(Q(1, 3), Q(123456789, 10 ** 5), Q(1, 10 ** 7)),
           (Q(1, 3) + Q(1, 10 ** 8), Q(123456790, 10 ** 5), Q(0))]


def new_ring(rows, k, replace):
    """A ring that fits at this index."""
    lo = rows[k - 1][1] if k else Q(1, 8)
    nxt = k + 1 if replace else k
    hi = rows[nxt][0] if nxt < len(rows) else lo + 3
    return lo + (hi - lo) / 5, hi - (hi - lo) / 5, Q(3, 11)


def edits(ctx, rs, f, name):
    ps = [a.arg for a in f.node.args.args][1:]
    r = rs.r
    tab = {k: Table(ctx, 'RingSystem.%s, %s' % (name, k), f.node.lineno)
           for k in ('order', 'values')}
    if len(rs.stored) < len(PARTS):
        tab['order'].row(None, 'values of a ring')
    for rows in systems():
        n = len(rows)
        for k in range(n + 1 if name == 'add_ring' else n):
            things = rs.things(rows)
            want = ['ring %d' % j for j in range(n)]
            vals = list(rows)
            more = {r.env[ps[0]]: Q(k)}
            if name == 'remove_ring':
                del want[k], vals[k]
            else:
                fit = new_ring(rows, k, name == 'replace_ring')
                x = Thing({rs.stored[p]: v for p, v in zip(PARTS, fit)},
                          'the ring given')
                for b in branches(r.env[ps[1]]):
                    more[b] = x
                cut = slice(k, k if name == 'add_ring' else k + 1)
                want[cut], vals[cut] = ['the ring given'], [fit]
            led = rs.ledger(things, more, {r.env[ps[0]]: 'int'})
            text = '%d rings, index %d' % (n, k)
            try:
                v = led.ev(rs.ip.den(rs.after, r.st))
                if not isinstance(v, list):
                    raise Unknown('no list')
                got = [who(x) for x in v]
                nums = [tuple(num(led.attr(x, rs.stored[p])) for p in PARTS)
                        for x in v]
            except Raises as e:
                tab['order'].row(False, '%s: raises (%s)' % (text, e))
                continue
            except (Unknown, RecursionError) as e:
                if os.environ.get('VERIF_DEBUG'):
                    print('unknown:', e)
                tab['order'].row(None, '%s: %s' % (text, e))
                continue
            if any(x not in list(things) + [more.get(b) for b in more]
                   for x in v):
                # another object: at least its values must be right
                tab['order'].row(None if nums == vals else False,
                                 text + ': %s instead of %s' % (
                                     got, want))
                continue
            tab['order'].row(got == want, '%s: the rings are %s instead of '
                             '%s' % (text, got, want))
            if got == want:
                tab['values'].row(nums == vals, '%s: the values are %s' % (
                    text, nums))
    for t in tab.values():
        t.done('edit')


def who(x):
    return getattr(x, 'name', None)


def reports(ctx, rs, f, where, part):
    r, tab = rs.r, Table(ctx, where, f.node.lineno)
    t = rs.ip.den(r.value, r.st)
    for rows in arrangements():
        led = rs.ledger(rs.things(rows))
        try:
            if part is len:
                got, want = num(led.ev(t)), Q(len(rows))
            elif part:
                got = [num(x) for x in listed(led.ev(t))]
                want = [w[PARTS.index(part)] for w in rows]
            else:
                if t.op in ('tuple', 'list') and len(t.args) == 3:
                    vs = [led.ev(rs.ip.den(x, r.st)) for x in t.args]
                else:
                    vs = list(led.ev(t))
                got = [[num(x) for x in listed(v)] for v in vs]
                want = [[w[k] for w in rows] for k in range(3)]
        except Raises as e:
            tab.row(False, '%d rings: raises (%s)' % (len(rows), e))
            continue
        except (Unknown, RecursionError, TypeError) as e:
            if os.environ.get('VERIF_DEBUG'):
                print('unknown:', e)
            tab.row(None, str(e))
            continue
        tab.row(got == want, '%d rings: %s instead of %s' % (
            len(rows), got, want))
    tab.done('report')


def listed(v):
    if not isinstance(v, (list, tuple)):
        raise Unknown('no list')
    return v
