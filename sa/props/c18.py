"""Angle-unit inference. Every public operation is interpreted abstractly;
over all value-flow terms it produces (stored, returned, passed on, compared)
units are inferred from the named angles of the interface, which are degrees.
Every trigonometric function must receive radians, every conversion the unit
it converts from, no sum, choice or comparison may mix degrees and radians,
and no angle in radians may be stored in or returned from the interface."""
from ..common import *
from ..units import *
from .c04 import run_new


def check(ctx):
    repo = ctx.repo
    names = [(c, n) for c in repo.classes.values() for n in NAMES
             if c.find(n) or c.find_getter(n) or n in repo.field_specs(c)
             or '_' + n in repo.field_specs(c)]
    ctx.anchor(len(names) > 0, 'attributes named inclination or tilt')
    u = Judge(ctx)
    for cls in repo.classes.values():
        if cls.find('__init__') is not None:
            u.take(run_new(repo, cls), cls.name + '()')
    for c, f in public_methods(repo, lambda c, n, f: not n.startswith('_')
            or n in ('__str__', '__repr__')):
        u.take(run(repo, f, cls=c), '%s.%s' % (c.name, f.name))
    for f in repo.funcs:
        if f.cls is None and not f.name.startswith('_'):
            u.take(run(repo, f), '%s.%s' % (f.module.name, f.name))
    u.done()


class Judge:
    def __init__(self, ctx):
        self.ctx, self.seen, self.found = ctx, set(), {}
        self.trig = 0

    def take(self, r, where):
        ctx = self.ctx
        ctx.analysed(r)
        if r.failed:
            ctx.open('units', where, r.failed)
            return
        self.r, self.where = r, where
        self.line = r.fn.node.lineno
        units = self.u = Units()
        roots = self.roots()
        found = self.found
        for x in roots:
            for t in subterms(x):
                if t.id in self.seen:
                    continue
                self.seen.add(t.id)
                if t.op in TRIG:
                    self.argument(t)
                units.of(t)
        for t, text in units.conflicts:
            if t.id not in found:
                found[t.id] = 1
                ctx.bad('mixed', where, text + ': ' + show(t, 4), self.line)
        self.interface()

    def roots(self):
        r = self.r
        out = []
        for n in r.ip.nodes:
            if n.kind in ('write', 'extcall', 'return', 'check', 'extset',
                          'fs_write', 'extmeth', 'raise', 'branch'):
                out += flat(n.data)
            out += [x for x, _ in n.pc]
        for st, how, o in exits(r):
            for ob in st.heap.values():
                if ob.kind == 'inst':
                    out += [v for v in ob.fields.values()
                            if isinstance(v, T)]
                elif ob.kind == 'arr':
                    if isinstance(ob.content, T):
                        out.append(ob.content)
                else:
                    out += flat(ob.segs)
            if o is None and isinstance(r.value, T):
                out.append(r.ip.den(r.value, st))
        return out

    def argument(self, t):
        u = self.u.of(t.args[0])
        w = '%s: %s' % (self.where, t.op)
        if u == DEG:
            self.ctx.bad('radians', w, 'the argument is in degrees: %s' %
                          show(t, 4), self.line)
        elif u == RAD or u is ANY or isinstance(u, tuple):
            self.trig += 1
            self.ctx.ok('radians', w, 'receives radians')
        else:
            self.ctx.open('radians', w, 'unit not known: ' + show(t, 4))

    # -------------------------------------------------------- the interface
    def interface(self):
        r, u = self.r, self.u
        for n in r.ip.nodes:
            if n.kind == 'fs_write' and isinstance(n.data[1], T) and \
                    u.of(self.value_of(n.data[1], r.st or r.st0)) == RAD:
                self.ctx.bad('saved', self.where, 'saves an angle in '
                             'radians: ' + show(n.data[1], 4), n.line)
            if n.kind != 'write':
                continue
            oid, what, v = n.data
            if what[0] == 'field' and base_name(what[1]) in NAMES:
                self.shown('stored', '%s -> %s' % (self.where, base_name(
                    what[1])), v, r.st or r.st0, n.line)
        if r.st is None or not isinstance(r.value, T):
            return
        f = r.fn
        if f.kind == 'getter' and base_name(f.name) in NAMES:
            self.shown('returned', self.where, r.value, r.st, self.line)
        else:
            vals = r.ip.exact_seq(r.value, r.st) if r.value.op in (
                'ref', 'tuple') else None
            for v in vals or [r.value]:
                x = u.of(self.value_of(v, r.st))
                if x == RAD:
                    self.ctx.bad('returned', self.where, 'returns an angle '
                                  'in radians: ' + show(v, 4), self.line)

    def value_of(self, v, st):
        v = simp(v, st)
        if v.op == 'gamma':
            return mk('gamma', v.args[0], self.value_of(v.args[1], st),
                      self.value_of(v.args[2], st))
        if v.op == 'ref':
            o = self.r.ip.obj(v.args[0], st)
            if o is not None and o.kind == 'inst':
                d = self.r.ip.get_field(v.args[0], 'data', st)
                return self.value_of(d, st) if d is not None else v
        return self.r.ip.den(v, st)

    def shown(self, rule, where, v, st, line):
        t = self.value_of(v, st)
        u = self.u.of(t)
        if u == RAD:
            self.ctx.bad(rule, where, 'an angle in radians: ' + show(t, 4),
                          line)
        elif u == DEG or u is ANY or isinstance(u, tuple):
            self.ctx.ok(rule, where, 'in degrees')
        else:
            self.ctx.open(rule, where, 'unit not known: ' + show(t, 4))

    def done(self):
        if not self.trig:
            self.ctx.open('radians', 'all', 'no trigonometric call with a '
                          'known unit')


def flat(x):
    if isinstance(x, T):
        return [x]
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, dict):
        return [z for y in x.values() for z in flat(y)]
    return []
