"""Presence analysis of optional state, assume-guarantee over histories. Every
optional field (one that some statement can leave None) is given an unknown
presence; which presences can occur together is inferred: candidates "f is
never absent", "f present implies g present" and "the members of list l have
f" start out assumed, and each one that some exit (return or raise) of some
public operation or constructor can break is dropped, until the rest is
inductive. Under what remains every use of a value that can be None (attribute,
item, iteration, arithmetic, format, call, index, unpacking, library argument)
must be infeasible: an assignment of presences that satisfies the invariants
and the path condition and makes the used value None is the report. Optional
parameters (default None) are varied in the same way, required ones are given.
"""
import itertools
from ..common import *
from ..exprs import isnone_term

LIMIT = 20000
RULE = {'none-attr': 'attribute of an absent value',
        'none-item': 'item of an absent value',
        'none-iter': 'iteration over an absent value',
        'none-op': 'arithmetic on an absent value',
        'none-format': 'formatting of an absent value',
        'none-call': 'call of an absent value',
        'none-index': 'indexing by an absent value',
        'none-unpack': 'unpacking of an absent value',
        'none-refused': 'refusal of an argument left out'}


def check(ctx):
    Presence(ctx).go()


class Presence:
    def __init__(self, ctx):
        self.ctx, self.repo = ctx, ctx.repo
        self.classes = [c for c in self.repo.classes.values()
                        if not c.is_enum and self.repo.field_specs(c)]
        ctx.anchor(self.classes, 'a class with stored fields')
        self.opt = {c: [n for n, s in self.repo.field_specs(c).items()
                        if s.get('opt')] for c in self.classes}
        self.member = {}            # (class, list field) -> element class
        for c in self.classes:
            for n, s in self.repo.field_specs(c).items():
                e = s.get('elem') or {}
                if e.get('kind') == 'inst':
                    self.member[c, n] = e['cls']
        self.never, self.imply, self.have = set(), set(), set()
        self.unresolved = {}
        for c, fs in self.opt.items():
            self.never |= {(c, f) for f in fs}
            self.imply |= {(c, f, g) for f in fs for g in fs if f != g}
        for (c, l), e in self.member.items():
            self.have |= {(c, l, f) for f in self.opt.get(e, ())}

    # ------------------------------------------------------------- histories
    def entries(self):
        for c in self.classes:
            for n, f in {**{n: f for k in reversed(c.mro())
                            for n, f in k.methods.items()},
                         }.items():
                if n.startswith('_') and not (n.startswith('__') and
                                              n.endswith('__')):
                    continue
                yield c, f, n == '__init__'
            for k in reversed(c.mro()):
                for f in list(k.getters.values()) + list(k.setters.values()):
                    yield c, f, False
        for f in self.repo.funcs:
            if f.cls is None and not f.name.startswith('_'):
                yield None, f, False

    def go(self):
        ctx = self.ctx
        self.runs = []
        for c, f, new in self.entries():
            if new:
                ip = Interp(self.repo)
                st = State()
                ref = ip.new_inst(c, st)
                r = run_in(ip, f, None, ref, None, c, st)
                r.self = ref
            else:
                r = run(self.repo, f, cls=c)
                r.self = None
            r.owner, r.new = c, new
            r.place = (c.name + '.' if c else '') + f.name
            self.runs.append(r)
            ctx.analysed(r)
            if r.failed:
                ctx.open('use', r.place, r.failed)
        self.infer()
        self.judge()

    # -------------------------------------------------------------- presence
    def obj_class(self, ip, oid):
        s = ip.symspec.get(strip_copy(oid)) or ip.symspec.get(oid)
        if s and s.get('kind') == 'inst':
            return s['cls']
        return None

    def owner_of(self, ip, oid):
        """(class, list field) whose member the symbolic object is."""
        t = strip_copy(oid)
        if isinstance(t, T) and t.op in ('elem', 'item'):
            b = t.args[0]
            if b.op == 'ref':
                b = b.args[0]
            if b.op == 'fld':
                c = self.obj_class(ip, b.args[0])
                if c is not None:
                    for k in c.mro():
                        if (k, b.args[1]) in self.member:
                            return k, b.args[1]
        return None

    def given(self, r, atom):
        """A forced truth value of an absence atom, or None."""
        t = strip_copy(atom.args[0])
        if t.op == 'fld':
            c = self.obj_class(r.ip, t.args[0])
            if c is None:
                return None
            f = t.args[1]
            if any((k, f) in self.never for k in c.mro()):
                return False
            o = self.owner_of(r.ip, t.args[0])
            if o and (o[0], o[1], f) in self.have:
                return False
            if c in self.opt and f not in self.opt[c]:
                return False
            return None
        if t.op == 'param':
            return None if t in r.optional else False
        return None

    def solve(self, r, cons):
        """As search for an assignment, but what an unresolved call returns
        is not taken to be None; where that matters the entry stays open."""
        x = self.solve1(r, cons)
        if x is None or not any(v and murky(a) for a, v in x.items()):
            return x
        self.unresolved.setdefault(r.place, [show(a, 4) for a, v in x.items(
            ) if v and murky(a)][0])
        extra = [(a, False) for t, _ in cons for a in atoms_of(expand(t))
                 if murky(a)]
        return self.solve1(r, list(cons) + extra)

    def solve1(self, r, cons):
        """An assignment of atoms under which every (term, truth) of cons
        holds and every invariant does; None if there is none."""
        cons = [(expand(t), p) for t, p in cons]
        atoms = []
        for t, _ in cons:
            for a in atoms_of(t):
                if a not in atoms:
                    atoms.append(a)
        fixed = {}
        by = {}
        for a in atoms:
            if a.op == 'isnone':
                g = self.given(r, a)
                if g is not None:
                    fixed[a] = g
                t = strip_copy(a.args[0])
                if t.op == 'fld':
                    by.setdefault(t.args[0], {}).setdefault(
                        t.args[1], []).append(a)
        for oid, fs in by.items():
            c = self.obj_class(r.ip, oid)
            if c is None:
                continue
            for f, xs in fs.items():
                for g, ys in fs.items():
                    for x in xs:
                        for y in ys:
                            if f == g and x is not y or any(
                                    (k, f, g) in self.imply
                                    for k in c.mro()):
                                # f present => g present
                                cons.append((t_or(x, t_not(y)), True))
        self.steps = 0
        return self.search(cons, fixed)

    def search(self, cons, val):
        self.steps += 1
        if self.steps > LIMIT:
            return None
        rest, pick = [], None
        for t, p in cons:
            v = tell(t, val)
            if v is None:
                rest.append((t, p))
                if pick is None:
                    pick = next((a for a in atoms_of(t) if a not in val),
                                None)
            elif v != p:
                return None
        if not rest:
            return val
        for b in (True, False):
            x = self.search(rest, {**val, pick: b})
            if x is not None:
                return x
        return None

    # ----------------------------------------------------------- invariants
    def infer(self):
        for r in self.runs:
            a = r.fn.node.args
            r.optional = set()
            pos = a.posonlyargs + a.args
            for p, d in list(zip(pos[len(pos) - len(a.defaults):],
                                 a.defaults)) + list(
                    zip(a.kwonlyargs, a.kw_defaults)):
                if isinstance(d, ast.Constant) and d.value is None:
                    r.optional.add(mk('param', p.arg))
            r.exits = [(st, o is None, w) for st, w, o in exits(r)
                       if not (r.new and o is not None)]
            # a normal return also says that no failure path was taken
            r.not_ = [p for p in [o.st.pc for o in r.raises] +
                      r.ip.refused if p]
            r.not_ = settled(r.st.pc if r.st else (), r.not_)
            # what an unresolved operation leaves is not known to be broken
            r.kept = [] if r.failed else [
                (st, w, x) for st, normal, w in r.exits
                for x in self.holders(r, st, normal)]
        self.dropped = {}
        while True:
            n = len(self.dropped)
            for r in self.runs:
                for st, w, (oid, c) in r.kept:
                    self.test(r, st, w, oid, c, list(st.pc) + (
                        r.not_ if st is r.st else []))
            if len(self.dropped) == n:
                break

    def holders(self, r, st, normal):
        """Instances whose stored state survives the call."""
        out = []
        for oid, o in st.heap.items():
            if o.kind == 'inst' and o.cls in self.opt and (
                    normal or pre_existing(oid)):
                out.append((oid, o.cls))
        return out

    def absent(self, r, oid, f, st):
        v = r.ip.get_field(oid, f, st)
        if v is None:
            return None
        v = simp(v, st)
        n = none_ness(v, st)
        return TRUE if n is True else FALSE if n is False else \
            isnone_term(v, st)

    def drop(self, cand, r, w, how):
        for s in (self.never, self.imply, self.have):
            s.discard(cand)
        self.dropped[cand] = (r.place, w, how)

    def test(self, r, st, w, oid, cls, pc):
        for c in cls.mro():
            fs = self.opt.get(c, ())
            no = {f: self.absent(r, oid, f, st) for f in fs}
            for f in fs:
                if no[f] is None:
                    continue
                if (c, f) in self.never and no[f] is not FALSE:
                    x = self.solve(r, [(no[f], True)] + pc)
                    if x is not None:
                        self.drop((c, f), r, w, x)
                for g in fs:
                    if (c, f, g) in self.imply and no[g] is not None and \
                            no[g] is not FALSE and no[f] is not TRUE:
                        x = self.solve(r, [(no[g], True), (no[f], False)] +
                                       pc)
                        if x is not None:
                            self.drop((c, f, g), r, w, x)
            for l in [l for k, l in self.member if k is c]:
                for f in [f for k, m, f in list(self.have)
                          if k is c and m == l]:
                    for ref, cond in self.members(r, oid, l, st):
                        m = self.absent(r, ref.args[0], f, st)
                        if m is None or m is FALSE:
                            continue
                        x = self.solve(r, [(m, True)] + cond + pc)
                        if x is not None:
                            self.drop((c, l, f), r, w, x)
        own = self.owner_of(r.ip, oid)
        if own and pre_existing(oid):
            for f in [f for k, m, f in list(self.have)
                      if (k, m) == own]:
                m = self.absent(r, oid, f, st)
                if m is not None and m is not FALSE:
                    x = self.solve(r, [(m, True)] + pc)
                    if x is not None:
                        self.drop(own + (f,), r, w, x)

    def members(self, r, oid, l, st):
        """References in a stored list, with the condition of being there."""
        v = r.ip.get_field(oid, l, st)
        out = []

        def walk(v, cond):
            v = simp(v, st)
            if v.op == 'gamma':
                walk(v.args[1], cond + [(v.args[0], True)])
                walk(v.args[2], cond + [(v.args[0], False)])
            elif v.op == 'ref':
                o = r.ip.obj(v.args[0], st)
                if o is not None and o.kind == 'list':
                    segs(o.segs, cond)
                elif o is not None and o.kind == 'inst':
                    out.append((v, cond))

        def segs(ss, cond):
            for s in ss:
                if s[0] == 'one':
                    walk(s[1], cond)
                elif s[0] == 'map':
                    segs(s[3], cond)
                elif s[0] == 'alt':
                    for x in s[1:]:
                        if isinstance(x, tuple):
                            segs(x, cond)
        if v is not None:
            walk(v, [])
        return out

    def left_out(self, r, no, pc):
        """The value is None only because an optional argument of the
        public operation was left out, whatever is stored."""
        cons = [(no, True)] + list(pc)
        atoms = [a for t, _ in cons for a in atoms_of(expand(t))
                 if a.op == 'isnone']
        out = [(a, a.args[0] not in r.optional) for a in atoms
               if a.args[0] in r.optional]
        if not out:
            return False
        return self.solve(r, cons) is not None and self.solve(
            r, cons + [(a, False) for a, _ in out]) is None

    # ---------------------------------------------------------------- report
    def judge(self):
        ctx = self.ctx
        for r in self.runs:
            seen = set()
            for k, v, what, fn, line, stack, pc in r.ip.hazards:
                no = TRUE if v is NONE else isnone_term(v, State())
                x = self.solve(r, [(no, True)] + list(pc))
                if k == 'none-refused' and x is not None and not (
                        self.left_out(r, no, pc)):
                    continue
                where = '%s: %s in %s' % (r.place, RULE.get(k, k),
                                          fn.qual if fn else '?')
                if x is None:
                    if (where, line) not in seen:
                        ctx.ok('use', where + ', line %s' % line)
                    seen.add((where, line))
                    continue
                gone = sorted(show(a.args[0], 5) for a, b in x.items()
                              if a.op == 'isnone' and b)
                ctx.bad('use', where, '%s%s is used although it can be None '
                        'when absent: %s' % (
                            show(v, 4), ' (%s)' % what if what else '',
                            ', '.join(gone) or 'nothing'), line)
            if r.fn.name in ('__repr__', '__str__'):
                for o in r.raises:
                    if o.node is None:
                        pass
                    x = self.solve(r, list(o.st.pc))
                    if x is not None:
                        ctx.bad('print', r.place, 'printing raises %s' %
                                '/'.join(o.excs or ['?']))
                if not r.raises:
                    ctx.ok('print', r.place)
        for place, what in sorted(self.unresolved.items()):
            ctx.open('use', place, what + ' depends on an unresolved call')
        for s, text in ((self.never, '%s.%s is never absent'),
                        (self.imply, '%s: %s present only with %s'),
                        (self.have, '%s: every member of %s has %s')):
            for x in sorted(s, key=lambda x: (x[0].name,) + x[1:]):
                ctx.ok('invariant', text % ((x[0].name,) + x[1:]))


def murky(a):
    """Whether something of an unresolved call is None."""
    return a.op == 'isnone' and contains(a, lambda t: t.op == 'opaque')


SOLID = ('np.', 'math.', 'fmt', 'str')


def absence(t):
    """None-ness of a term as a boolean term over simpler ones."""
    if t is NONE:
        return TRUE
    if t.op == 'gamma':
        return bgamma(t.args[0], absence(t.args[1]), absence(t.args[2]))
    if t.op == 'last':
        n, i, init, val = t.args[:4]
        return bgamma(mk('lt', const(0), n), absence(val), absence(init))
    if t.op.startswith(SOLID) or none_ness(t, State()) is False:
        return FALSE
    return mk('isnone', t)


def expand(t):
    if t.op == 'isnone':
        return absence(t.args[0])
    if t.op in ('and', 'or', 'not', 'gamma', 'bgamma'):
        return rebuild(t, [expand(x) for x in t.args])
    return t


def rebuild(t, a):
    if t.op == 'and':
        return t_and(*a)
    if t.op == 'or':
        return t_or(*a)
    if t.op == 'not':
        return t_not(*a)
    return bgamma(*a)


def settled(pc, failures):
    """What a normal return says: no failure path was taken. Each path is a
    conjunction; with all but one literal known to hold the last is refuted."""
    known, clauses = set(pc), []
    ends = {}
    for p in dict.fromkeys(failures):
        ends.setdefault((p[-1][0], not p[-1][1]), []).append(set(p[:-1]))
    for p in dict.fromkeys(failures):
        left = list(dict.fromkeys(p))
        for l in left[::-1]:
            # what comes before l already makes it hold
            others = known.union(x for x in left if x is not l)
            if l in known or any(e <= others for e in ends.get(l, ())):
                left.remove(l)
        if len(left) == 1:
            known.add((left[0][0], not left[0][1]))
        elif left:
            clauses.append(tuple(left))
    out = [x for x in known if x not in set(pc)]
    out += [(t_and(*[t if b else t_not(t) for t, b in q]), False)
            for q in clauses if len(q) < 6]
    return [(t, b) for t, b in out
            if any(a.op in ('isnone', 'exists') for a in atoms_of(t))]


def atoms_of(t):
    if t.op in ('and', 'or', 'not', 'gamma', 'bgamma'):
        for x in t.args:
            yield from atoms_of(x)
    elif t not in (TRUE, FALSE):
        yield t


def tell(t, val):
    """Three-valued truth of a boolean term."""
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == 'not':
        v = tell(t.args[0], val)
        return None if v is None else not v
    if t.op in ('and', 'or'):
        stop = t.op == 'or'
        unknown = False
        for x in t.args:
            v = tell(x, val)
            if v is stop:
                return stop
            unknown = unknown or v is None
        return None if unknown else not stop
    if t.op in ('gamma', 'bgamma'):
        c = tell(t.args[0], val)
        if c is None:
            a, b = tell(t.args[1], val), tell(t.args[2], val)
            return a if a == b else None
        return tell(t.args[1 if c else 2], val)
    return val.get(t)
