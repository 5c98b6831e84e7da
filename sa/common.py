"""Shared rules: entry points, frame (exit-state) comparison, provenance."""
import ast
from .terms import *
from .state import *
from .repo import AnalysisError
from .interp import strip_copy
from .run import run, run_in, find_func, call_in, Run, default_self
from .interp import Interp

UNINTERPRETED = ('opaque', 'choice', 'havoc', 'unknown', 'mu')


def uninterpreted(t):
    return isinstance(t, T) and contains(
        t, lambda x: x.op in UNINTERPRETED)


def root_of(oid):
    """Root kind and the access path of a symbolic object."""
    path = []
    t = oid
    while isinstance(t, T):
        if t.op == 'fld':
            path.append('.' + str(t.args[1]))
            t = t.args[0]
        elif t.op in ('elem', 'item'):
            path.append('[*]')
            t = t.args[0]
        elif t.op == 'dcopy':
            return 'new', t, ''
        elif t.op == 'ref':
            t = t.args[0]
        else:
            break
    return t.op, t, ''.join(reversed(path))


def pre_existing(oid):
    k, t, _ = root_of(oid)
    return k in ('root', 'param', 'global')


def label(oid):
    k, t, p = root_of(oid)
    base = str(t.args[0]) if t.args else k
    if k == 'root':
        base = 'self'
    return base + p


class Change:
    def __init__(self, oid, what, before, after):
        self.oid, self.what, self.before, self.after = \
            oid, what, before, after

    @property
    def name(self):
        return label(self.oid) + (self.what if self.what[:1] in '.[' else
                                  '')

    @property
    def definite(self):
        return not uninterpreted(self.after)

    def __repr__(self):
        return '%s: %s -> %s' % (self.name, show(self.before, 4),
                                 show(self.after, 5))


def same_value(ip, a, sa, b, sb, depth=0):
    """True / False / None: does a in state sa denote what b does in sb?"""
    if a is b and a.op not in ('ref', 'gamma', 'tuple'):
        return True
    b = simp(b, sb)
    if a.op == 'gamma' or b.op == 'gamma':
        if a.op == 'gamma' and b.op == 'gamma' and a.args[0] is b.args[0]:
            r = [same_value(ip, a.args[i], sa, b.args[i], sb, depth)
                 for i in (1, 2)]
            return _all(r)
        # push the first gamma into both sides
        g = (a if a.op == 'gamma' else b).args[0]
        if depth < 12:
            r = []
            for i, pol in ((1, True), (2, False)):
                s2 = sb.copy()
                s1 = sa.copy()
                if not s2.assume(g, pol) or not s1.assume(g, pol):
                    continue
                r.append(same_value(ip, pick(a, g, i), s1, pick(b, g, i),
                                    s2, depth + 1))
            return _all(r)
        return None
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        return _all([same_value(ip, x, sa, y, sb, depth + 1)
                     for x, y in zip(a.args, b.args)])
    if a.op == 'ref' and b.op == 'ref':
        if a is b:
            return True         # contents are compared per object
        oa, ob = ip.obj(a.args[0], sa), ip.obj(b.args[0], sb)
        if oa is None or ob is None or oa.kind != ob.kind:
            return False
        if oa.kind == 'inst':
            if depth > 4:
                return None
            fs = set(oa.fields) | set(ob.fields)
            if oa.extra == 'sym':
                fs |= set(ip.repo.field_specs(oa.cls))
            r = []
            for f in sorted(fs):
                x = ip.get_field(a.args[0], f, sa)
                y = ip.get_field(b.args[0], f, sb)
                if x is None and y is None:
                    continue
                if x is None or y is None:
                    return False
                r.append(same_value(ip, x, sa, y, sb, depth + 1))
            return _all(r)
        if oa.kind == 'list' and oa.elem and oa.elem.get('kind') == 'inst':
            # same elements in the same order?
            x = ip.segs_term(oa, a.args[0], sa)
            y = ip.segs_term(ob, b.args[0], sb)
            if x is y:
                return True
            ia = ip.init_obj(a.args[0])
            if ia is not None and ob.segs == ia.segs:
                return True
    x, y = ip.den(a, sa), ip.den(b, sb)
    x, y = strip_all(x), strip_all(y)
    if x is y:
        return True
    y2 = deep_simp(y, sb)
    if x is y2:
        return True
    if uninterpreted(y2):
        return None
    return False


def strip_all(t):
    return rewrite(t, lambda x: x.args[1] if x.op == 'dcopy' else x)


def pick(t, g, i):
    return t.args[i] if t.op == 'gamma' and t.args[0] is g else t


def _all(r):
    if any(x is False for x in r):
        return False
    if any(x is None for x in r):
        return None
    return True


def changes(r, st, at=None):
    """Pre-existing objects whose contents differ from entry at state st
    (inside a loop at node `at`: in some iteration, the first for one)."""
    out = []
    for c, e in changed(r, st):
        if e is None and at is not None and c.before is not ABSENT:
            y = first_round(r.ip, st, at, c.after)
            if y is not None and differs(c.before, *y) is False:
                e, c = False, Change(c.oid, c.what, c.before, y[0])
        out.append((c, e))
    return out


def changed(r, st):
    ip, st0 = r.ip, r.st0
    out = []
    for oid, o in st.heap.items():
        if not pre_existing(oid):
            continue
        o0 = st0.heap.get(oid) or ip.init_obj(oid)
        if o0 is None or o is o0:
            continue
        if o.kind == 'inst':
            for f, v in o.fields.items():
                v0 = o0.fields.get(f)
                if v0 is None and o0.extra == 'sym':
                    v0 = ip.sym_field(oid, f, o.cls)
                if v0 is None:
                    if v is UNDEF:
                        continue
                    out.append((Change(oid, '.' + f, ABSENT, v), None))
                    continue
                e = same_value(ip, v0, st0, v, st)
                if e is not True:
                    c = Change(oid, '.' + f, v0, ip.den(v, st))
                    out.append((c, e))
        elif o.kind == 'list':
            if o.segs != o0.segs:
                x, y = ip.segs_term(o0, oid, st0), ip.segs_term(o, oid, st)
                e = differs(x, y, st)
                if e is not True:
                    out.append((Change(oid, '[]', x, y), e))
        else:
            x, y = o0.content, ip.den(mk('ref', oid), st)
            if y is not None and x is not y:
                e = differs(x, y, st)
                if e is not True:
                    out.append((Change(oid, '[]', x, y), e))
    return out


def first_round(ip, st, node, t):
    """The value of t at a node inside a loop, when every loop around it is
    in its first iteration, and the state that makes; None where that cannot
    be said (or cannot happen)."""
    if node is None or not node.loops or not isinstance(t, T) or \
            not contains(t, lambda x: x.op == 'mu'):
        return None
    lids = {c[0] for c in node.loops}
    zero = {c[2]: const(0) for c in node.loops}

    def first(x):
        for _ in range(8):
            if x.op != 'mu' or x.args[0] not in lids:
                break
            x = ip.loop_entry.get(x, x)
        if x.op == 'earlier' and x.args[0] in lids:
            return FALSE
        return zero.get(x, x)
    s2 = st.copy()
    s2.facts = {}
    memo = {}
    for c, pol in list(st.facts.items()) + list(st.pc):
        if not isinstance(pol, bool):
            s2.facts[c] = pol
        elif not s2.assume(rewrite(c, first, memo), pol):
            return None
    return rewrite(t, first, memo), s2


def differs(x, y, st, budget=None):
    """True (same) / False (differs on some path) / None; y is split along
    its guards so that one interpreted path with another value is enough."""
    if x is y:
        return True
    budget = budget if budget is not None else [64]
    if y.op == 'gamma' and budget[0] > 0:
        budget[0] -= 1
        r = []
        for i, pol in ((1, True), (2, False)):
            s2 = st.copy()
            if not s2.assume(y.args[0], pol):
                continue
            r.append(differs(simp(x, s2), simp(y.args[i], s2), s2, budget))
            if r[-1] is False:
                return False
        return _all(r)
    y = deep_simp(y, st)
    if x is y:
        return True
    if y.op == 'gamma' and budget[0] > 0:
        budget[0] -= 1
        return differs(x, y, st, budget)
    return None if uninterpreted(y) else False


def exits(r):
    """(state, description, outcome) of every way the call ends."""
    out = []
    if r.st is not None:
        out.append((r.st, 'normal return', None))
    for o in r.raises:
        out.append((o.st, 'raise ' + '/'.join(o.excs or ['?']) + (
            ' (%s)' % ' '.join(str(x) for x in o.why[:3]) if isinstance(
                o.why, tuple) else ''), o))
    return out


def public_methods(repo, pred):
    out = []
    for c in repo.classes.values():
        seen = set()
        for k in c.mro():
            for n, f in k.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if pred(c, n, f):
                    out.append((c, f))
    return out


ECLIPSE = ('_eclipse_duration', '_transverse_velocity', '_limb_darkening')


def eclipse_fields(repo):
    """The attributes a grid keeps its eclipse parameters in: those which
    set_eclipse_parameters gives the values of its parameters."""
    out = getattr(repo, '_eclipse_fields', None)
    if out is not None:
        return out
    out = {n: n for n in ECLIPSE}
    repo._eclipse_fields = out
    c = repo.classes.get('ShallotGrid')
    if c is None or all(n in repo.field_specs(c) for n in ECLIPSE):
        return out
    f = c.find('set_eclipse_parameters')
    if f is None:
        return out
    from .run import run
    r = run(repo, f, cls=c)
    if r.failed or r.st is None:
        return out
    o = r.st.heap.get(r.env['self'].args[0])
    for n in ECLIPSE:
        p = mk('param', n.strip('_'))
        for k, v in (o.fields if o else {}).items():
            if any(strip_all(r.ip.den(x, r.st)) is p for x in branch_ends(v)):
                out[n] = k
                break
    return out


def branch_ends(v):
    if v.op == 'gamma':
        return branch_ends(v.args[1]) + branch_ends(v.args[2])
    return [v]
