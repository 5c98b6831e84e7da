"""Abstract states: variables, heap, facts, virtual file system."""
from .terms import *


class HObj:
    __slots__ = ('kind', 'cls', 'fields', 'content', 'base', 'segs', 'elem',
                 'extra', 'narrow')

    def __init__(self, kind, cls=None, fields=None, content=None, base=None,
                 segs=None, elem=None, extra=None, narrow=None):
        self.kind, self.cls, self.fields = kind, cls, fields
        self.content, self.base, self.segs = content, base, segs
        self.elem, self.extra = elem, extra
        self.narrow = narrow        # element type that loses digits

    def clone(self):
        return HObj(self.kind, self.cls,
                    dict(self.fields) if self.fields is not None else None,
                    self.content, self.base, self.segs, self.elem, self.extra,
                    self.narrow)

    def same(self, o):
        return (self.kind == o.kind and self.cls is o.cls and
                self.fields == o.fields and self.content is o.content and
                self.base == o.base and self.segs == o.segs)


class State:
    __slots__ = ('vars', 'heap', 'facts', 'pc', 'fs', 'node', 'frames',
                 'touched')

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.facts = {}
        self.pc = ()
        self.fs = {}
        self.node = 0
        self.frames = ()        # enclosing activations: (fid, vars)
        self.touched = {}       # symbolic objects materialised (none stored)

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.pc = self.pc
        s.fs = dict(self.fs)
        s.node = self.node
        s.frames = self.frames
        return s

    def become(self, o):
        for a in ('vars', 'heap', 'facts', 'pc', 'fs', 'node', 'frames'):
            setattr(self, a, getattr(o, a))

    # -- facts
    def assume(self, c, pol=True):
        """Record that c has truth value pol; False if contradictory."""
        d = decide(c, self)
        if d is not None:
            return d == pol
        self._add(c, pol)
        return True

    def _add(self, c, pol):
        if c.op == 'not':
            self._add(c.args[0], not pol)
            return
        if c.op == 'truthy' and pol:
            x = c.args[0]
            self.facts[mk('isnone', x)] = False
        if (c.op == 'and' and pol) or (c.op == 'or' and not pol):
            for a in c.args:
                self._add(a, pol)
        elif c.op in ('and', 'or'):
            # unit resolution: remaining literal
            rest = [a for a in c.args
                    if decide(a, self) is None]
            if len(rest) == 1:
                self._add(rest[0], pol)
            self.facts[c] = pol
            return
        elif c.op == 'gamma':
            g, a, b = c.args
            da, db = decide(a, self), decide(b, self)
            if da is not None and da != pol:
                self._add(g, False)
                self._add(b, pol)
            elif db is not None and db != pol:
                self._add(g, True)
                self._add(a, pol)
        elif c.op == 'isnone' and c.args[0].op == 'gamma':
            g, a, b = c.args[0].args
            da, db = none_ness(a, self), none_ness(b, self)
            if da is not None and da != pol:
                self._add(g, False)
                if db is None:
                    self._add(mk('isnone', b), pol)
            elif db is not None and db != pol:
                self._add(g, True)
                if da is None:
                    self._add(mk('isnone', a), pol)
        self.facts[c] = pol


def none_ness(v, st):
    """True / False / None(unknown): is v None?"""
    if v is NONE:
        return True
    if v.op in ('const', 'ref', 'tuple', 'str', 'nan', 'pi', 'func', 'class',
                'bound', 'enum', 'add', 'sub', 'mul', 'div', 'pow', 'lt',
                'le', 'eq', 'ne', 'not', 'and', 'or', 'isnone', 'neg',
                'len', 'ext', 'idx', 'closure', 'exc', 'list', 'isnan'):
        return False
    if v.op == 'gamma':
        d = decide(v.args[0], st)
        if d is True:
            return none_ness(v.args[1], st)
        if d is False:
            return none_ness(v.args[2], st)
        a, b = none_ness(v.args[1], st), none_ness(v.args[2], st)
        return a if a == b else None
    f = st.facts.get(mk('isnone', v))
    return f


def decide(c, st, depth=0):
    """Truth of boolean term c under the facts of st, or None."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == 'const':
        return bool(cval(c))
    if c in st.facts:
        return st.facts[c]
    if depth > 8:
        return None
    o = c.op
    if o == 'not':
        d = decide(c.args[0], st, depth + 1)
        return None if d is None else (not d)
    if o == 'and':
        r = True
        for a in c.args:
            d = decide(a, st, depth + 1)
            if d is False:
                return False
            if d is None:
                r = None
        return r
    if o == 'or':
        r = False
        for a in c.args:
            d = decide(a, st, depth + 1)
            if d is True:
                return True
            if d is None:
                r = None
        return r
    if o == 'gamma':
        d = decide(c.args[0], st, depth + 1)
        if d is True:
            return decide(c.args[1], st, depth + 1)
        if d is False:
            return decide(c.args[2], st, depth + 1)
        a = decide(c.args[1], st, depth + 1)
        b = decide(c.args[2], st, depth + 1)
        return a if a == b else None
    if o == 'isnone':
        n = none_ness(c.args[0], st)
        if n is None and c.args[0].op == 'gamma':
            g, a, b = c.args[0].args
            return None
        return n
    if o == 'truthy':
        v = c.args[0]
        if v.op == 'str':
            return True if any(is_str(p) and cval(p) for p in v.args) \
                else None
        if none_ness(v, st) is True:
            return False
        return None
    if o in ('lt', 'le', 'eq', 'ne'):
        return decide_cmp(c, st)
    if o == 'isnan' and FIELD_BOUNDS and c.args[0].op == 'fld' and \
            c.args[0].args[1] in FIELD_BOUNDS:
        return False
    return None


def _f(st, op, a, b):
    return st.facts.get(mk(op, a, b))


def decide_cmp(c, st):
    a, b = c.args
    o = c.op
    if is_num(a) and is_num(b) or (is_str(a) and is_str(b)):
        x, y = cval(a), cval(b)
        return {'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}[o]
    if a is NAN or b is NAN:
        return o == 'ne'
    if o in ('eq', 'ne') and (a is NONE or b is NONE):
        n = none_ness(b if a is NONE else a, st)
        return None if n is None else (n == (o == 'eq'))
    if o in ('eq', 'ne') and {a.op, b.op} <= {'enum'}:
        return (a is b) == (o == 'eq')
    if a is b:
        if o == 'lt':
            return False
        if st.facts.get(mk('isnan', a)) is False or a.op in (
                'enum', 'len', 'idx', 'str', 'tuple'):
            return o in ('le', 'eq')
    if o == 'lt':
        if _f(st, 'le', b, a) or _f(st, 'eq', a, b) or _f(st, 'lt', b, a) \
                or _f(st, 'eq', b, a):
            return False
    elif o == 'le':
        if _f(st, 'lt', a, b) or _f(st, 'eq', a, b) or _f(st, 'eq', b, a):
            return True
        if _f(st, 'lt', b, a):
            return False
    elif o in ('eq', 'ne'):
        if _f(st, 'lt', a, b) or _f(st, 'lt', b, a):
            return o == 'ne'
        e = _f(st, 'eq', b, a)
        if e is not None:
            return e == (o == 'eq')
        if o == 'ne':
            e = _f(st, 'eq', a, b)
            if e is not None:
                return not e
    # bounds by constants
    la, ua = bounds(a, st)
    lb, ub = bounds(b, st)
    if o == 'lt':
        if ua is not None and lb is not None and (
                ua[0] < lb[0] or (ua[0] == lb[0] and (ua[1] or lb[1]))):
            return True
        if la is not None and ub is not None and la[0] >= ub[0]:
            return False
    elif o == 'le':
        if ua is not None and lb is not None and ua[0] <= lb[0]:
            return True
        if la is not None and ub is not None and (
                la[0] > ub[0] or (la[0] == ub[0] and (la[1] or ub[1]))):
            return False
    elif o in ('eq', 'ne'):
        if (ua and lb and (ua[0] < lb[0] or (
                ua[0] == lb[0] and (ua[1] or lb[1])))) or \
                (la and ub and (la[0] > ub[0] or (
                    la[0] == ub[0] and (la[1] or ub[1])))):
            return o == 'ne'
    return None


# Domain invariants of stored fields (field name -> (low, high)), switched on
# by checks that may assume what the domain checks (C04, C05) establish.
FIELD_BOUNDS = {}
DOMAIN = {
    'measured_gradient': (0, None), 'measured_error': (0, None),
    'orbital_scale': (0, None), 'transmission_change': (0, 1),
    '_eclipse_duration': (0, None), '_transverse_velocity': (0, None),
    '_limb_darkening': (0, 1), 'num_fxfy': (1, None),
    'num_colors': (2, None), 'planet_radius': (0, None),
    '_inclination': (0, 90), '_tilt': (-180, 180), '_transmission': (0, 1),
    '_inner_radius': (0, None), '_outer_radius': (0, None),
    'inclination': (0, 90), 'tilt': (-180, 180), 'transmission': (0, 1),
}


def bounds(t, st):
    """Constant bounds ((value, strict) or None) known for t."""
    if is_num(t):
        return (cval(t), False), (cval(t), False)
    lo = hi = None
    if FIELD_BOUNDS and t.op == 'fld' and t.args[1] in FIELD_BOUNDS:
        a, b = FIELD_BOUNDS[t.args[1]]
        lo = None if a is None else (a, False)
        hi = None if b is None else (b, False)
    if t.op in ('len', 'idx'):
        lo = (0, False)
    for f, pol in st.facts.items():
        if f.op not in ('lt', 'le') or not pol:
            continue
        x, y = f.args
        s = f.op == 'lt'
        if y is t and is_num(x):
            v = (cval(x), s)
            if lo is None or v[0] > lo[0] or (v[0] == lo[0] and s):
                lo = v
        elif x is t and is_num(y):
            v = (cval(y), s)
            if hi is None or v[0] < hi[0] or (v[0] == hi[0] and s):
                hi = v
    return lo, hi


def simp(v, st, memo=None):
    """Resolve gammas at the top of v that the facts decide."""
    while v.op == 'gamma':
        d = decide(v.args[0], st)
        if d is True:
            v = v.args[1]
        elif d is False:
            v = v.args[2]
        else:
            a, b = simp(v.args[1], st), simp(v.args[2], st)
            return gamma(v.args[0], a, b)
    return v


def deep_simp(v, st):
    def fn(t):
        if t.op == 'gamma':
            return simp(t, st)
        if t.op in BOOL_OPS:
            d = decide(t, st)
            if d is not None:
                return TRUE if d else FALSE
        return t
    return rewrite(v, fn)


def merge_segs(c, a, b):
    if a == b:
        return a
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    pre = a[:i]
    return pre + (('alt', c, a[i:], b[i:]),)
