"""Hash-consed value-flow terms.

A term is an immutable operator tree; structurally equal terms are the same
Python object, so value equality in the abstract domain is identity.
"""
import math


class T:
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __init__(self, op, args, id):
        self.op, self.args, self.id = op, args, id

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T(op, args, len(_tab))
        _tab[key] = t
    return t


NONE = mk('const', 'NoneType', None)
TRUE = mk('const', 'bool', True)
FALSE = mk('const', 'bool', False)
NAN = mk('nan')
PI = mk('pi')
UNDEF = mk('undef')
ABSENT = mk('absent')


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, float) and math.isnan(v):
        return NAN
    if isinstance(v, float) and v == 0.0:
        v = 0.0
    return mk('const', type(v).__name__, v)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[2 - 1]


def is_num(t):
    return t.op == 'const' and t.args[0] in ('int', 'float', 'bool')


def is_str(t):
    return t.op == 'const' and t.args[0] == 'str'


def is_int(t):
    return t.op == 'const' and t.args[0] == 'int'


# ---------------------------------------------------------------- booleans
BOOL_OPS = {'lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 'isnone', 'isnan',
            'in', 'is', 'truthy', 'isinstance', 'exists', 'any', 'all',
            'isfinite', 'isinf', 'xor', 'hasattr', 'isclose', 'allclose'}


def t_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'gamma':
        c, x, y = a.args
        if x.op == 'const' and y.op == 'const':
            return gamma(c, t_not(x), t_not(y))
    if a.op == 'ne':
        return mk('eq', *a.args)
    if a.op == 'const':
        return const(not cval(a))
    return mk('not', a)


def t_and(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if t_not(y) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda t: t.id))


def t_or(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        for y in (x.args if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if t_not(y) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda t: t.id))


def under(t, c, pol, depth=4):
    """Boolean t, knowing that c is pol."""
    if t is c:
        return TRUE if pol else FALSE
    if depth == 0 or t.op not in ('and', 'or', 'not', 'gamma'):
        return t
    if t.op == 'gamma':
        a0 = under(t.args[0], c, pol, depth - 1)
        if a0 is TRUE:
            return t.args[1]
        if a0 is FALSE:
            return t.args[2]
        return t
    xs = [under(x, c, pol, depth - 1) for x in t.args]
    if all(x is y for x, y in zip(xs, t.args)):
        return t
    if t.op == 'and':
        return t_and(*xs)
    if t.op == 'or':
        return t_or(*xs)
    return t_not(xs[0])


def gamma(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return gamma(c.args[0], b, a)
    if a.op in ('and', 'or', 'not', 'gamma'):
        a = under(a, c, True)
    if b.op in ('and', 'or', 'not', 'gamma'):
        b = under(b, c, False)
    if a.op in BOOL_OPS or b.op in BOOL_OPS:
        if b is FALSE:
            return t_and(c, a)
        if b is TRUE:
            return t_or(t_not(c), a)
        if a is FALSE:
            return t_and(t_not(c), b)
        if a is TRUE:
            return t_or(c, b)
    if a.op == 'gamma' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'gamma' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c if c.op in BOOL_OPS else mk('truthy', c)
    if a is FALSE and b is TRUE:
        return t_not(c)
    # if x is None: x (is None) else y
    if c.op == 'isnone':
        x = c.args[0]
        if a is x:
            a = NONE
            if a is b:
                return a
    return mk('gamma', c, a, b)


def bgamma(c, a, b):
    """gamma over boolean terms, in and/or form where a side is constant."""
    if a is TRUE or a is c:
        return t_or(c, b)
    if b is c:
        return t_and(c, a)
    if a is FALSE:
        return t_and(t_not(c), b)
    if b is TRUE:
        return t_or(t_not(c), a)
    if b is FALSE:
        return t_and(c, a)
    return gamma(c, a, b)


def branches(t):
    """All leaves of nested gammas."""
    if t.op == 'gamma':
        return branches(t.args[1]) + branches(t.args[2])
    return [t]


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        stack.append(b)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return '…'
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[1])
    if o == 'nan':
        return 'nan'
    if o == 'init':
        return str(a[0])
    if o == 'param':
        return str(a[0])
    if o == 'module':
        return a[0]
    if o == 'ref':
        return '#%s' % a[0]
    s = lambda x: show(x, depth - 1)
    inf = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**',
           'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!=', 'and': ' and ',
           'or': ' or ', 'floordiv': '//', 'mod': '%'}
    if o in inf:
        return '(' + inf[o].join(s(x) for x in a) + ')'
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o in ('item', 'elem') and len(a) > 1:
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'gamma':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if o == 'isnone':
        return '(%s is None)' % s(a[0])
    if o == 'not':
        return 'not ' + s(a[0])
    if o == 'str':
        return 'f"' + ''.join(str(cval(x)) if is_str(x) else '{%s}' % s(x)
                              for x in a) + '"'
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


def rewrite(t, fn, memo=None):
    """Bottom-up rewriting; fn(term) returns a term (or the same)."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]

    def ra(a):
        if isinstance(a, T):
            return rewrite(a, fn, memo)
        if isinstance(a, tuple):
            return tuple(ra(b) for b in a)
        return a
    na = tuple(ra(a) for a in t.args)
    if all(x is y for x, y in zip(na, t.args)):
        n = t
    elif t.op == 'gamma':
        n = gamma(*na)
    elif t.op == 'not':
        n = t_not(*na)
    elif t.op == 'and':
        n = t_and(*na)
    elif t.op == 'or':
        n = t_or(*na)
    else:
        n = mk(t.op, *na)
    n = fn(n)
    memo[t] = n
    return n
