"""Polynomial / rational normal forms over value-flow terms."""
from fractions import Fraction
from .terms import *

LIMIT = 400


class TooBig(Exception):
    pass


def _num(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(str(v)) if v == v and abs(v) != float('inf') else None


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        c = r.get(k, 0) + s * v
        if c:
            r[k] = c
        else:
            r.pop(k, None)
    return r


def mmul(m, n):
    d = dict(m)
    for t, e in n:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e),
                        key=lambda x: x[0].id))


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = mmul(m, n)
            c = r.get(k, 0) + x * y
            if c:
                r[k] = c
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def poly(t, atom=None):
    """Polynomial (monomials may have negative exponents) or raises TooBig;
    anything that is not arithmetic is an atom."""
    if is_num(t):
        f = _num(cval(t))
        if f is None:
            return {((t, 1),): Fraction(1)}
        return {(): f} if f else {}
    o = t.op
    if o == 'add':
        r = {}
        for x in t.args:
            r = padd(r, poly(x, atom))
        return r
    if o == 'sub':
        r = poly(t.args[0], atom)
        for x in t.args[1:]:
            r = padd(r, poly(x, atom), -1)
        return r
    if o == 'neg':
        return padd({}, poly(t.args[0], atom), -1)
    if o == 'mul':
        r = ONE
        for x in t.args:
            r = pmul(r, poly(x, atom))
        return r
    if o == 'div':
        a, b = poly(t.args[0], atom), poly(t.args[1], atom)
        if len(b) == 1:
            (m, c), = b.items()
            return pmul(a, {tuple((x, -e) for x, e in m): 1 / c})
        k = mk('polydiv', freeze(b))
        return pmul(a, {((k, -1),): Fraction(1)})
    if o == 'pow' and is_int(t.args[1]) and 0 <= cval(t.args[1]) <= 4:
        r = ONE
        b = poly(t.args[0], atom)
        for _ in range(cval(t.args[1])):
            r = pmul(r, b)
        return r
    if o == 'tonum' or o == 'int' and len(t.args) == 1:
        pass
    if atom is not None:
        n = atom(t)
        if n is not None and n is not t:
            return poly(n, atom)
    return {((t, 1),): Fraction(1)}


def freeze(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=lambda x: [
        (t.id, e) for t, e in x[0]]))


def diff(a, b, atom=None):
    """Polynomial of a - b, or None if too large."""
    try:
        return padd(poly(a, atom), poly(b, atom), -1)
    except TooBig:
        return None


def const_diff(a, b, atom=None):
    """The constant value of a - b, or None."""
    d = diff(a, b, atom)
    if d is None:
        return None
    if not d:
        return Fraction(0)
    if len(d) == 1 and () in d:
        return d[()]
    return None


def equal(a, b, atom=None):
    """True / None (not shown equal)."""
    d = diff(a, b, atom)
    return True if d is not None and not d else None


def subst(t, frm, to):
    return rewrite(t, lambda x: to if x is frm else x)
