"""Provenance of array elements: which element of which stored array does a
value-flow term denote? `sources(t, ix)` follows the element at index ix
through copies, masking stores, index chains, views and conditionals down to
the leaves (stored arrays, loop variables) and reports each with the index it
is read at, one entry per axis."""
from .terms import *
from .state import simp

COPY = {'np.copy', 'copy', 'np.array', 'np.asarray', 'astype',
        'np.ascontiguousarray', 'np.asanyarray', 'fresh', 'tonum', 'toint',
        'tofloat', 'nonan', 'toarray', 'np.nan_to_num', 'np.float64'}
FLAT = {'np.flatten', 'flatten', 'np.ravel', 'ravel', 'np.squeeze'}
ALL = '*'
RANK = {'data': 3, 'mask': 3, 'dx': 3, 'dy': 3, 'rf_array': 1}
MAIN = {'dx': 1, 'dy': 0, 'rf_array': 0}


def index(i):
    """Index terms without conversions."""
    while i.op in ('toint', 'tonum', 'astype', 'np.int64', 'tofloat') and \
            i.args and isinstance(i.args[0], T):
        i = i.args[0]
    return i


def rank(t):
    while True:
        if t.op == 'fld':
            return RANK.get(t.args[1])
        if t.op in COPY or t.op in ('store',):
            t = t.args[0]
        elif t.op == 'gamma':
            return rank(t.args[1]) or rank(t.args[2])
        elif t.op in ('np.where', 'where') and len(t.args) == 3:
            return rank(t.args[1]) or rank(t.args[2])
        elif t.op in FLAT:
            return 1
        elif t.op == 'full' and t.args[0].op == 'tuple':
            return len(t.args[0].args)
        else:
            return None


def mask_like(i):
    return i.op in ('isnan', 'not', 'invert', 'lt', 'le', 'eq', 'ne', 'or',
                    'and', 'bitor', 'bitand', 'np.isnan', 'np.logical_or',
                    'np.logical_not', 'fold', 'np.where', 'np.nonzero') or \
        i.op == 'fld' and i.args[1] == 'mask' or \
        i.op == 'astype' and 'bool' in show(i.args[1]) or \
        i.op == 'gamma' and mask_like(i.args[1]) and mask_like(i.args[2]) \
        or i.op == 'full' and i.args[1] in (TRUE, FALSE)


class Sources:
    def __init__(self, st=None, leaf=lambda t: False):
        self.st, self.leaf = st, leaf
        self.budget = 4000
        self.memo = {}

    def get(self, t, ix=()):
        """Set of ('leaf', term, index) / ('nan',) / ('const', c) /
        ('other', term)."""
        key = (t, tuple(ix))
        if key not in self.memo:
            self.budget -= 1
            if self.budget < 0:
                return {('other', t)}
            self.memo[key] = {('other', t)}
            self.memo[key] = self.get0(t, list(ix))
        return self.memo[key]

    def get0(self, t, ix):
        if t.op == 'gamma' and self.st is not None:
            t = simp(t, self.st)
        o, a = t.op, t.args
        if self.leaf(t) or o in ('fld', 'mu', 'elem'):
            return {('leaf', t, tuple(ix))}
        if o == 'nan':
            return {('nan',)}
        if o == 'const':
            return {('const', t)}
        if o == 'gamma':
            return self.get(a[1], ix) | self.get(a[2], ix)
        if o in COPY:
            return self.get(a[0], ix)
        if o in ('np.where', 'where') and len(a) == 3:
            return self.get(a[1], ix) | self.get(a[2], ix)
        if o in ('full', 'full_like', 'filled'):
            return self.get(a[1], ())
        if o in FLAT:
            b = a[0]
            while b.op in COPY or b.op in FLAT:
                b = b.args[0]
            if b.op == 'fld' and b.args[1] in MAIN and len(ix) <= 1:
                m = MAIN[b.args[1]]
                full = [const(0)] * RANK[b.args[1]]
                full[m] = ix[0] if ix else ALL
                return {('leaf', b, tuple(full))}
            return {('other', t)}
        if o == 'np.transpose' or o == 'np.T':
            r = rank(a[0])
            if len(a) == 1 and r == len(ix):
                return self.get(a[0], ix[::-1])
            return {('other', t)}
        if o in ('list', 'tuple', 'seq', 'one'):
            return self.element(t, ix)
        if o == 'item':
            return self.item(a[0], a[1], ix, t)
        if o == 'store':
            return self.store(a[0], a[1], a[2], ix, t)
        if o in ('map', 'mapstore') and ix:
            return self.mapped(t, ix)
        if o == 'ofold' and ix:
            body = a[4]
            if body.op == 'store' and body.args[0] is a[3] and \
                    index(one(body.args[1])) is a[1]:
                return self.get(body.args[2], ix[1:])
        return {('other', t)}

    def mapped(self, t, ix):
        a = t.args
        idx, body = (a[1], a[2]) if t.op == 'map' else (a[2], a[3])
        j = ix[0]
        if j is ALL:
            return {('other', t)}
        return self.get(rewrite(body, lambda x: j if x is idx else x),
                        ix[1:])

    def element(self, t, ix):
        if ix and is_int(ix[0]):
            xs = t.args if t.op != 'seq' else [
                y for x in t.args for y in (x.args if x.op in (
                    'list', 'tuple', 'one') else [None])]
            k = cval(ix[0])
            if None not in xs and -len(xs) <= k < len(xs):
                return self.get(xs[k], ix[1:])
        return {('other', t)}

    def item(self, b, i, ix, t):
        els = list(i.args) if i.op == 'tuple' else [i]
        if len(els) == 1 and mask_like(els[0]):
            return {('other', t)}
        out = []
        ix = list(ix)
        if any(e.op == 'ellipsis' or e is const(...) for e in els):
            r = rank(b)
            if r is None:
                return {('other', t)}
            k = [n for n, e in enumerate(els)
                 if e.op == 'ellipsis' or e is const(...)][0]
            miss = r - sum(e is not NONE for e in els) + 1
            els[k:k + 1] = [mk('slice', NONE, NONE, NONE)] * miss
        for e in els:
            if e.op == 'slice':
                if any(x is not NONE for x in e.args):
                    return {('other', t)}
                out.append(ix.pop(0) if ix else ALL)
            elif e is NONE:
                if ix:
                    ix.pop(0)
            else:
                out.append(index(e))
        return self.get(b, out + ix)

    def store(self, c, i, v, ix, t):
        els = [index(e) for e in (i.args if i.op == 'tuple' else (i,))]
        if len(els) == 1 and (mask_like(els[0]) or rank(els[0]) == 3):
            return self.get(c, ix) | self.get(v, ())
        if any(e.op == 'slice' and any(x is not NONE for x in e.args)
               for e in els) or len(els) > len(ix):
            return {('other', t)} | self.get(c, ix)
        same, apart = True, False
        rest = []
        for e, x in zip(els, ix):
            if e.op == 'slice':
                rest.append(x)
                continue
            if x is ALL:
                return {('other', t)}
            if e is x:
                continue
            same = False
            if is_int(e) and is_int(x) and cval(e) >= 0 and cval(x) >= 0:
                apart = True
        if apart:
            return self.get(c, ix)
        got = self.get(v, rest + list(ix[len(els):]))
        return got if same else got | self.get(c, ix)


def one(i):
    return i.args[0] if i.op == 'tuple' and len(i.args) == 1 else i
