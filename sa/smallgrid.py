"""Small grids on which terms of a ShallotGrid are evaluated element by
element: the vectors, the stored quantities, their masks and the scalars are
given, everything else follows from the terms."""
from .common import *
from .located import Located, Unknown, Raises, Q, num, nan, NAN
from .props.c13 import field, raw

EPS = 1e-9


class Example:
    """Vectors dy, dx, rf; values {quantity: function of the flat position};
    masks {owner: flat positions}, owners without an entry have no mask."""

    def __init__(self, dy, dx, rf, values, masks=(), text=''):
        self.dy, self.dx, self.rf = dy, dx, rf
        self.shape = len(dy), len(dx), len(rf)
        self.values, self.masks = values, dict(masks)
        y, x, r = self.shape
        self.points = [(i, j, k) for i in range(y) for j in range(x)
                       for k in range(r)]
        self.flat = {ix: k for k, ix in enumerate(self.points)}
        self.more = text

    def value(self, nm, ix):
        if nm == 'dy':
            return Q(self.dy[ix[0]])
        if nm == 'dx':
            return Q(self.dx[ix[1]])
        if nm == 'rf':
            return Q(self.rf[ix[2]])
        v = self.values[nm](self.flat[ix])
        return v if nan(v) else Q(v)

    def masked(self, owner, ix):
        return self.flat[ix] in self.masks.get(owner, ())

    def free(self, ix):
        return not any(self.masked(o, ix) for o in self.masks)

    def text(self):
        return 'dy=%s, dx=%s, rf=%s%s' % (self.dy, self.dx, self.rf,
                                          self.more)

    def located(self, r, me, gradients, val=()):
        """The stored state of the grid, as the base of an evaluation."""
        ip, st = r.ip, r.st0
        arrays, val = {}, dict(val)
        p = ip.get_field(me.args[0], 'parameters', st)
        lengths = ((self.shape[0], 1, 1), (1, self.shape[1], 1),
                   (self.shape[2],))
        for attr, vec, s in zip(('dy', 'dx', 'rf_array'),
                                (self.dy, self.dx, self.rf), lengths):
            arrays[field(ip, p, attr, st)] = s, lambda ix, vec=vec: Q(
                vec[max(ix)])
        gs = mk('fld', p.args[0], 'grid_shape')
        val[gs] = self.shape
        for k, c in enumerate(self.shape):
            val[mk('item', gs, const(k))] = Q(c)
            val[mk('item', gs, const(k - 3))] = Q(c)
        refs = []
        for nm in sorted(self.values):
            t = ip.get_field(me.args[0], nm, st)
            if t.op == 'gamma':         # may be absent
                val[t.args[0]] = False
                t = next(b for b in (t.args[1], t.args[2]) if b.op == 'ref')
                if t is not ip.get_field(me.args[0], nm, st).args[2]:
                    raise Unknown('optional quantity')
            refs.append((nm, t))
            arrays[field(ip, t, 'data', st)] = self.shape, \
                lambda ix, nm=nm: self.value(nm, ix)
        refs += [('gradient %d' % k, g) for k, g in enumerate(gradients)]
        for nm, x in refs:
            term, absent = raw(ip, x, 'mask', st)
            if absent is None:
                raise Unknown('mask of ' + nm)
            val[mk('isnone', absent)] = nm not in self.masks
            if nm in self.masks:
                arrays[term] = self.shape, \
                    lambda ix, nm=nm: self.masked(nm, ix)
        return Located(val, arrays)


def settle(pt, t, want, text, ix=()):
    """Verdict on one element; text has places for what it is and should be"""
    try:
        got = float(num(pt.at(t, ix)))
    except Unknown as e:
        return None, str(e)
    except Raises as e:
        return False, text % ('an exception', want)
    return abs(got - want) <= EPS * (1 + abs(want)), text % (got, want)
