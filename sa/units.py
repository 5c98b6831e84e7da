"""Angle units of value-flow terms.

The unit of a term is one of
  ANY                 fits every unit (nan, None, 0, recursion variables)
  ('const', q, k)     the number q * pi**k
  ('ang', 'deg'|'rad') an angle
  PLAIN               known not to be an angle (a sine, a count, a test)
  None                not known
Conflicts found while inferring are collected with the term they occur in.
"""
import math
from fractions import Fraction
from .terms import *

ANY, PLAIN = 'any', 'plain'
DEG, RAD = ('ang', 'deg'), ('ang', 'rad')
NAMES = ('inclination', 'tilt', 'inclinations', 'tilts')
TRIG = {'np.sin', 'np.cos', 'np.tan', 'math.sin', 'math.cos', 'math.tan',
        'np.sinc'}
ARC = {'np.arcsin', 'np.arccos', 'np.arctan', 'np.arctan2', 'math.asin',
       'math.acos', 'math.atan', 'math.atan2', 'np.angle', 'np.asin',
       'np.acos', 'np.atan', 'np.atan2'}
TO_DEG = {'np.rad2deg', 'np.degrees', 'math.degrees'}
TO_RAD = {'np.deg2rad', 'np.radians', 'math.radians'}
# operations whose value is one of (or made of) the given arguments
SELECT = {'np.maximum': (0, 1), 'np.minimum': (0, 1), 'np.fmax': (0, 1),
          'np.fmin': (0, 1), 'np.flip': (0,), 'np.repeat': (0,),
          'np.delete': (0,), 'np.abs': (0,), 'abs': (0,), 'neg': (0,),
          'np.max': (0,), 'np.min': (0,), 'np.nanmax': (0,),
          'np.nanmin': (0,), 'np.median': (0,), 'np.mean': (0,),
          'np.nanmean': (0,), 'np.nanmedian': (0,), 'np.sum': (0,),
          'np.unique': (0,), 'np.sort': (0,), 'np.copy': (0,),
          'np.array': (0,), 'np.asarray': (0,), 'np.ravel': (0,),
          'np.reshape': (0,), 'np.transpose': (0,), 'np.tile': (0,),
          'np.roll': (0,), 'np.squeeze': (0,), 'np.flipud': (0,),
          'np.fliplr': (0,), 'np.diff': (0,), 'np.round': (0,),
          'round': (0,), 'float': (0,), 'np.float64': (0,), 'dcopy': (1,),
          'copy': (0,), 'np.mod': (0,), 'mod': (0,), 'np.clip': (0, 1, 2),
          'np.where': (1, 2), 'where': (1, 2), 'gamma': (1, 2),
          'np.nan_to_num': (0,), 'np.insert': (0, 2), 'item': (0,),
          'np.full_like': (1,), 'np.full': (1,), 'full': (1,),
          'full_like': (1,), 'store': (0, 2), 'np.interp': (2,),
          'mapstore': (0, -1), 'np.linspace': (0, 1), 'np.hypot': (0, 1)}
NICE = {Fraction(n, d) for n in (-4, -2, -1, 1, 2, 4) for d in (1, 2, 4)}


def base_name(s):
    return s.lstrip('_') if isinstance(s, str) else s


class Units:
    def __init__(self):
        self.memo = {}
        self.conflicts = []         # (term, text)
        self.busy = set()

    def of(self, t):
        if not isinstance(t, T):
            return None
        if t.id in self.memo:
            return self.memo[t.id]
        if t.id in self.busy:
            return ANY
        self.busy.add(t.id)
        u = self.memo[t.id] = self.infer(t)
        self.busy.discard(t.id)
        return u

    def clash(self, t, text):
        self.conflicts.append((t, text))

    # ------------------------------------------------------------------
    def join(self, t, us, what):
        """The unit of a value that is one of (or the sum of) several."""
        angs = {u for u in us if isinstance(u, tuple) and u[0] == 'ang'}
        if len(angs) == 2:
            self.clash(t, '%s of degrees and radians' % what)
            return None
        cs = [u for u in us if isinstance(u, tuple) and u[0] == 'const']
        if angs:
            a = angs.pop()
            for c in cs:
                self.constant(t, a, c, what)
            return a
        rest = [u for u in us if u is not ANY]
        if not rest:
            return ANY
        if all(u == rest[0] for u in rest):
            return rest[0]
        if all(isinstance(u, tuple) for u in rest):
            return RAD if any(u[2] for u in cs) and all(
                u[2] for u in cs) else ANY
        return None

    def constant(self, t, a, c, what):
        """A constant that cannot have the unit of the angle it meets."""
        q, k = c[1], c[2]
        if not q:
            return
        if a is DEG and k == 1:
            self.clash(t, '%s of an angle in degrees with a multiple of pi'
                       % what)
        if a is RAD and k == 0 and abs(q) > 7:
            self.clash(t, '%s of an angle in radians with %s' % (what, q))

    def infer(self, t):
        op, a = t.op, t.args
        if t is NONE or op in ('nan', 'bv', 'mu', 'absent', 'undef', 'inf'):
            return ANY
        if op == 'pi':
            return ('const', Fraction(1), 1)
        if op == 'const':
            return self.number(cval(t))
        if op in BOOL_OPS or op in ('idx', 'len', 'shape'):
            for x in a:
                self.of(x)
            if op in ('lt', 'le', 'eq', 'ne') and len(a) == 2:
                self.join(t, [self.of(a[0]), self.of(a[1])], 'comparison')
            return PLAIN
        if op == 'param':
            return DEG if base_name(a[0]) in NAMES else None
        if op == 'fld':
            if base_name(a[1]) in NAMES:
                return DEG
            x = a[0]
            if base_name(a[1]) == 'data' and isinstance(x, T) and \
                    x.op == 'fld' and base_name(x.args[1]) in NAMES:
                return DEG
            return None
        if op in TO_DEG or op in TO_RAD:
            src, dst = (RAD, DEG) if op in TO_DEG else (DEG, RAD)
            u = self.of(a[0])
            if u == dst:
                self.clash(t, 'an angle already in %s is converted to %s' % (
                    ('degrees', 'degrees') if dst is DEG else
                    ('radians', 'radians')))
            elif isinstance(u, tuple) and u[0] == 'const':
                self.constant(t, src, u, 'conversion')
            return dst
        if op in ARC:
            for x in a:
                self.of(x)
            return RAD
        if op in TRIG:
            return PLAIN
        if op in ('add', 'sub'):
            return self.join(t, [self.of(x) for x in a], 'sum')
        if op in ('mul', 'div'):
            return self.product(t)
        if op in SELECT:
            ix = [i for i in SELECT[op] if -len(a) <= i < len(a)]
            us = [self.of(a[i]) for i in ix if isinstance(a[i], T)]
            return self.join(t, us, 'combination')
        if op in ('np.concatenate', 'np.vstack', 'np.hstack', 'np.append',
                  'np.stack', 'np.dstack', 'np.column_stack', 'np.block'):
            x = a[0]
            parts = x.args if isinstance(x, T) and x.op in (
                'tuple', 'list', 'seq') else (x,) + a[1:2]
            return self.join(t, [self.of(y) for y in parts
                                 if isinstance(y, T)], 'combination')
        if op == 'fold':
            return self.join(t, [self.of(a[2]), self.of(a[4])],
                             'combination')
        if op == 'ofold':
            return self.join(t, [self.of(a[2]), self.of(a[4])],
                             'combination')
        if op == 'last':
            return self.join(t, [self.of(a[2]), self.of(a[3])],
                             'combination')
        if op == 'map':
            return self.of(a[2])
        return None

    def number(self, v):
        if isinstance(v, bool):
            return PLAIN
        if isinstance(v, int):
            return ('const', Fraction(v), 0) if v else ANY
        if isinstance(v, float):
            if v == 0 or v != v or math.isinf(v):
                return ANY
            for k in (1, -1):
                q = Fraction(v / math.pi ** k).limit_denominator(720)
                if q and q.numerator < 2000 and \
                        abs(float(q) * math.pi ** k - v) < 1e-9 * abs(v):
                    p = Fraction(str(v))
                    if p.denominator > 10 ** 6:
                        return ('const', q, k)
            return ('const', Fraction(str(v)), 0)
        return None

    def factors(self, t, sign, out):
        if t.op == 'mul':
            for x in t.args:
                self.factors(x, sign, out)
        elif t.op == 'div':
            self.factors(t.args[0], sign, out)
            self.factors(t.args[1], -sign, out)
        else:
            out.append((self.of(t), sign))
        return out

    def product(self, t):
        q, k, rest = Fraction(1), 0, []
        for u, sign in self.factors(t, 1, []):
            if isinstance(u, tuple) and u[0] == 'const':
                q, k = q * u[1] ** sign, k + u[2] * sign
            else:
                rest.append((u, sign))
        out = ('const', q, k)
        for u, sign in rest:
            if sign < 0 and u is not PLAIN:
                same = [x for x in rest if x == (u, 1)]
                return PLAIN if isinstance(u, tuple) and same and \
                    len(rest) == 2 else None
        for u, sign in rest:
            out = self.times(t, out, u)
            if out is None:
                return None
        return out

    def times(self, t, a, b):
        if a is None or b is None:
            return None
        if a is ANY or b is ANY:
            return a if b is ANY else b
        ca, cb = a[0] == 'const', b[0] == 'const'
        if a is PLAIN or b is PLAIN:
            x = b if a is PLAIN else a
            if x is PLAIN:
                return PLAIN
            return x                # a mask or a count times a value
        if ca and cb:
            return ('const', a[1] * b[1], a[2] + b[2])
        if not ca and not cb:
            return None
        ang, c = (b, a) if ca else (a, b)
        if c[2] == 0:
            return ang
        if c[2] == 1 and ang == DEG and c[1] * 180 in NICE:
            return RAD
        if c[2] == -1 and ang == RAD and c[1] / 180 in NICE:
            return DEG
        if c[2] == 1 and ang == RAD and c[1] * 180 in NICE:
            self.clash(t, 'an angle already in radians is converted to '
                       'radians')
        if c[2] == -1 and ang == DEG and c[1] / 180 in NICE:
            self.clash(t, 'an angle already in degrees is converted to '
                       'degrees')
        return None
