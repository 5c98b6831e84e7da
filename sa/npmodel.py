"""Semantics of external operations: numpy, os, copy, builtins, validate."""
import math
from .terms import *
from .state import *
from .interp_base import *

IOERR = ['OSError', 'ValueError', 'EOFError', 'UnpicklingError']
REDUCE = {'sum', 'prod', 'any', 'all', 'nanmin', 'nanmax', 'min', 'max',
          'amin', 'amax', 'nanargmin', 'nanargmax', 'argmin', 'argmax',
          'mean', 'nanmean', 'median', 'nanmedian', 'nansum', 'size', 'ndim',
          'shape', 'count_nonzero', 'isscalar', 'array_equal', 'allclose',
          'std', 'nanstd', 'var', 'ptp', 'trapz', 'iscomplexobj', 'product',
          'alltrue', 'sometrue', 'average', 'percentile', 'nanpercentile',
          'shares_memory', 'may_share_memory', 'result_type', 'can_cast',
          'issubdtype', 'dtype', 'finfo', 'iinfo'}
LAYOUT = {'array', 'asarray', 'copy', 'zeros', 'ones', 'full', 'empty', 'zeros_like',
          'ones_like', 'full_like', 'empty_like', 'asanyarray'}
UFUNC = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2',
         'hypot', 'sqrt', 'exp', 'log', 'log10', 'abs', 'absolute', 'fabs',
         'deg2rad', 'rad2deg', 'degrees', 'radians', 'maximum', 'minimum',
         'fmax', 'fmin', 'isnan', 'isfinite', 'isinf', 'logical_and',
         'logical_or', 'logical_not', 'logical_xor', 'less', 'less_equal',
         'greater', 'greater_equal', 'equal', 'not_equal', 'add',
         'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide',
         'power', 'square', 'negative', 'sign', 'floor', 'ceil', 'rint',
         'round', 'around', 'mod', 'remainder', 'fmod', 'clip', 'where',
         'float64', 'float32', 'int64', 'int32', 'float16', 'float128',
         'int8', 'int16', 'int0', 'intp', 'bool_', 'invert', 'bitwise_or',
         'bitwise_and', 'bitwise_xor', 'bitwise_not', 'reciprocal',
         'isclose', 'nan_to_num', 'positive', 'exp2', 'log2', 'log1p',
         'expm1', 'cbrt', 'sinh', 'cosh', 'tanh', 'heaviside', 'copysign',
         'trunc', 'fix', 'nextafter', 'spacing', 'signbit', 'float_power'}
VIEW = {'ravel', 'reshape', 'transpose', 'squeeze', 'atleast_1d',
        'atleast_2d', 'atleast_3d', 'fliplr', 'flipud', 'flip', 'rot90',
        'swapaxes', 'moveaxis', 'expand_dims', 'broadcast_to', 'rollaxis',
        'diagonal'}
ALIAS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'require'}
INPLACE = {'put', 'place', 'copyto', 'putmask', 'fill_diagonal',
           'put_along_axis'}
BINF = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult',
        'divide': 'Div', 'true_divide': 'Div', 'floor_divide': 'FloorDiv',
        'power': 'Pow', 'mod': 'Mod', 'remainder': 'Mod',
        'bitwise_or': 'BitOr', 'bitwise_and': 'BitAnd',
        'bitwise_xor': 'BitXor', 'logical_or': 'BitOr',
        'logical_and': 'BitAnd', 'logical_xor': 'BitXor'}
CMPF = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt',
        'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq'}
ALIASNAME = {'absolute': 'abs', 'fabs': 'abs', 'degrees': 'rad2deg',
             'radians': 'deg2rad', 'amin': 'min', 'amax': 'max',
             'around': 'round', 'product': 'prod', 'sometrue': 'any',
             'alltrue': 'all'}


def io_tainted(t):
    return contains(t, lambda x: x.op in ('file0', 'npload'))


def stored_item(d):
    """An object read from a file that may be of any type."""
    return d.op == 'npitem' and d.args[0].op == 'file0'


def external(t):
    """Does t come straight from a caller or from a file?"""
    if t.op in ('param', 'file0', 'npload'):
        return True
    if t.op in ('item', 'elem', 'bmeth', 'attr', 'np.copy', 'astype'):
        return isinstance(t.args[0], T) and external(t.args[0])
    if t.op == 'gamma':
        return external(t.args[1]) or external(t.args[2])
    return False


# ------------------------------------------------------------------ algebra
def binop(ip, op, a, b, st):
    if op in ('Add', 'Sub', 'Mult', 'Div', 'FloorDiv', 'Mod', 'Pow'):
        if is_num(a) and is_num(b):
            x, y = cval(a), cval(b)
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y,
                     'Mult': lambda: x * y, 'Div': lambda: x / y,
                     'FloorDiv': lambda: x // y, 'Mod': lambda: x % y,
                     'Pow': lambda: x ** y}[op]()
                if isinstance(r, (int, float)):
                    return const(r)
            except (ZeroDivisionError, OverflowError, TypeError):
                return mk({'Div': 'div', 'FloorDiv': 'floordiv',
                           'Mod': 'mod', 'Pow': 'pow'}.get(op, 'arith'),
                          a, b)
        if op == 'Add':
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
            if is_num(a) and cval(a) == 0 and b.op != 'tuple':
                return b
            if is_num(b) and cval(b) == 0 and a.op != 'tuple':
                return a
            if a.op in ('str', 'tostr') or is_str(a) or \
                    b.op in ('str', 'tostr') or is_str(b):
                return ip.concat([a, b])
            if a.op == 'tuple' or b.op == 'tuple':
                return mk('add', a, b)
            # (x + c1) + c2
            for x, y in ((a, b), (b, a)):
                if is_int(y) and x.op == 'add' and is_int(x.args[0]):
                    return binop(ip, 'Add', x.args[1], const(
                        cval(x.args[0]) + cval(y)), st)
                if is_int(y) and x.op == 'add' and is_int(x.args[1]):
                    return binop(ip, 'Add', x.args[0], const(
                        cval(x.args[1]) + cval(y)), st)
            return mk('add', *order(a, b))
        if op == 'Sub':
            if is_num(b) and cval(b) == 0:
                return a
            if is_int(b):
                return binop(ip, 'Add', a, const(-cval(b)), st)
            if a is b and a.op in ('len', 'idx'):
                return const(0)
            if a.op == 'add' and b in a.args and len(a.args) == 2:
                return a.args[1] if a.args[0] is b else a.args[0]
            return mk('sub', a, b)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if is_num(x) and cval(x) == 1:
                    return y
            if is_num(a) and cval(a) == -1:
                return unop(ip, 'USub', b, st)
            if is_num(b) and cval(b) == -1:
                return unop(ip, 'USub', a, st)
            for x, y in ((a, b), (b, a)):
                if y.op == 'full' and y.args[1] is const(1.0) and (
                        x is NAN or is_num(x)):
                    return mk('full', y.args[0], x)
                if y.op == 'full_like' and y.args[1] is const(1.0) and (
                        x is NAN or is_num(x)):
                    return mk('full_like', y.args[0], x)
            if a is b:
                return mk('pow', a, const(2))
            return mk('mul', *order(a, b))
        if op == 'Div':
            if is_num(b) and cval(b) == 1:
                return a
            if ip.is_strish(a, st) and ip.is_strish(b, st):
                return ip.concat([a, const('/'), b])
            return mk('div', a, b)
        if op == 'Pow':
            if b is const(2.0):
                b = const(2)
            if b is const(1):
                return a
            if b is const(0.5):
                return mk('np.sqrt', a)
            return mk('pow', a, b)
        return mk({'FloorDiv': 'floordiv', 'Mod': 'mod'}[op], a, b)
    if op in ('BitOr', 'BitAnd'):
        return (t_or if op == 'BitOr' else t_and)(b_of(a), b_of(b)) \
            if boolish(a) and boolish(b) else mk(
                'bitor' if op == 'BitOr' else 'bitand', *order(a, b))
    if op == 'BitXor':
        return mk('xor', *order(a, b))
    if op == 'MatMult':
        return mk('np.dot', a, b)
    return mk(op.lower(), a, b)


def order(a, b):
    return (a, b) if a.id <= b.id else (b, a)


BOOLRES = BOOL_OPS | {'invert', 'xor', 'np.isnan'}


def boolish(t):
    if t.op in BOOL_OPS or t in (TRUE, FALSE):
        return True
    if t.op == 'astype':
        return t.args[1] is BOOL
    if t.op in ('item', 'full', 'full_like'):
        if t.op == 'full' or t.op == 'full_like':
            return boolish(t.args[1])
        return boolish(t.args[0])
    if t.op in ('store', 'mapstore', 'gamma'):
        return boolish(t.args[-1]) or boolish(t.args[0])
    if t.op == 'fld' and t.args[1] == 'mask':
        return True
    if t.op in ('np.copy',):
        return boolish(t.args[0])
    return False


def b_of(t):
    return t


BOOL = const('bool')
FLOAT = const('float')
INT = const('int')


def unop(ip, op, a, st):
    if op == 'USub':
        if is_num(a):
            return const(-cval(a))
        if a is NAN:
            return a
        if a.op == 'neg':
            return a.args[0]
        if a.op == 'sub':
            return mk('sub', a.args[1], a.args[0])
        return mk('neg', a)
    if op == 'UAdd':
        return a
    if op == 'Invert':
        if boolish(a):
            return t_not(a)
        if is_int(a):
            return const(~cval(a))
        return mk('not', a) if a.op in ('param', 'fld') else mk('invert', a)
    if op == 'Not':
        return t_not(a)
    return mk(op.lower(), a)


def compare(ip, op, a, b, st):
    if op == 'Gt':
        op, a, b = 'Lt', b, a
    elif op == 'GtE':
        op, a, b = 'LtE', b, a
    if op in ('Eq', 'NotEq'):
        r = _eq(ip, a, b, st)
        return t_not(r) if op == 'NotEq' else r
    if is_num(a) and is_num(b):
        return const(cval(a) < cval(b) if op == 'Lt' else cval(a) <= cval(b))
    if a is NAN or b is NAN:
        return FALSE
    return mk('lt' if op == 'Lt' else 'le', a, b)


def _eq(ip, a, b, st):
    if a is b:
        if a.op in ('const', 'enum', 'str', 'len', 'idx', 'class', 'tuple',
                    'shape'):
            return TRUE
        if a is NAN:
            return FALSE
        if a.op in ('shape',) or ip.is_strish(a, st):
            return TRUE
        return t_not(mk('isnan', a))
    if a.op == 'const' and b.op == 'const':
        return const(cval(a) == cval(b))
    if a is NAN or b is NAN:
        return FALSE
    if a.op == 'enum' and b.op == 'enum':
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return t_and(*[_eq(ip, x, y, st) for x, y in zip(a.args, b.args)])
    if a is NONE or b is NONE:
        from .exprs import isnone_term
        x = b if a is NONE else a
        n = none_ness(x, st)
        return isnone_term(x, st) if n is None else const(n)
    if a.op in BOOL_OPS and b in (TRUE, FALSE):
        return a if b is TRUE else t_not(a)
    if b.op in BOOL_OPS and a in (TRUE, FALSE):
        return b if a is TRUE else t_not(b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'gamma' and all(z.op in ('const', 'enum')
                                   for z in branches(x)) and \
                y.op in ('const', 'enum'):
            return bgamma(x.args[0], _eq(ip, x.args[1], y, st),
                          _eq(ip, x.args[2], y, st))
        if x.op == 'str' and is_str(y):
            # different constant prefix or suffix
            p = x.args[0]
            if is_str(p) and not cval(y).startswith(cval(p)):
                return FALSE
            s = x.args[-1]
            if is_str(s) and not cval(y).endswith(cval(s)):
                return FALSE
    return mk('eq', *order(a, b))


# -------------------------------------------------------------------- shape
def rank(ip, t, st):
    o = t.op
    f = st.facts.get(mk('rank', t, 1))
    if f:
        return 1
    for n in (2, 3):
        if st.facts.get(mk('rank', t, n)):
            return n
    if o in ('np.linspace', 'np.arange', 'np.flatten', 'np.ravel', 'list',
             'np.unique', 'map', 'np.sort') and o != 'np.sort':
        return 1
    if o in ('full',):
        s = t.args[0]
        if s.op == 'tuple':
            return len(s.args)
        if s.op == 'add':
            return None
        if s.op == 'shape':
            return rank(ip, s.args[0], st)
        if s.op in ('len', 'const', 'param', 'item', 'dim'):
            return 1
        if s.op == 'fld' and s.args[1] == 'grid_shape':
            return 3
        return None
    if o in ('np.sort', 'np.flip', 'np.abs', 'neg', 'astype', 'np.copy',
             'full_like', 'isnan', 'not', 'mapstore', 'store', 'invert',
             'np.flipud', 'np.fliplr') or o in ELEM1 or o in EACH:
        return rank(ip, t.args[0], st)
    if o in PAIRED:
        rs = [rank(ip, x, st) for x in t.args[:2] if not is_num(x)]
        return rs[0] if rs and all(r == rs[0] for r in rs) else None
    if o == 'np.concatenate' and t.args[0].op in ('tuple', 'list'):
        for x in t.args[0].args:
            r = rank(ip, x, st)
            if r is not None:
                return r
        return None
    if o == 'fld':
        return {'rf': 1, 'rf_array': 1, 'dx': 3, 'dy': 3,
                'data': 3, 'rings': 1}.get(t.args[1])
    if o == 'item':
        r = rank(ip, t.args[0], st)
        if r is None:
            i = t.args[1]
            return None
        xs = t.args[1].args if t.args[1].op == 'tuple' else (t.args[1],)
        for x in xs:
            if x is NONE:
                r += 1
            elif x.op == 'slice' or x.op == 'ellipsis':
                pass
            elif nscalar(x) is not None:
                r -= 1
            else:
                return None
        return r
    if o in ('add', 'sub', 'mul', 'div', 'pow', 'lt', 'le', 'eq', 'and',
             'or'):
        rs = [rank(ip, x, st) for x in t.args]
        rs = [r for r in rs if r is not None]
        return max(rs) if rs else None
    if o == 'gamma':
        a, b = rank(ip, t.args[1], st), rank(ip, t.args[2], st)
        return a if a == b else None
    return None


def nscalar(i):
    """Number of scalar indices when all indices are scalars."""
    xs = i.args if i.op == 'tuple' else (i,)
    n = 0
    for x in xs:
        if x.op in ('slice', 'ellipsis', 'list') or x is NONE:
            return None
        if x.op in BOOL_OPS or x.op in ('invert', 'store', 'astype', 'full',
                                        'np.where', 'np.nonzero', 'mapstore',
                                        'fold', 'np.arange'):
            return None
        n += 1
    return n


def shape(ip, t, st):
    if t.op == 'full':
        s = t.args[0]
        if s.op == 'tuple':
            return s
        if s.op in ('shape',) or (s.op == 'fld' and 'shape' in s.args[1]):
            return s
        if s.op == 'add':
            return s
        return mk('tuple', s)
    if t.op in ('full_like', 'isnan', 'not', 'astype', 'np.copy', 'store',
                'neg', 'np.abs', 'np.flip', 'np.fliplr', 'np.flipud',
                'np.sort', 'invert', 'mapstore') or t.op in ELEM1 or \
            t.op in EACH:
        return shape(ip, t.args[0], st)
    if t.op == 'list':
        if not any(x.op in ('list', 'tuple') for x in t.args):
            return mk('tuple', const(len(t.args)))
    if t.op == 'map':
        return mk('shape', t)
    if t.op in ('add', 'sub', 'mul', 'div', 'pow', 'lt', 'le', 'eq'):
        arrs = [x for x in t.args if x in ip.arr_terms]
        if len(arrs) == 1:
            return shape(ip, arrs[0], st)
    return mk('shape', t)


def dim(ip, t, k, st):
    s = shape(ip, t, st)
    if s.op == 'tuple' and k < len(s.args):
        return s.args[k]
    if k == 0:
        return length(ip, t, st)
    return mk('item', s, const(k))


def length(ip, t, st):
    """First dimension."""
    o = t.op
    if o in ('list', 'tuple'):
        return const(len(t.args))
    if is_str(t):
        return const(len(cval(t)))
    if o == 'gamma':
        return gamma(t.args[0], length(ip, t.args[1], st),
                     length(ip, t.args[2], st))
    if o in ('map',) and t.args[3] is TRUE:
        return t.args[0]
    if o in ('dkeys', 'dvals'):
        return mk('len', t.args[0])
    if o == 'mapstore':
        return length(ip, t.args[0], st)
    if o == 'item' and t.args[1].op == 'slice' and all(
            x is NONE or is_int(x) for x in t.args[1].args):
        n = length(ip, t.args[0], st)
        if n is not None and is_int(n):
            return const(len(range(cval(n))[slice(*[
                cval(x) for x in t.args[1].args])]))
    if o == 'full':
        s = t.args[0]
        if s.op == 'tuple' and s.args:
            return s.args[0]
        if s.op in ('fld', 'shape') and 'shape' in str(s.args[-1]) or \
                s.op == 'shape':
            return mk('item', s, const(0))
        return s
    if o in ('full_like', 'neg', 'isnan', 'not', 'astype', 'np.copy',
             'store', 'np.abs', 'np.sort', 'np.flip', 'np.flipud',
             'invert', 'np.sin', 'np.cos', 'np.deg2rad', 'np.rad2deg',
             'np.sqrt', 'np.fliplr') or o in ELEM1 or o in EACH:
        return length(ip, t.args[0], st)
    if o in PAIRED:
        ns = [length(ip, x, st) for x in t.args[:2] if not is_num(x)]
        if ns and all(n is ns[0] for n in ns):
            return ns[0]
    if o in ('add', 'sub', 'mul', 'div', 'pow', 'lt', 'le', 'eq'):
        arrs = [x for x in t.args if x in ip.arr_terms]
        if len(arrs) == 1:
            return length(ip, arrs[0], st)
        if len(arrs) == 2:
            a, b = length(ip, arrs[0], st), length(ip, arrs[1], st)
            if a is b:
                return a
    if o == 'shape':
        r = rank(ip, t.args[0], st)
        if r is not None:
            return const(r)
    if o == 'np.append' and len(t.args) == 2 and t.args[1].op == 'ref':
        return binop(ip, 'Add', length(ip, t.args[0], st), const(1), st)
    return mk('len', t)


ELEM1 = {'neg', 'np.abs', 'np.sqrt', 'np.sin', 'np.cos', 'np.deg2rad',
         'np.rad2deg', 'isnan', 'not', 'np.sign', 'np.floor', 'np.ceil',
         'np.exp', 'np.log', 'np.square', 'np.tan', 'np.rint', 'np.trunc'}
EACH = {'np.round', 'np.clip', 'np.nan_to_num'}    # further arguments scalar
PAIRED = {'np.maximum', 'np.minimum', 'np.fmax', 'np.fmin', 'np.power',
          'np.hypot', 'np.mod', 'np.copysign'}


def const_list(t):
    """Python values of a list term of numbers, or None."""
    if t.op in ('list', 'tuple') and all(is_num(x) and not (
            x in (TRUE, FALSE)) for x in t.args):
        return [cval(x) for x in t.args]
    return None


def each(ip, op, a, b, st):
    """Arithmetic on one-dimensional arrays of known numbers."""
    x, y = const_list(a), const_list(b)
    if x is None and y is None or a.op == 'tuple' or b.op == 'tuple':
        return None
    if x is None and not is_num(a) or y is None and not is_num(b):
        return None
    n = len(x if x is not None else y)
    if x is not None and y is not None and len(y) != n:
        return None
    out = [binop(ip, op, a if x is None else a.args[k],
                 b if y is None else b.args[k], st) for k in range(n)]
    return mk('list', *out) if all(is_num(v) for v in out) else None


def fold_list(name, d):
    """Order and membership functions on lists of known numbers."""
    if not d:
        return None
    x = const_list(d[0])
    if name == 'arange':
        if all(is_int(y) for y in d) and len(d) in (1, 2, 3):
            r = range(*[cval(y) for y in d])
            if len(r) <= 12:
                return mk('list', *[const(k) for k in r])
        return None
    if name in ('flip', 'flipud', 'reversed') and d[0].op == 'list' and (
            len(d) == 1 or d[1] is const(0)):
        return mk('list', *d[0].args[::-1])
    if x is None or any(y != y for y in x):
        return None
    if name in ('unique', 'set') and len(d) == 1:
        return mk('list', *[const(y) for y in sorted(set(x))])
    if name in ('sort', 'sorted') and len(d) == 1:
        return mk('list', *[const(y) for y in sorted(x)])
    if len(d) == 2:
        y = const_list(d[1])
        if y is None:
            return None
        if name in ('isin', 'in1d'):
            return mk('list', *[const(k in y) for k in x])
        if name == 'setdiff1d':
            return mk('list', *[const(k) for k in sorted(set(x) - set(y))])
        if name == 'union1d':
            return mk('list', *[const(k) for k in sorted(set(x) | set(y))])
    return None


def item(ip, c, i, st):
    """Term of c[i]."""
    o = c.op
    if o == 'gamma':
        return gamma(c.args[0], item(ip, c.args[1], i, st),
                     item(ip, c.args[2], i, st))
    if i.op == 'slice' and i.args == (NONE, NONE, NONE):
        return c
    if i.op == 'tuple' and len(i.args) == 1:
        return item(ip, c, i.args[0], st)
    if o in ('list', 'tuple'):
        if is_int(i) and -len(c.args) <= cval(i) < len(c.args):
            return c.args[cval(i)]
        if i.op == 'slice' and all(x is NONE or is_int(x)
                                   for x in i.args) and \
                i.args[2] is not const(0):
            return mk(o, *c.args[slice(*[None if x is NONE else cval(x)
                                         for x in i.args])])
    sc = nscalar(i)
    if o == 'np.stack' and is_int(i) and cval(i) >= 0 and c.args[
            0].op in ('list', 'tuple') and (
            len(c.args) == 1 or c.args[1] is const(0)) and cval(i) < len(
            c.args[0].args):
        return c.args[0].args[cval(i)]
    if o == 'list' and i.op == 'list' and i.args:
        if all(x in (TRUE, FALSE) for x in i.args) and len(i.args) == len(
                c.args):
            return mk('list', *[x for x, k in zip(c.args, i.args)
                                if k is TRUE])
        if all(is_int(x) and -len(c.args) <= cval(x) < len(c.args)
               for x in i.args):
            return mk('list', *[c.args[cval(x)] for x in i.args])
    if o == 'store':
        if c.args[1] is i:
            return c.args[2]
        j = c.args[1]
        if is_int(i) and cval(i) >= 0 and j.op == 'list' and (
                is_num(c.args[2]) or c.args[2] in (TRUE, FALSE)) and all(
                is_int(x) and cval(x) >= 0 for x in j.args):
            return c.args[2] if i in j.args else item(ip, c.args[0], i, st)
        if is_int(i) and is_int(j) and cval(i) != cval(j) and \
                cval(i) >= 0 and cval(j) >= 0:
            return item(ip, c.args[0], i, st)
    if o == 'map' and sc == 1 and c.args[2].op != 'multi':
        cnt, idx, body, cond = c.args
        if cond is TRUE:
            if i is idx:
                return body
            if not (is_int(i) and cval(i) < 0):
                return rewrite(body, lambda t: i if t is idx else t)
    if o == 'mapstore' and sc == 1 and i is c.args[2]:
        return c.args[3]
    if o in ('full',) and sc is not None:
        r = rank(ip, c, st)
        if r == sc:
            return c.args[1]
    if o == 'full_like' and sc is not None and sc == rank(ip, c, st):
        return c.args[1]
    if sc == 1 and o in ELEM1 and rank(ip, c, st) == 1:
        x = item(ip, c.args[0], i, st)
        if o == 'not':
            return t_not(x)
        if o == 'neg':
            return unop(ip, 'USub', x, st)
        return mk(o, x)
    if sc == 1 and o in EACH and all(
            is_num(x) or x is NONE for x in c.args[1:]) and \
            rank(ip, c, st) == 1:
        return mk(o, item(ip, c.args[0], i, st), *c.args[1:])
    if sc == 1 and o in PAIRED and len(c.args) == 2 and all(
            is_num(x) or rank(ip, x, st) == 1 and length(
                ip, x, st) is length(ip, c, st) for x in c.args):
        return mk(o, *[x if is_num(x) else item(ip, x, i, st)
                       for x in c.args])
    if sc == 1 and o == 'astype' and rank(ip, c, st) == 1:
        return astype(item(ip, c.args[0], i, st), c.args[1])
    if sc == 1 and o in ('add', 'sub', 'mul', 'div') and len(c.args) == 2:
        xs = c.args
        arrs = [x in ip.arr_terms for x in xs]
        if any(arrs) and all(not a or rank(ip, x, st) == 1
                             for a, x in zip(arrs, xs)):
            ys = [item(ip, x, i, st) if a else x for a, x in zip(arrs, xs)]
            return binop(ip, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult',
                              'div': 'Div'}[o], ys[0], ys[1], st)
    if o == 'np.flatten' and sc == 1:
        # coordinates: dx has one long axis only
        return mk('item', c, i)
    return mk('item', c, i)


def is_scalar_ix(i):
    return nscalar(i) == 1


def store(ip, c, i, v, st):
    if i is not None and i.op == 'tuple' and len(i.args) == 1:
        i = i.args[0]
    if i.op == 'slice' and i.args == (NONE, NONE, NONE) or \
            i.op == 'ellipsis':
        return mk('filled', c, v)
    if c.op == 'list' and is_int(i) and -len(c.args) <= cval(i) < \
            len(c.args):
        l = list(c.args)
        l[cval(i)] = v
        return mk('list', *l)
    if c.op == 'store' and c.args[1] is i:
        return mk('store', c.args[0], i, v)
    return mk('store', c, i, v)


def astype(t, ty):
    if t.op == 'gamma':
        return gamma(t.args[0], astype(t.args[1], ty), astype(t.args[2], ty))
    if t.op == 'map':
        cnt, idx, body, cond = t.args
        return mk('map', cnt, idx, astype(body, ty), cond)
    if ty is BOOL and (t.op in BOOL_OPS or boolish(t)):
        return t
    if ty is FLOAT:
        if t.op in ('fld', 'add', 'sub', 'mul', 'div', 'np.linspace') and \
                not boolish(t):
            return t
        if t.op == 'const' and t.args[0] in ('int', 'float'):
            return const(float(cval(t)))
        if t.op == 'ref':
            return t
    if t.op == 'full':
        v = t.args[1]
        if is_num(v):
            nv = {'bool': bool, 'float': float, 'int': int}.get(
                cval(ty) if is_str(ty) else None)
            if nv:
                return mk('full', t.args[0], const(nv(cval(v))))
    return mk('astype', t, ty)


NARROW = {'float32', 'float16', 'single', 'half', 'f4', 'f2', 'i4', 'i8',
          'int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
          'uint32', 'uint64', 'intc', 'longlong'}


def narrow_of(t):
    """The element type of a new array when storing a float in it loses
    digits, else None."""
    while t is not None and t.op in ('store', 'filled', 'np.copy', 'copy',
                                     'neg', 'fresh'):
        t = t.args[0]
    if t is None:
        return None
    if t.op == 'astype':
        ty = t.args[1]
        return ty if isinstance(ty, T) and is_str(ty) and \
            cval(ty) in NARROW else None
    if t.op == 'full':
        v = t.args[1]
        return INT if is_int(v) else None
    if t.op in ('add', 'sub', 'mul', 'div'):
        ns = [narrow_of(x) for x in t.args
              if not is_num(x) and x is not NAN]
        if len(ns) == 1 and ns[0] is not None and \
                cval(ns[0])[0] in 'fsh':
            return ns[0]
    return None


def whole(t):
    """Is the value of the term an integer whatever happens?"""
    if is_int(t):
        return True
    if t.op in ('idx', 'len', 'shape', 'toint', 'size', 'np.sum', 'count',
                'mu', 'bv', 'np.argmin', 'np.argmax', 'floordiv'):
        return True
    if t.op in ('add', 'sub', 'mul', 'max', 'min', 'neg', 'abs', 'mod',
                'gamma', 'item'):
        return all(whole(x) for x in t.args[t.op == 'gamma':][
            :1 if t.op == 'item' else None] if isinstance(x, T))
    return boolish(t)


def narrowed(v, ty):
    if v.op == 'ref':
        return v
    if cval(ty)[0] in 'iul':
        return v if whole(v) else astype(v, ty)
    if is_num(v) and float(cval(v)) in (0.0, 1.0) or v is NAN:
        return v
    return astype(v, ty)


def type_term(ip, v):
    """Canonical dtype of a dtype argument."""
    if v is None:
        return FLOAT
    if v.op == 'ext':
        n = v.args[0].split('.')[-1]
    elif is_str(v):
        n = cval(v)
    elif v.op == 'class':
        return v
    else:
        return v
    if n in ('bool', 'bool_'):
        return BOOL
    if n in ('float', 'float64', 'double'):
        return FLOAT
    if n in ('int', 'int64', 'int_'):
        return INT
    return const(n)


# ------------------------------------------------------------------- checks
def arg(env, k, default=None):
    return env.get(k, default)


def check(ip, fn, args, kwargs, st):
    """validate.* as primitive contracts (their code is decided by C03)."""
    node = fn.node

    def dflt(ex):
        return lambda: ip.in_module(ex, fn.module, st)
    env = ip.bind_args(node, args, kwargs,
                       [dflt(d) for d in node.args.defaults],
                       [None if d is None else dflt(d)
                        for d in node.args.kw_defaults], st, fn.name)
    names = [a.arg for a in node.args.args]
    ip.stats['checks'] += 1
    name = fn.name
    v = simp(env[names[0]], st) if names else NONE
    nm = env.get('name')
    label = cval(nm) if nm is not None and is_str(nm) else '?'
    ip.event(st, 'check', (name, v, {k: x for k, x in env.items()}, label))
    if name == 'same_shape_arrays':
        return check_shapes(ip, v, st)
    # absent value
    nn = none_ness(v, st)
    if nn is True:
        ip.absent('none-refused', v, st)
        ip.raise_(st, ['TypeError'], ('check', name, label))
        raise Dead()
    if nn is None and any(b is NONE for b in branches(v)):
        from .exprs import isnone_term
        r = st.copy()
        if r.assume(isnone_term(v, st), True):
            ip.absent('none-refused', v, r)
        ip.may_raise(st, isnone_term(v, st), ['TypeError'],
                     ('check', name, label))
        v = simp(v, st)
    why = ('check', name, label, tuple(env.values()))
    if name in ('boolean', 'string'):
        ty = {'boolean': 'bool', 'string': 'str'}[name]
        if not known_type(ip, v, ty, st):
            lit = mk('notisa', v, ty)
            ip.may_raise(st, lit, ['TypeError'], why)
            st.facts[mk('isa', v, ty)] = True
        return v
    if name == 'class_object':
        c = env.get('class_type')
        ty = c.args[0].split('.')[-1] if c is not None and c.op in (
            'class', 'ext') else show(c) if c is not None else '?'
        if not known_type(ip, v, ty, st):
            d = ip.den(v, st)
            x = d if stored_item(d) else v
            lit = mk('notisa', x, ty)
            ip.may_raise(st, lit, ['TypeError'], why)
            st.facts[mk('isa', x, ty)] = True
        return v
    if name == 'number':
        integer = env.get('check_integer', FALSE) is TRUE
        if v.op == 'ref':
            o = ip.obj(v.args[0], st)
            if o is not None and (o.kind != 'arr' or ip.is_sym(v.args[0])
                                  and v.args[0].op == 'param'):
                ip.raise_(st, ['TypeError'], why)
                raise Dead()
            d = ip.den(v, st)
        else:
            d = v
        if not known_number(ip, d, integer, st):
            lit = mk('notnum', d, integer)
            if st.facts.get(lit) is not False:
                ip.may_raise(st, lit, ['TypeError'], why)
        st.facts[mk('notnum', d, integer)] = False
        if integer:
            st.facts[mk('notnum', d, False)] = False
        lo = ip.den(env.get('lower_bound', NONE), st)
        hi = ip.den(env.get('upper_bound', NONE), st)
        excl = env.get('exclusive', FALSE)
        fails, succ = [], []

        def bound_cond(x, y):
            """condition for failing x <= y"""
            if excl is TRUE:
                return compare(ip, 'LtE', y, x, st), compare(
                    ip, 'Lt', x, y, st)
            return compare(ip, 'Lt', y, x, st), compare(
                ip, 'LtE', x, y, st)
        if not (is_num(lo) and cval(lo) == -math.inf):
            f, s = bound_cond(lo, d)
            fails.append(f)
            succ.append(s)
        if not (is_num(hi) and cval(hi) == math.inf):
            f, s = bound_cond(d, hi)
            fails.append(f)
            succ.append(s)
        if not integer and d.op != 'const' and not never_nan(d, st):
            fails.append(mk('isnan', d))
        bad = t_or(*fails)
        ip.may_raise(st, bad, ['ValueError'], why)
        st.facts[mk('isnan', d)] = False
        for s in succ:
            if s.op != 'const':
                st.facts[s] = True
        if integer:
            st.facts[mk('isint', d)] = True
        return v
    if name == 'array':
        d = ip.den(v, st)
        known = ip.is_arr(v, st)
        if v.op != 'ref' or v.args[0].op == 'param' or not known:
            lit = mk('notisa', d, 'ndarray')
            ip.may_raise(st, lit, ['TypeError'], why)
        lo, hi = env.get('lower_bound', NONE), env.get('upper_bound', NONE)
        lo, hi = ip.den(lo, st), ip.den(hi, st)
        excl = env.get('exclusive', FALSE) is TRUE
        if lo is not NONE or hi is not NONE:
            lit = mk('arrout', d, lo, hi, excl)
            if st.facts.get(lit) is not False and not array_inside(
                    ip, d, lo, hi, excl, st):
                ip.may_raise(st, lit, ['ValueError'], why)
            if lo is not NONE:
                st.facts[mk('alllo', d, lo, excl)] = True
            if hi is not NONE:
                st.facts[mk('allhi', d, hi, excl)] = True
            st.facts[mk('allnum', d)] = True
        nd = env.get('num_dimensions', NONE)
        if is_int(nd):
            r = rank(ip, d, st)
            if r != cval(nd):
                if external(d):
                    lit = mk('notrank', d, cval(nd))
                    ip.may_raise(st, lit, ['InvalidDimensionsError'], why)
                if cval(nd) in (1, 2, 3):
                    st.facts[mk('rank', d, cval(nd))] = True
            elif external(d):
                lit = mk('notrank', d, cval(nd))
                if st.facts.get(lit) is not False:
                    ip.may_raise(st, lit, ['InvalidDimensionsError'], why)
        dt = env.get('dtype', NONE)
        if dt is not NONE and external(d):
            lit = mk('notdtype', d, dt)
            ip.may_raise(st, lit, ['TypeError'], why)
        if dt is not NONE:
            st.facts[mk('isdtype', d, dt)] = True
        return v
    return v


def never_nan(d, st):
    if st.facts.get(mk('isnan', d)) is False:
        return True
    if d.op in ('len', 'idx'):
        return True
    if d.op == 'item' and st.facts.get(mk('allnum', d.args[0])):
        return True
    return False


def array_inside(ip, d, lo, hi, excl, st):
    if d.op in ('full', 'full_like') and is_num(d.args[1]):
        x = cval(d.args[1])
        ok = True
        if is_num(lo):
            ok = ok and (x > cval(lo) if excl else x >= cval(lo))
        if is_num(hi):
            ok = ok and (x < cval(hi) if excl else x <= cval(hi))
        return ok
    return False


def known_type(ip, v, ty, st):
    if st.facts.get(mk('isa', v, ty)):
        return True
    if v.op == 'gamma':
        return all(known_type(ip, b, ty, st) for b in branches(v))
    if ty == 'bool':
        return v in (TRUE, FALSE) or v.op in BOOL_OPS or (
            v.op == 'ext' and False)
    if ty == 'str':
        return is_str(v) or v.op in ('str', 'tostr', 'fmt')
    if v.op == 'enum':
        return v.args[0] == ty
    if v.op == 'ref':
        if v.args[0].op == 'param':
            return False
        o = ip.obj(v.args[0], st)
        if o is not None and o.kind == 'inst' and o.cls is not None:
            return any(c.name == ty for c in o.cls.mro())
        if o is not None and o.kind == 'list':
            return ty == 'list'
        if o is not None and o.kind == 'arr':
            return ty == 'ndarray'
        if o is not None and o.kind == 'dict':
            d = ip.den(v, st)
            return ty == 'dict' and (not stored_item(d) or bool(
                st.facts.get(mk('isa', d, ty))))
    spec = ip.symspec.get(v)
    if spec and spec['kind'] == 'enum' and v.op == 'fld':
        return spec['cls'].name == ty
    if v.op in ('opaque', 'extcall'):
        return True
    return False


def known_number(ip, d, integer, st):
    if st.facts.get(mk('notnum', d, integer)) is False:
        return True
    if d.op == 'const':
        if d.args[0] in ('int', 'bool'):
            return True
        if d.args[0] == 'float':
            return not integer
        return False
    if d.op in ('nan', 'pi'):
        return not integer
    if d.op in ('len', 'idx', 'floordiv'):
        return True
    if d.op == 'gamma':
        return known_number(ip, d.args[1], integer, st) and \
            known_number(ip, d.args[2], integer, st)
    if external(d):
        return False
    if d.op in ('fld', 'item', 'elem', 'add', 'sub', 'mul', 'div', 'neg',
                'pow', 'np.nanmin', 'np.nanmax', 'np.sum', 'fold', 'last',
                'ofold', 'mu', 'opaque', 'np.abs', 'bv') or \
            d.op.startswith('np.'):
        if integer and d.op in ('div',):
            return False
        return True
    return False


def check_shapes(ip, v, st):
    seq = ip.exact_seq(v, st) or []
    dens = [ip.den(x, st) for x in seq]
    if len(dens) < 2:
        return NONE
    if not any(external(d) for d in dens):
        for d in dens[1:]:
            st.facts[mk('sameshape', *order(dens[0], d))] = True
        return NONE
    shapes = [shape(ip, d, st) for d in dens]
    if all(s is shapes[0] for s in shapes):
        return NONE
    lit = mk('shapesdiffer', *shapes)
    if st.facts.get(lit) is not False:
        ip.may_raise(st, lit, ['InvalidShapeError'],
                     ('check', 'same_shape_arrays', ''))
    for d in dens[1:]:
        st.facts[mk('sameshape', *order(dens[0], d))] = True
    return NONE


from .extmodel import ext_call, method        # noqa: E402,F401
