"""Models of external callables: numpy, os, shutil, copy, builtins, methods."""
from .terms import *
from .state import *
from .interp_base import *
from . import npmodel as N

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
            'reverse', 'update', 'setdefault', 'popitem', 'fill', 'resize',
            'put', 'itemset', '__setitem__', '__setattr__', 'add',
            'discard'}

SIG = {
    'sum': ['a', 'axis'], 'any': ['a', 'axis'], 'all': ['a', 'axis'],
    'nanmin': ['a', 'axis'], 'nanmax': ['a', 'axis'],
    'min': ['a', 'axis'], 'max': ['a', 'axis'], 'mean': ['a', 'axis'],
    'median': ['a', 'axis'], 'nanmean': ['a', 'axis'],
    'nanmedian': ['a', 'axis'], 'prod': ['a', 'axis'],
    'nansum': ['a', 'axis'], 'nanargmin': ['a', 'axis'],
    'nanargmax': ['a', 'axis'], 'argmin': ['a', 'axis'],
    'argmax': ['a', 'axis'], 'flip': ['m', 'axis'], 'sort': ['a', 'axis'],
    'argsort': ['a', 'axis'], 'cumsum': ['a', 'axis'],
    'concatenate': ['arrays', 'axis'], 'stack': ['arrays', 'axis'],
    'vstack': ['tup'], 'hstack': ['tup'],
    'linspace': ['start', 'stop', 'num'],
    'geomspace': ['start', 'stop', 'num'],
    'logspace': ['start', 'stop', 'num'],
    'arange': ['start', 'stop', 'step'],
    'delete': ['arr', 'obj', 'axis'], 'insert': ['arr', 'obj', 'values',
                                                 'axis'],
    'append': ['arr', 'values', 'axis'], 'interp': ['x', 'xp', 'fp'],
    'repeat': ['a', 'repeats', 'axis'], 'take': ['a', 'indices', 'axis'],
    'full': ['shape', 'fill_value', 'dtype'], 'zeros': ['shape', 'dtype'],
    'ones': ['shape', 'dtype'], 'empty': ['shape', 'dtype'],
    'full_like': ['a', 'fill_value', 'dtype'],
    'zeros_like': ['a', 'dtype'], 'ones_like': ['a', 'dtype'],
    'empty_like': ['prototype', 'dtype'],
    'array': ['object', 'dtype'], 'asarray': ['a', 'dtype'],
    'copy': ['a'], 'save': ['file', 'arr'], 'load': ['file'],
    'where': ['condition', 'x', 'y'], 'reshape': ['a', 'newshape'],
    'unravel_index': ['indices', 'shape'], 'isnan': ['x'],
    'clip': ['a', 'a_min', 'a_max'], 'diff': ['a', 'n', 'axis'],
    'unique': ['ar'], 'dot': ['a', 'b'], 'round': ['a', 'decimals'],
    'put': ['a', 'ind', 'v'], 'place': ['arr', 'mask', 'vals'],
    'copyto': ['dst', 'src'], 'putmask': ['a', 'mask', 'values'],
    'isclose': ['a', 'b', 'rtol', 'atol'],
    'allclose': ['a', 'b', 'rtol', 'atol'],
}
DROP = {'keepdims', 'copy', 'allow_pickle', 'casting', 'subok',
        'fix_imports', 'encoding', 'mmap_mode', 'endpoint'}
# arguments left out before one given by name
GAPS = {(f, k): v for f in ('isclose', 'allclose') for k, v in (
    ('rtol', const(1e-5)), ('atol', const(1e-8)))}
GAPS['arange', 'start'] = const(0)
GAPS['diff', 'n'] = const(1)
GAPS['linspace', 'num'] = const(50)
DEFAULTS = {'axis': NONE, 'dtype': NONE}


def _bind(ip, name, args, kwargs):
    sig = SIG.get(name)
    if sig is None:
        return list(args), dict(kwargs)
    pos = list(args)
    kw = dict(kwargs)
    alias = {'a': ('arr', 'm', 'x', 'ar', 'array', 'object'), }
    for i in range(len(pos), len(sig)):
        k = sig[i]
        if k in kw:
            while len(pos) < i:
                pos.append(GAPS.get((name, sig[len(pos)])))
            pos.append(kw.pop(k))
        elif k == 'axis' and i == len(sig) - 1:
            pass
    return pos, kw


def _none(args):
    return [NONE if a is None else a for a in args]


def _strip(args):
    a = list(args)
    while a and (a[-1] is None or a[-1] is NONE):
        a.pop()
    return _none(a)


def shape_of(ip, v, st):
    d = ip.den(v, st)
    if d.op == 'list':
        return mk('tuple', *d.args)
    if d.op == 'tuple':
        return d
    if d.op == 'shape' or (d.op == 'fld' and 'shape' in str(d.args[1])):
        return d
    if d.op in ('const', 'len') or d.op in ('param',):
        return mk('tuple', d)
    return d


def elem_spec(ip, v, st):
    """Spec of object elements held by an array-like value."""
    for b in branches(v):
        if b.op == 'ref':
            o = ip.obj(b.args[0], st)
            if o is None:
                continue
            if o.kind == 'arr' and o.elem and o.elem.get('kind') == 'inst':
                return o.elem
            if o.kind == 'inst':
                return dict(kind='inst', cls=o.cls)
            if o.kind == 'list':
                if o.elem and o.elem.get('kind') == 'inst':
                    return o.elem
                for s in o.segs:
                    if s[0] == 'one':
                        e = elem_spec(ip, s[1], st) if not ip.is_arr(
                            s[1], st) else None
                        if e:
                            return e
                    elif s[0] == 'map':
                        for x in s[3]:
                            if x[0] == 'one' and not ip.is_arr(x[1], st):
                                e = elem_spec(ip, x[1], st)
                                if e:
                                    return e
    return None


def need(ip, v, st, what):
    """v is consumed as a number / array: None here is a defect."""
    if any(b is NONE for b in branches(v)):
        return ip.require(v, st, 'none-op', what)
    return v


# ------------------------------------------------------------------ ext_call
NP_SETTINGS = {'seterr', 'seterrcall', 'setbufsize', 'set_printoptions',
               'set_string_function', 'errstate', 'printoptions', 'geterr',
               'get_printoptions'}


def ext_call(ip, dotted, args, kwargs, st):
    args = [simp(a, st) for a in args]
    parts = dotted.split('.')
    top, last = parts[0], parts[-1]
    if top in ('numpy', 'np'):
        if len(parts) == 2:
            if last in NP_SETTINGS:
                ext_event(ip, st, dotted, args, kwargs)
                return mk('extcall', 'numpy.' + last)
            return np_call(ip, last, args, kwargs, st)
        if parts[1] in ('char',):
            return mk('strarr', *[ip.den(a, st) for a in args])
        if parts[1] == 'linalg':
            return mk('np.linalg.' + last, *[ip.den(a, st) for a in args])
        if parts[1] == 'random':
            ext_event(ip, st, dotted, args, kwargs)
            if parts[-1] == 'shuffle' and args and args[0].op == 'ref' \
                    and ip.is_arr(args[0], st):
                ip.write_arr(args[0].args[0], None, mk(
                    'shuffled', ip.den(args[0], st)), st, 'inplace')
                return NONE
            return ip.new_arr(ip.opaque('random'), st)
        if last in ('reduce', 'accumulate', 'at', 'outer') and \
                len(parts) == 3:
            if last == 'at' and args and args[0].op == 'ref':
                ip.write_arr(args[0].args[0], ip.den(args[1], st),
                             ip.opaque('ufunc.at'), st, 'inplace')
                return NONE
            if last == 'reduce':
                nm = {'logical_or': 'any', 'logical_and': 'all',
                      'add': 'sum', 'multiply': 'prod', 'minimum': 'min',
                      'maximum': 'max'}.get(parts[1])
                seq = ip.exact_seq(args[0], st)
                if nm and seq and parts[1] in (
                        'logical_or', 'logical_and', 'add'):
                    f = {'logical_or': 'logical_or',
                         'logical_and': 'logical_and',
                         'add': 'add'}[parts[1]]
                    r = seq[0]
                    for x in seq[1:]:
                        r = np_call(ip, f, [r, x], {}, st)
                    return r
                given = nm and len(args) == 1 and not kwargs and optional(
                    ip.list_segs(args[0], st))
                if given and parts[1] in ('logical_or', 'logical_and'):
                    # elements that are present under a condition
                    f = t_or if parts[1] == 'logical_or' else t_and
                    rest = FALSE if parts[1] == 'logical_or' else TRUE
                    r = rest
                    for conds, x in given:
                        x = ip.den(x, st)
                        for c, b in conds:
                            x = gamma(c, x, rest) if b else gamma(c, rest, x)
                        r = f(r, x)
                    return ip.new_arr(r, st)
                if nm:
                    if len(args) == 1:
                        kwargs.setdefault('axis', const(0))
                    return np_call(ip, nm, args, kwargs, st)
            return ip.new_arr(mk('np.%s.%s' % (parts[1], last), *[
                ip.den(a, st) for a in args]), st)
    if top == 'math':
        m = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan',
             'atan2': 'arctan2', 'fabs': 'abs', 'pow': 'power'}.get(
                 last, last)
        if m == 'isclose':
            a = list(args) + [kwargs.get(k, d) for k, d in list(zip(
                ('a', 'b', 'rel_tol', 'abs_tol'), (NONE, NONE, const(1e-9),
                                                   const(0.0))))[len(args):]]
            return mk('math.isclose', *[ip.den(x, st) for x in a])
        if m in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan',
                 'arctan2', 'hypot', 'sqrt', 'exp', 'log', 'abs',
                 'radians', 'degrees', 'isnan', 'isfinite', 'isinf',
                 'floor', 'ceil', 'trunc', 'power', 'prod', 'copysign',
                 'nextafter'):
            return np_call(ip, m, args, kwargs, st)
        return mk('math.' + last, *[ip.den(a, st) for a in args])
    if top == 'builtins':
        return builtin(ip, last, args, kwargs, st)
    if top in ('os', 'shutil', 'pathlib', 'glob', 'tempfile'):
        return os_call(ip, dotted, args, kwargs, st)
    if dotted in ('copy.deepcopy',):
        return deepcopy(ip, args[0], st)
    if dotted in ('copy.copy',):
        return shallow(ip, args[0], st)
    if dotted == 'functools.partial':
        return mk('partial', args[0], mk('tuple', *args[1:]), mk(
            'tuple', *[mk('kw', k, v) for k, v in sorted(kwargs.items())]))
    if dotted == 'functools.reduce' and len(args) >= 2:
        seq = ip.exact_seq(args[1], st)
        if seq is not None and (seq or len(args) > 2):
            seq = list(args[2:3]) + seq
            r = seq[0]
            for x in seq[1:]:
                r = ip.call(args[0], [r, x], {}, st)
            return r
    if top == 'operator' and len(args) == 2:
        o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div',
             'or_': 'BitOr', 'and_': 'BitAnd', 'iadd': 'Add',
             'ior': 'BitOr'}.get(last)
        if o:
            return ip.binop(o, args[0], args[1], st)
    if top == 'operator' and last in ('attrgetter',) and is_str(args[0]):
        return mk('attrgetter', args[0])
    if top == 'operator' and last == 'methodcaller' and is_str(args[0]):
        return mk('methodcaller', *args)
    if top == 'tqdm' and last in BAR:
        ext_event(ip, st, 'tqdm.tqdm.' + last, args, kwargs)
        return NONE
    if top == 'tqdm' or last == 'tqdm':
        if 'file' in kwargs:
            ext_event(ip, st, dotted, args, kwargs)
        v = args[0] if args else kwargs.get('iterable')
        if v is not None:
            ip.bars.add(v)
            return v
    if top == 'itertools':
        if last == 'chain' and args:
            segs = []
            for a in args:
                segs += list(ip.seq_segs(a, st))
            return ip.new_list_segs(segs, st)
        if last == 'count':
            return mk('icount', *args)
        if last in ('product', 'combinations'):
            seqs = [ip.exact_seq(a, st) for a in args]
            if last == 'product' and all(s is not None for s in seqs):
                out = [()]
                for s in seqs:
                    out = [o + (x,) for o in out for x in s]
                if len(out) <= 40:
                    return ip.new_list([mk('tuple', *o) for o in out], st)
    if top in ('uuid', 'random', 'time', 'datetime', 'secrets'):
        ext_event(ip, st, dotted, args, kwargs)
        return mk('unique', dotted, ip.opaque('u'))
    if top == 'contextlib' and last in ('suppress', 'nullcontext'):
        return mk('extcall', dotted)
    if top == 'json' and last in ('dumps',):
        return mk('tostr', ip.den(args[0], st))
    if top == 'typing' and last == 'cast':
        return args[1]
    if top == 'warnings' or last == 'warn':
        ext_event(ip, st, dotted, args, kwargs)
        return NONE
    if last in ('Error', 'Warning') or last.endswith(('Error', 'Warning')):
        return mk('exc', last, *[ip.den(a, st) for a in args])
    ext_event(ip, st, dotted, args, kwargs)
    return mk('extcall', dotted, *([ip.den(a, st) for a in args] + [
        mk('kw', k, ip.den(v, st)) for k, v in sorted(kwargs.items())]))


def ext_event(ip, st, dotted, args, kwargs):
    ip.event(st, 'extcall', (dotted, tuple(args), dict(kwargs),
                             tuple(ip.withs)))


# --------------------------------------------------------------------- numpy
def np_call(ip, name, args, kwargs, st):
    name = N.ALIASNAME.get(name, name)
    if name == 'round_':
        name = 'round'
    args, kw = _bind(ip, name, args, kwargs)
    args = [NONE if a is None else simp(a, st) for a in args]
    kw = {k: v for k, v in kw.items()}
    out = kw.pop('out', None)
    where = kw.pop('where', None)
    for k in list(kw):
        if k in DROP and not (k == 'keepdims' and kw[k] is TRUE) and not (
                k == 'endpoint' and kw[k] is FALSE) and not (
                k == 'copy' and kw[k] is FALSE):
            kw.pop(k)
    if name not in ('reshape', 'ravel') and kw.get('order') is not None:
        # the memory layout of a result
        if name in N.LAYOUT or kw['order'] in (NONE, const('C'), const('K')):
            kw.pop('order')
    r = _np(ip, name, args, kw, st)
    if out is not None and out is not NONE and out.op == 'ref':
        ip.write_arr(out.args[0], None, ip.den(r, st), st, 'inplace')
        return out
    return r


def box(ip, t, st, elem=None):
    return ip.new_arr(t, st, elem=elem)


def _np(ip, name, args, kw, st):
    dn = lambda v: ip.den(v, st)
    if kw.get('copy') is FALSE and name in ('nan_to_num',):
        kw = dict(kw)
        kw.pop('copy')
        r = _np(ip, name, args, kw, st)
        if args[0].op == 'ref':
            ip.write_arr(args[0].args[0], None, dn(r), st, 'inplace')
            return args[0]
        return r
    if name in ('save', 'savez', 'savetxt', 'load', 'loadtxt'):
        return np_io(ip, name, args, kw, st)
    if name == 'abs' and len(args) == 1 and not kw and \
            dn(args[0]).op == 'const' and is_num(dn(args[0])):
        return const(abs(cval(dn(args[0]))))
    if name == 'copy':
        return np_array(ip, args[:1], {}, st)
    if name in ('array',):
        if kw.pop('copy', TRUE) is FALSE and ip.is_arr(args[0], st):
            return args[0]
        return np_array(ip, args, kw, st)
    if name in N.ALIAS:
        v = args[0]
        if v.op == 'gamma':
            return ip.split(v, st, lambda x, s: _np(ip, name, [x] + args[1:],
                                                    kw, s))
        if ip.is_arr(v, st) and len(args) == 1 and 'dtype' not in kw:
            return v
        return np_array(ip, args, kw, st)
    if name in ('zeros', 'ones', 'empty', 'full'):
        sh = shape_of(ip, args[0], st)
        if name == 'full':
            v = dn(args[1])
            dt = args[2] if len(args) > 2 else kw.get('dtype')
        else:
            v = {'zeros': const(0.0), 'ones': const(1.0),
                 'empty': mk('uninit')}[name]
            dt = args[1] if len(args) > 1 else kw.get('dtype')
        t = mk('full', sh, v)
        el = None
        if dt is not None and dt is not NONE:
            tt = N.type_term(ip, dt)
            if dt.op == 'class':
                el = dict(kind='inst', cls=ip.repo.classes[dt.args[0]])
            else:
                t = N.astype(t, tt)
        return box(ip, t, st, el)
    if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        d = dn(need(ip, args[0], st, 'np.' + name))
        k = 2 if name == 'full_like' else 1
        v = dn(args[1]) if name == 'full_like' else {
            'zeros_like': const(0.0), 'ones_like': const(1.0),
            'empty_like': mk('uninit')}[name]
        dt = args[k] if len(args) > k else kw.get('dtype')
        if dt is not None and dt is not NONE and is_num(v):
            tt = N.type_term(ip, dt)
            f = N.astype(mk('full', NONE, v), tt)
            if f.op == 'astype':
                return box(ip, mk('astype', mk('full_like', d, v), tt), st)
            v = f.args[1]
        return box(ip, mk('full_like', d, v), st)
    # None consumed numerically
    if args and name not in ('where', 'isscalar', 'append', 'insert',
                             'array_equal', 'delete', 'concatenate'):
        args = [need(ip, args[0], st, 'np.' + name)] + args[1:]
        if name in N.UFUNC or name in ('interp', 'linspace', 'dot',
                                       'repeat', 'maximum', 'minimum'):
            if name != 'clip':
                args = [need(ip, a, st, 'np.' + name) for a in args]
    boxed = any(ip.is_arr(a, st) or ip.list_segs(a, st) is not None
                for a in args)
    if name in N.BINF and len(args) == 2:
        if name.startswith('logical'):
            a, b = dn(args[0]), dn(args[1])
            r = {'logical_or': t_or, 'logical_and': t_and}.get(
                name, lambda x, y: mk('xor', *N.order(x, y)))(a, b)
        else:
            a, b = dn(args[0]), dn(args[1])
            r = boxed and N.each(ip, N.BINF[name], a, b, st) or N.binop(
                ip, N.BINF[name], a, b, st)
        return box(ip, r, st) if boxed else r
    if name in N.CMPF and len(args) == 2:
        r = N.compare(ip, N.CMPF[name], dn(args[0]), dn(args[1]), st)
        return box(ip, r, st) if boxed else r
    if name in ('logical_not', 'invert', 'bitwise_not'):
        r = t_not(dn(args[0])) if name == 'logical_not' else N.unop(
            ip, 'Invert', dn(args[0]), st)
        return box(ip, r, st) if boxed else r
    if name == 'negative':
        r = N.unop(ip, 'USub', dn(args[0]), st)
        return box(ip, r, st) if boxed else r
    if name == 'positive':
        return args[0]
    if name == 'square':
        r = N.binop(ip, 'Pow', dn(args[0]), const(2), st)
        return box(ip, r, st) if boxed else r
    if name == 'hypot':
        a, b = dn(args[0]), dn(args[1])
        r = mk('np.sqrt', N.binop(ip, 'Add', N.binop(
            ip, 'Pow', a, const(2), st), N.binop(ip, 'Pow', b, const(2), st),
            st))
        return box(ip, r, st) if boxed else r
    if name in ('isnan', 'isfinite', 'isinf'):
        d = dn(args[0])
        if d is NAN:
            r = TRUE if name == 'isnan' else FALSE
        elif name == 'isnan' and is_num(d):
            r = FALSE
        else:
            r = mk(name, d)
        return box(ip, r, st) if boxed else r
    if name == 'where':
        if len(args) == 1:
            return mk('np.where', dn(args[0]))
        a, b = args[1], args[2]
        r = mk('where', dn(args[0]), dn(a), dn(b))
        if r.args[1] is r.args[2]:
            r = r.args[1]
        return box(ip, r, st)
    if name in ('nonzero', 'flatnonzero', 'argwhere'):
        return mk('np.where', dn(args[0])) if name == 'nonzero' else box(
            ip, mk('np.' + name, dn(args[0])), st)
    if name in ('maximum', 'minimum', 'fmax', 'fmin') and len(args) == 2:
        a, b = dn(args[0]), dn(args[1])
        if is_num(a) and is_num(b):
            f = max if 'max' in name else min
            return const(f(cval(a), cval(b)))
        r = mk('np.' + name, *N.order(a, b))
        return box(ip, r, st) if boxed else r
    if name in ('isclose', 'allclose') and len(args) > 1:
        a = list(args) + [kw.get(k, d) for k, d in list(zip(
            ('a', 'b', 'rtol', 'atol'), (NONE, NONE, const(1e-5),
                                         const(1e-8))))[len(args):]]
        r = mk('np.isclose', *[dn(x) for x in a])
        if kw.get('equal_nan', FALSE) is not FALSE:
            r = mk('np.isclose', *(r.args + (dn(kw['equal_nan']),)))
        if name == 'allclose':
            return r if scalars(ip, args[:2], st) else mk('all', r)
        return box(ip, r, st) if boxed else r
    if name == 'array_equal' and len(args) == 2 and not kw:
        if scalars(ip, args, st):
            return N.compare(ip, 'Eq', dn(args[0]), dn(args[1]), st)
        return mk('np.array_equal', *[dn(x) for x in args])
    if name == 'clip':
        r = mk('np.clip', *[dn(a) for a in args])
        return box(ip, r, st) if boxed else r
    if name in ('float64', 'float32', 'int64', 'int32', 'bool_'):
        tt = N.type_term(ip, const(name))
        if not boxed:
            d = dn(args[0])
            return d if tt is FLOAT_T and d.op != 'const' else N.astype(
                d, tt)
        return box(ip, N.astype(dn(args[0]), tt), st)
    if name in ('any', 'all') and len(_strip(args)) == 1:
        d = dn(args[0])
        if d.op == 'list' and all(N.boolish(x) for x in d.args):
            return (t_or if name == 'any' else t_and)(*d.args)
        if d in (TRUE, FALSE):
            return d
        return mk(name, d)
    if name in N.REDUCE:
        a = _strip(args)
        if name == 'shape':
            return N.shape(ip, dn(args[0]), st)
        if name == 'size':
            return mk('np.prod', N.shape(ip, dn(args[0]), st))
        if name == 'ndim':
            r = N.rank(ip, dn(args[0]), st)
            return const(r) if r is not None else mk('ndim', dn(args[0]))
        extra = [mk('kw', k, dn(v)) for k, v in sorted(kw.items())
                 if v is not NONE]
        d = [dn(x) for x in a]
        if name == 'sum' and len(d) == 1 and d[0].op == 'list':
            r = const(0)
            for x in d[0].args:
                r = N.binop(ip, 'Add', r, x, st)
            return r
        if name == 'prod' and len(d) == 1 and d[0].op in ('list', 'tuple'):
            r = const(1)
            for x in d[0].args:
                r = N.binop(ip, 'Mult', r, x, st)
            return r
        if name in ('argmin', 'argmax'):
            pass
        r = mk('np.' + name, *(d + extra))
        return box(ip, r, st) if len(a) > 1 or extra else r
    if name in N.VIEW:
        v = args[0]
        if v.op == 'gamma':
            return ip.split(v, st, lambda x, s: _np(ip, name, [x] + args[1:],
                                                    kw, s))
        return ip.np_view(name, v, args[1:], st, kw)
    if name in N.INPLACE:
        v = args[0]
        if v.op == 'ref':
            if name == 'put':
                ip.write_arr(v.args[0], dn(args[1]), dn(args[2]), st)
            elif name in ('place', 'putmask'):
                ip.write_arr(v.args[0], dn(args[1]), dn(args[2]), st)
            elif name == 'copyto':
                w = kw.get('where')
                if w is not None and w is not TRUE:
                    ip.write_arr(v.args[0], dn(w), dn(args[1]), st)
                else:
                    ip.write_arr(v.args[0], None, dn(args[1]), st,
                                 'inplace')
            else:
                ip.write_arr(v.args[0], None, ip.opaque(name), st,
                             'inplace')
        return NONE
    if name in ('append', 'insert', 'delete', 'concatenate', 'hstack',
                'vstack', 'stack'):
        return np_list(ip, name, args, kw, st)
    if name in ('take',):
        a, i = dn(args[0]), dn(args[1])
        if len(_strip(args)) == 2:
            return ip.getitem(args[0], args[1], st)
        return box(ip, mk('np.take', *[dn(x) for x in args]), st)
    if name in ('linspace', 'arange', 'interp', 'repeat', 'unique', 'sort',
                'cumsum', 'diff', 'argsort', 'dot', 'outer', 'tile',
                'roll', 'digitize', 'searchsorted', 'gradient', 'logspace',
                'geomspace',
                'full', 'cross', 'eye', 'identity', 'fromiter', 'ndarray',
                'meshgrid', 'indices', 'ma', 'convolve', 'intersect1d',
                'union1d', 'setdiff1d', 'in1d', 'isin', 'select', 'choose',
                'compress', 'extract', 'nancumsum', 'deg2rad', 'rad2deg'):
        a = _strip(args)
        dt = kw.get('dtype')
        if dt not in (None, NONE) and dt.op != 'class' and name in (
                'linspace', 'geomspace', 'logspace', 'cumsum', 'eye'):
            kw = {k: v for k, v in kw.items() if k != 'dtype'}
            r = _np(ip, name, args, kw, st)
            return box(ip, N.astype(ip.den(r, st), N.type_term(ip, dt)), st)
        extra = [mk('kw', k, dn(v)) for k, v in sorted(kw.items())]
        if not extra:
            r = N.fold_list(name, [dn(x) for x in a])
            if r is not None:
                return box(ip, r, st)
        if name == 'arange':
            ds = [dn(x) for x in a]
            if len(ds) == 1:
                ds = [const(0), ds[0]]
            t = mk('np.arange', *(ds + extra))
            return box(ip, t, st)
        d = [dn(x) for x in a]
        if name in ('deg2rad', 'rad2deg', 'interp', 'dot'):
            r = mk('np.' + name, *(d + extra))
            bx = boxed if name in ('deg2rad', 'rad2deg') else \
                ip.is_arr(args[0], st) or name == 'dot'
            return box(ip, r, st) if bx else r
        return box(ip, mk('np.' + name, *(d + extra)), st)
    if name == 'unravel_index':
        d = [dn(x) for x in args]
        o = dn(kw['order']) if 'order' in kw else d[2] if len(d) > 2 else None
        if o is not None and o is not const('C'):
            return mk('np.unravel_index', *(d[:2] + [o]))
        return mk('np.unravel_index', *d[:2])
    if name == 'ravel_multi_index':
        return mk('np.ravel_multi_index', *[dn(x) for x in args])
    if name == 'vectorize':
        return mk('vectorized', args[0])
    extra = [mk('kw', k, dn(v)) for k, v in sorted(kw.items())]
    r = mk('np.' + name, *([dn(x) for x in _strip(args)] + extra))
    if name in N.UFUNC:
        return box(ip, r, st) if boxed else r
    if name in ('seterr', 'errstate', 'set_printoptions'):
        ext_event(ip, st, 'numpy.' + name, args, kw)
    return box(ip, r, st) if boxed else r


def scalars(ip, args, st):
    return all(single(ip, ip.den(x, st), st) for x in args)


def single(ip, t, st):
    """Is t certainly one number?"""
    if is_num(t):
        return True
    if t.op in ('add', 'sub', 'mul', 'div', 'neg', 'pow', 'np.abs', 'np.sqrt',
                'tofloat', 'tonum', 'toint', 'np.round'):
        return all(single(ip, x, st) for x in t.args)
    if t.op in ('gamma',):
        return single(ip, t.args[1], st) and single(ip, t.args[2], st)
    s = ip.symspec.get(t)
    return s is not None and s.get('kind') == 'scalar' and \
        t not in ip.arr_terms or N.rank(ip, t, st) == 0


FLOAT_T = const('float')


def np_array(ip, args, kw, st):
    v = args[0]
    if v.op == 'gamma':
        return ip.split(v, st, lambda x, s: np_array(
            ip, [x] + list(args[1:]), kw, s))
    if v is NONE:
        return box(ip, NONE, st)
    el = elem_spec(ip, v, st)
    d = ip.den(v, st)
    if d.op == 'tuple':
        d = mk('list', *d.args)
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    if dt is not None and dt is not NONE and not el:
        if dt.op == 'class':
            el = dict(kind='inst', cls=ip.repo.classes[dt.args[0]])
        else:
            d = N.astype(d, N.type_term(ip, dt))
    return box(ip, d, st, el)


def np_list(ip, name, args, kw, st):
    dn = lambda v: ip.den(v, st)
    axis = args[-1] if name in ('concatenate', 'stack') and len(
        args) > 1 else kw.get('axis')
    if name == 'append':
        a, v = args[0], args[1]
        el = elem_spec(ip, a, st) or elem_spec(ip, v, st)
        da = dn(a)
        isarr = ip.is_arr(v, st) or ip.list_segs(v, st) is not None
        vals = None
        if not isarr and v.op != 'tuple':
            vals = [v]
        elif dn(v).op in ('list', 'tuple'):
            vals = list(dn(v).args)
        if len(_strip(args)) > 2:
            return box(ip, mk('np.concatenate', mk('tuple', da, dn(v)),
                              dn(args[2])), st, el)
        if vals is not None and da.op in ('list', 'emptyarr'):
            return box(ip, mk('list', *(list(da.args) + vals)), st, el)
        if vals is not None:
            r = da
            for x in vals:
                r = mk('np.append', r, x if x.op == 'ref' else dn(x))
            return box(ip, r, st, el)
        return box(ip, mk('np.concatenate', mk('tuple', da, dn(v)),
                          const(0)), st, el)
    if name in ('insert', 'delete'):
        a = args[0]
        el = elem_spec(ip, a, st)
        da = dn(a)
        i = dn(args[1])
        if name == 'insert':
            el = el or elem_spec(ip, args[2], st)
            v = args[2] if args[2].op == 'ref' and not ip.is_arr(
                args[2], st) else dn(args[2])
            if da.op == 'list' and is_int(i) and 0 <= cval(i) <= len(
                    da.args) and len(_strip(args)) == 3:
                l = list(da.args)
                l.insert(cval(i), v)
                return box(ip, mk('list', *l), st, el)
            return box(ip, mk('np.insert', da, i, v, *[
                dn(x) for x in _strip(args)[3:]]), st, el)
        if da.op == 'list' and is_int(i) and -len(da.args) <= cval(i) < len(
                da.args):
            l = list(da.args)
            del l[cval(i)]
            return box(ip, mk('list', *l), st, el)
        ks = N.const_list(i) if i.op == 'list' else None
        if da.op == 'list' and ks is not None and all(
                isinstance(k, int) and -len(da.args) <= k < len(da.args)
                for k in ks) and len(_strip(args)) == 2:
            gone = {k % len(da.args) for k in ks}
            return box(ip, mk('list', *[x for k, x in enumerate(da.args)
                                        if k not in gone]), st, el)
        return box(ip, mk('np.delete', da, i, *[
            dn(x) for x in _strip(args)[2:]]), st, el)
    # concatenate family
    seq = ip.exact_seq(args[0], st)
    el = None
    if seq is None:
        d = dn(args[0])
    else:
        d = mk('tuple', *[dn(x) for x in seq])
        for x in seq:
            el = el or elem_spec(ip, x, st)
    ax = dn(axis) if axis is not None else const(0)
    if name == 'concatenate' and d.op == 'tuple' and ax is const(0) and all(
            x.op == 'list' for x in d.args):
        return box(ip, mk('list', *[y for x in d.args for y in x.args]), st,
                   el)
    if name == 'concatenate':
        return box(ip, mk('np.concatenate', d, ax), st, el)
    return box(ip, mk('np.' + name, d, *([ax] if name == 'stack' else [])),
               st, el)


# ------------------------------------------------------------------ file I/O
def path_of(ip, v, st, suffix=None):
    d = ip.den(v, st)
    if d.op == 'file':
        return d.args[0]
    if suffix is not None:
        endt = d.args[-1] if d.op == 'str' else d
        if is_str(endt) and cval(endt).endswith(suffix):
            return d
        if d.op == 'gamma':
            return gamma(d.args[0], path_of(ip, d.args[1], st, suffix),
                         path_of(ip, d.args[2], st, suffix))
        return ip.concat([d, const(suffix)])
    return d


def fs_get(ip, p, st):
    c = st.fs.get(p)
    if c is None:
        c = below_new(p, st, mk('file0', p), ABSENT)
    return c


def below_new(p, st, old, absent):
    """Content of an untouched path: nothing where a directory above it was
    created anew or removed meanwhile."""
    res = old
    for q, c in st.fs.items():
        if q is not p and under(p, q):
            res = made_new(simp(c, st), res, absent)
    if res is not old:
        for q, c in st.fs.items():
            if q is not p and c is not ABSENT and not distinct(p, q):
                return mk('opaque', 'file', p, c)
    return res


def components(p):
    out = [[]]
    for x in p.args if p.op == 'str' else (p,):
        if is_str(x):
            ws = cval(x).split('/')
            out[-1].append(ws[0])
            for w in ws[1:]:
                out.append([w])
        else:
            out[-1].append(x)
    return [[w for w in c if not isinstance(w, str) or w] for c in out]


def distinct(p, q):
    """Do these path terms certainly name different paths? (A formatted part
    contains no separator.)"""
    a, b = components(p), components(q)
    if a[0] != b[0]:
        return False
    if len(a) != len(b):
        return True
    for x, y in zip(a, b):
        while x and y and x[0] == y[0]:
            x, y = x[1:], y[1:]
        while x and y and x[-1] == y[-1]:
            x, y = x[:-1], y[:-1]
        if not x and not y:
            continue
        if all(isinstance(w, str) for w in x + y) or not x and any(
                isinstance(w, str) for w in y) or not y and any(
                isinstance(w, str) for w in x):
            return True
        for i in (0, -1):
            if not x or not y:
                break
            u, v = x[i], y[i]
            if isinstance(u, str) and isinstance(v, str):
                if i == 0 and not (u.startswith(v) or v.startswith(u)) or \
                        i and not (u.endswith(v) or v.endswith(u)):
                    return True
    return False


def made_new(c, old, absent):
    if c is ABSENT or (c.op == 'dir' and c.args[0] is const('fresh')):
        return absent
    if c.op == 'gamma':
        return gamma(c.args[0], made_new(c.args[1], old, absent),
                     made_new(c.args[2], old, absent))
    return old


def fs_set(ip, p, v, st):
    st.fs[p] = v


def np_io(ip, name, args, kw, st):
    if name in ('save', 'savetxt', 'savez'):
        p = path_of(ip, args[0], st, '.npy' if name == 'save' else
                    '.npz' if name == 'savez' else None)
        v = args[1] if len(args) > 1 else NONE
        d = ip.den(v, st)
        d = snapshot(ip, v, d, st)
        ip.event(st, 'fs_write', (p, d))
        if ip.io:
            ip.may_raise(st, mk('iofail', 'save', p), ['OSError'],
                         'write ' + show(p, 4))
        fs_set(ip, p, d, st)
        return NONE
    p = path_of(ip, args[0], st)
    c = simp(fs_get(ip, p, st), st)
    ip.event(st, 'fs_read', (p, c))
    if ip.io:
        ip.may_raise(st, mk('iofail', 'load', p), N.IOERR,
                     'read ' + show(p, 4))
        if c.op != 'gamma':
            return load_value(ip, c, p, st)
    c = ex_absent(ip, c, p, st)
    return load_value(ip, c, p, st)


def ex_absent(ip, c, p, st):
    c = simp(c, st)
    if c is ABSENT:
        ip.raise_(st, ['FileNotFoundError'], 'absent ' + show(p, 4))
        raise Dead()
    if c.op == 'file0' and decide(mk('exists', c.args[0]), st) is False:
        ip.raise_(st, ['FileNotFoundError'], 'absent ' + show(p, 4))
        raise Dead()
    if c.op == 'gamma':
        bs = branches(c)
        if ABSENT in bs:
            g, a, b = c.args
            if a is ABSENT:
                ip.may_raise(st, g, ['FileNotFoundError'],
                             'absent ' + show(p, 4))
                return ex_absent(ip, b, p, st)
            if b is ABSENT:
                ip.may_raise(st, t_not(g), ['FileNotFoundError'],
                             'absent ' + show(p, 4))
                return ex_absent(ip, a, p, st)
    return c


def load_value(ip, c, p, st):
    if c.op == 'gamma':
        return ip.split(c, st, lambda x, s: load_value(ip, x, p, s))
    if c is ABSENT:
        ip.raise_(st, ['FileNotFoundError'], 'absent')
        raise Dead()
    if c.op == 'broken':
        ip.raise_(st, list(N.IOERR), 'broken ' + show(p, 4))
        raise Dead()
    el = None
    if c.op in ('list', 'np.append', 'np.insert', 'np.delete', 'map'):
        for x in subterms(c):
            if x.op == 'ref':
                o = ip.obj(x.args[0], st)
                if o is not None and o.kind == 'inst':
                    el = dict(kind='inst', cls=o.cls)
                    break
    if c.op == 'fld' or c.op == 'param':
        sp = ip.symspec.get(c)
        if sp and sp.get('elem'):
            el = sp['elem']
    return ip.new_arr(c, st, elem=el)


def snapshot(ip, v, d, st):
    return d


def os_call(ip, dotted, args, kwargs, st):
    last = dotted.split('.')[-1]
    dn = lambda v: ip.den(v, st)
    vals = args + [kwargs[k] for k in ('path', 'name', 'p') if k in kwargs]
    if dotted == 'os.path.join':
        out = []
        for i, a in enumerate(args):
            if i:
                out.append(const('/'))
            out.append(dn(need(ip, a, st, dotted)))
        return ip.concat(out)
    if dotted in ('os.path.exists', 'os.path.isfile', 'os.path.isdir',
                  'os.path.lexists'):
        return exists(ip, dn(vals[0]), st)
    if dotted in ('os.path.normpath', 'os.fspath', 'os.path.abspath',
                  'os.path.expanduser', 'pathlib.Path', 'pathlib.PurePath'):
        if dotted.startswith('pathlib') and len(args) > 1:
            return os_call(ip, 'os.path.join', args, {}, st)
        return args[0] if args else const('.')
    if dotted in ('os.path.basename', 'os.path.dirname', 'os.path.splitext',
                  'os.path.split'):
        return mk(dotted, dn(args[0]))
    if last in ('mkdir', 'makedirs'):
        p = dn(vals[0])
        ok = kwargs.get('exist_ok', FALSE) is TRUE
        e = exists(ip, p, st)
        ip.event(st, 'fs_mkdir', (p, ok, last))
        if not ok:
            ip.may_raise(st, e, ['FileExistsError'], 'mkdir existing')
        if ip.io:
            ip.may_raise(st, mk('iofail', 'mkdir', p), ['OSError'], 'mkdir')
        cur = st.fs.get(p)
        if not ok or (cur is not None and cur is ABSENT):
            # freshly created: nothing below it exists
            st.fs[p] = mk('dir', const('fresh'))
        else:
            st.fs[p] = mk('dir', p)
        return NONE
    if last in ('remove', 'unlink', 'rmdir', 'removedirs'):
        p = dn(vals[0])
        e = exists(ip, p, st)
        ip.event(st, 'fs_remove', (p, last))
        ip.may_raise(st, t_not(e), ['FileNotFoundError'], 'remove absent')
        if ip.io:
            ip.may_raise(st, mk('iofail', 'remove', p), ['OSError'],
                         'remove')
        st.fs[p] = ABSENT
        return NONE
    if last == 'rmtree':
        p = dn(vals[0])
        ip.event(st, 'fs_rmtree', (p, kwargs.get('ignore_errors', FALSE)))
        if kwargs.get('ignore_errors', FALSE) is not TRUE:
            ip.may_raise(st, t_not(exists(ip, p, st)),
                         ['FileNotFoundError'], 'rmtree absent')
            if ip.io:
                ip.may_raise(st, mk('iofail', 'rmtree', p), ['OSError'],
                             'rmtree')
        for q in list(st.fs):
            if under(q, p):
                st.fs[q] = ABSENT
        st.fs[p] = ABSENT
        return NONE
    if last in ('rename', 'replace', 'move', 'copy', 'copyfile', 'copy2',
                'copytree'):
        a, b = dn(args[0]), dn(args[1])
        ip.event(st, 'fs_move', (a, b, last))
        st.fs[b] = fs_get(ip, a, st)
        if last in ('rename', 'replace', 'move'):
            st.fs[a] = ABSENT
        return NONE
    if last in ('listdir', 'scandir', 'glob', 'walk', 'iglob'):
        ip.event(st, 'fs_list', (dn(args[0]) if args else NONE,))
        return mk('listdir', dn(args[0]) if args else const('.'))
    ext_event(ip, st, dotted, args, kwargs)
    return mk('extcall', dotted, *[dn(a) for a in args])


def under(q, p):
    """Is path q lexically inside directory p?"""
    qa = list(q.args) if q.op == 'str' else [q]
    pa = list(p.args) if p.op == 'str' else [p]
    for i, x in enumerate(pa):
        if i >= len(qa):
            return False
        y = qa[i]
        if x is y:
            if i == len(pa) - 1 and len(qa) > i + 1:
                n = qa[i + 1]
                if is_str(n) and cval(n).startswith('/'):
                    return True
                return is_str(x) and cval(x).endswith('/')
            continue
        if i == len(pa) - 1 and is_str(x) and is_str(y):
            return cval(y).startswith(cval(x).rstrip('/') + '/')
        return False
    return False


def exists(ip, p, st):
    c = st.fs.get(p)
    if c is None:
        c = below_new(p, st, mk('file0', p), ABSENT)

    def ex(c):
        if c is ABSENT:
            return FALSE
        if c.op == 'gamma':
            return bgamma(c.args[0], ex(c.args[1]), ex(c.args[2]))
        if c.op == 'file0':
            return mk('exists', c.args[0])
        if c.op in ('mu', 'ofold', 'last', 'fold'):
            return mk('exists', mk('content', c))
        if c.op == 'opaque' and c.args[0] == 'file':
            return mk('opaque', 'exists', p)
        return TRUE
    return ex(c)


# ------------------------------------------------------------------- copying
def prefixed(oid, root):
    t = oid
    while isinstance(t, T):
        if t is root:
            return True
        if t.op in ('fld', 'elem', 'item', 'dcopy') and t.args:
            t = t.args[1] if t.op == 'dcopy' else t.args[0]
        else:
            return False
    return False


def deepcopy(ip, v, st, memo=None):
    memo = {} if memo is None else memo
    if v.op == 'gamma':
        return gamma(v.args[0], deepcopy(ip, v.args[1], st, memo),
                     deepcopy(ip, v.args[2], st, memo))
    if v.op == 'tuple':
        return mk('tuple', *[deepcopy(ip, x, st, memo) for x in v.args])
    if v.op != 'ref':
        return v
    oid = v.args[0]
    if oid in memo:
        return memo[oid]
    o = ip.obj(oid, st)
    if o is None:
        return v
    if o.kind == 'inst':
        if o.extra == 'sym':
            ip.newid += 1
            nid = mk('dcopy', ip.newid, oid)
            ip.symspec[nid] = ip.symspec.get(oid) or dict(kind='inst',
                                                          cls=o.cls)
            n = HObj('inst', cls=o.cls, fields={}, extra='sym')
            r = mk('ref', nid)
            memo[oid] = r
            st.heap[nid] = n
            specs = ip.repo.field_specs(o.cls)
            dirty = any(x is not oid and prefixed(x, oid) for x in st.heap)
            for k in list(specs) + [k for k in o.fields if k not in specs]:
                if k in o.fields or dirty:
                    fv = ip.get_field(oid, k, st)
                    if fv is not None:
                        n.fields[k] = deepcopy(ip, fv, st, memo)
            return r
        r = ip.new_inst(o.cls, st)
        memo[oid] = r
        n = st.heap[r.args[0]]
        for k, x in o.fields.items():
            n.fields[k] = deepcopy(ip, x, st, memo)
        return r
    if o.kind == 'arr':
        c = ip.arr_content(oid, st)
        r = ip.new_arr(copy_refs(ip, c, st, memo), st, elem=o.elem)
        memo[oid] = r
        return r
    if o.kind == 'list':
        r = ip.new_list_segs(copy_segs(ip, o.segs, st, memo), st)
        memo[oid] = r
        return r
    if o.kind == 'dict':
        n = ip.fresh('dict')
        st.heap[n] = HObj('dict', content=copy_refs(ip, o.content, st, memo))
        r = mk('ref', n)
        memo[oid] = r
        return r
    return v


def optional(segs, conds=()):
    """[(conditions, element)] of a list some elements of which are there
    under a condition only, or None."""
    if segs is None:
        return None
    out = []
    for s in segs:
        if s[0] == 'one':
            out.append((conds, s[1]))
        elif s[0] == 'alt':
            for arm, b in ((s[2], True), (s[3], False)):
                xs = optional(arm, ((s[1], b),) + conds)
                if xs is None:
                    return None
                out.extend(xs)
        else:
            return None
    return out


def copy_segs(ip, segs, st, memo):
    out = []
    for s in segs:
        if s[0] == 'one':
            out.append(('one', deepcopy(ip, s[1], st, memo)))
        elif s[0] == 'map':
            out.append(('map', s[1], s[2], copy_segs(ip, s[3], st, memo),
                        s[4]))
        elif s[0] == 'alt':
            out.append(('alt', s[1], copy_segs(ip, s[2], st, memo),
                        copy_segs(ip, s[3], st, memo)))
        else:
            out.append(s)
    return tuple(out)


def copy_refs(ip, c, st, memo):
    if c is None:
        return None
    if c.op in ('list', 'dstore', 'np.append', 'np.insert', 'np.delete',
                'gamma', 'emptydict', 'ref', 'tuple'):
        if c.op == 'ref':
            return deepcopy(ip, c, st, memo)
        na = tuple(copy_refs(ip, a, st, memo) if isinstance(a, T) else a
                   for a in c.args)
        return c if na == c.args else mk(c.op, *na)
    sp = ip.symspec.get(c)
    if sp and sp.get('elem') and sp['elem'].get('kind') == 'inst':
        ip.newid += 1
        nid = mk('dcopy', ip.newid, c)
        ip.symspec[nid] = sp
        return nid
    return c


def shallow(ip, v, st):
    if v.op == 'gamma':
        return gamma(v.args[0], shallow(ip, v.args[1], st),
                     shallow(ip, v.args[2], st))
    if v.op != 'ref':
        return v
    oid = v.args[0]
    o = ip.obj(oid, st)
    if o is None:
        return v
    if o.kind == 'inst':
        r = ip.new_inst(o.cls, st)
        n = st.heap[r.args[0]]
        specs = ip.repo.field_specs(o.cls) if o.extra == 'sym' else {}
        for k in list(specs) + [k for k in o.fields if k not in specs]:
            x = ip.get_field(oid, k, st)
            if x is not None:
                n.fields[k] = x
        return r
    if o.kind == 'arr':
        return ip.new_arr(ip.arr_content(oid, st), st, elem=o.elem)
    if o.kind == 'list':
        r = ip.new_list_segs(o.segs, st)
        st.heap[r.args[0]].elem = o.elem
        return r
    n = ip.fresh('dict')
    st.heap[n] = HObj('dict', content=o.content)
    return mk('ref', n)


# ------------------------------------------------------------------ builtins
def type_names(ip, t):
    out = []
    if t.op == 'tuple':
        for x in t.args:
            out += type_names(ip, x)
        return out
    if t.op in ('class',):
        return [t.args[0]]
    if t.op == 'ext':
        return [t.args[0].split('.')[-1]]
    if t.op == 'extcall' and t.args[0] == 'builtins.type':
        return ['NoneType']
    return ['?']


def builtin(ip, name, args, kwargs, st):
    dn = lambda v: ip.den(v, st)
    if name == 'len':
        v = need(ip, args[0], st, 'len')
        return ip.length(v, st)
    if name in ('zip', 'enumerate', 'reversed', 'sum', 'any', 'all',
                'sorted', 'list', 'tuple', 'set', 'iter', 'map') and args:
        k = 1 if name == 'map' else 0
        args = args[:k] + [need(ip, x, st, name) for x in args[k:]]
    if name == 'range':
        a = [dn(need(ip, x, st, name)) for x in args]
        if len(a) == 1:
            a = [const(0)] + a
        if len(a) == 2:
            a.append(const(1))
        return mk('range', *a)
    if name == 'zip':
        return mk('zip', *args)
    if name == 'enumerate':
        s = args[1] if len(args) > 1 else kwargs.get('start', const(0))
        return mk('enumerate', args[0], s)
    if name == 'reversed':
        return mk('reversed', args[0])
    if name in ('int', 'float', 'bool', 'str', 'repr'):
        if name in ('str', 'repr'):
            return ip.to_str(args[0], st) if args else const('')
        if not args:
            return const({'int': 0, 'float': 0.0, 'bool': False}[name])
        if name == 'bool':
            return ip.truth(args[0], st)
        v = need(ip, args[0], st, name)
        d = dn(v)
        if is_str(d):
            try:
                return const(float(cval(d)) if name == 'float' else
                             int(cval(d)))
            except ValueError:
                ip.raise_(st, ['ValueError'], 'conversion')
                raise Dead()
        if ip.io and N.io_tainted(d):
            ip.may_raise(st, mk('iofail', name, d),
                         ['TypeError', 'ValueError'],
                         'conversion of file content')
        if d.op == 'const' and d.args[0] in ('int', 'float', 'bool'):
            try:
                return const({'int': int, 'float': float}[name](cval(d)))
            except (ValueError, OverflowError):
                return mk('toint', d)
        if name == 'float':
            return d
        if d.op in ('len', 'idx', 'floordiv'):
            return d
        return mk('toint', d)
    if name in ('abs',):
        return np_call(ip, 'abs', args, {}, st)
    if name == 'round':
        return np_call(ip, 'round', args, kwargs, st)
    if name in ('min', 'max'):
        if len(args) == 1:
            seq = ip.exact_seq(args[0], st)
            if seq:
                args = seq
            else:
                return mk('np.' + name, dn(args[0]))
        if len(args) == 1:
            return args[0]
        ds = [dn(need(ip, x, st, name)) for x in args]
        if all(is_num(x) for x in ds):
            return const({'min': min, 'max': max}[name](
                *[cval(x) for x in ds]))
        r = ds[0]
        for x in ds[1:]:
            # min(a, b) is b if b < a else a
            c = N.compare(ip, 'Lt' if name == 'min' else 'Gt', x, r, st)
            r = gamma(c, x, r)
        return r
    if name == 'pow':
        return ip.binop('Pow', args[0], args[1], st)
    if name == 'divmod':
        return mk('tuple', ip.binop('FloorDiv', args[0], args[1], st),
                  ip.binop('Mod', args[0], args[1], st))
    if name == 'sum':
        seq = ip.exact_seq(args[0], st)
        if seq is not None:
            r = args[1] if len(args) > 1 else const(0)
            for x in seq:
                r = ip.binop('Add', r, x, st)
            return r
        return mk('np.sum', dn(args[0]))
    if name in ('any', 'all'):
        seq = ip.exact_seq(args[0], st)
        if seq is not None:
            return (t_or if name == 'any' else t_and)(*[
                ip.truth(x, st) for x in seq])
        d = dn(args[0])
        return mk(name, d)
    if name == 'isinstance':
        return isinstance_(ip, args[0], args[1], st)
    if name == 'issubclass':
        return mk('issubclass', *[dn(a) for a in args])
    if name == 'type':
        v = args[0]
        if v.op == 'ref':
            o = ip.obj(v.args[0], st)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                return mk('class', o.cls.name)
        if v is NONE:
            return mk('ext', 'builtins.NoneType')
        if v.op == 'enum':
            return mk('class', v.args[0])
        return mk('typeof', dn(v))
    if name == 'callable':
        return mk('callable', dn(args[0]))
    if name == 'id':
        return mk('id', args[0])
    if name == 'hash':
        return mk('hash', dn(args[0]))
    if name == 'iter':
        return args[0]
    if name == 'next':
        p = ip.iter_plan(args[0], st)
        if p and p[0][0] == 'one':
            return p[0][1]
        return mk('next', dn(args[0]))
    if name == 'getattr':
        if is_str(args[1]):
            if len(args) > 2:
                r = has(ip, args[0], cval(args[1]), st)
                if r is FALSE:
                    return args[2]
            return ip.getattr(args[0], cval(args[1]), st)
        if args[1].op == 'gamma' and all(is_str(b)
                                         for b in branches(args[1])):
            return ip.split(args[1], st, lambda x, s: ip.getattr(
                args[0], cval(x), s))
        return mk('attr', args[0], dn(args[1]))
    if name == 'setattr':
        if is_str(args[1]):
            ip.setattr(args[0], cval(args[1]), args[2], st)
            return NONE
        if args[1].op == 'gamma' and all(is_str(b)
                                         for b in branches(args[1])):
            ip.split(args[1], st, lambda x, s: (ip.setattr(
                args[0], cval(x), args[2], s), NONE)[1])
            return NONE
        ip.note('setattr with computed name')
        ip.event(st, 'write', (args[0], ('field*', dn(args[1])), args[2]))
        return NONE
    if name == 'delattr' and is_str(args[1]):
        if args[0].op == 'ref':
            ip.write_field(args[0], cval(args[1]), UNDEF, st)
        return NONE
    if name == 'hasattr':
        return has(ip, args[0], cval(args[1]) if is_str(args[1]) else '',
                   st)
    if name == 'vars':
        return mk('objdict', args[0])
    if name in ('list', 'set', 'frozenset'):
        if not args:
            return ip.new_list([], st)
        v = need(ip, args[0], st, name)
        if name != 'list':
            r = N.fold_list('set', [dn(v)])
            if r is not None:
                return ip.new_list(r.args, st)
        if name != 'list':
            return ip.split(v, st, lambda x, s: ip.as_set(ip.new_list_segs(
                ip.seq_segs(x, s), s), s))
        return ip.split(v, st, lambda x, s: ip.new_list_segs(
            ip.seq_segs(x, s), s))
    if name == 'tuple':
        if not args:
            return mk('tuple')
        seq = ip.exact_seq(args[0], st)
        if seq is not None:
            return mk('tuple', *seq)
        d = dn(args[0])
        if d.op == 'shape':
            return d
        return ip.new_list_segs(ip.seq_segs(args[0], st), st)
    if name == 'dict':
        oid = ip.fresh('dict')
        c = mk('emptydict')
        if args:
            if args[0].op == 'ref':
                o = ip.obj(args[0].args[0], st)
                if o is not None and o.kind == 'dict':
                    c = o.content
                else:
                    seq = ip.exact_seq(args[0], st)
                    if seq is not None:
                        for x in seq:
                            kv = ip.exact_seq(x, st)
                            if kv and len(kv) == 2:
                                c = mk('dstore', c, dn(kv[0]), kv[1])
                    else:
                        c = mk('dictof', dn(args[0]))
            else:
                seq = ip.exact_seq(args[0], st)
                if seq is not None:
                    for x in seq:
                        kv = ip.exact_seq(x, st)
                        if kv and len(kv) == 2:
                            c = mk('dstore', c, dn(kv[0]), kv[1])
                else:
                    c = mk('dictof', dn(args[0]))
        for k, v in kwargs.items():
            c = mk('dstore', c, const(k), v)
        st.heap[oid] = HObj('dict', content=c)
        return mk('ref', oid)
    if name == 'sorted':
        d = dn(args[0])
        kws = [mk('kw', k, dn(v)) for k, v in sorted(kwargs.items())]
        rev = kwargs.get('reverse')
        if not kws or len(kws) == 1 and rev in (TRUE, FALSE):
            r = N.fold_list('sorted', [d])
            if r is not None:
                return ip.new_list(r.args[::-1] if rev is TRUE else r.args,
                                   st)
        seq = ip.exact_seq(args[0], st)
        els = sort_objects(ip, seq, kwargs, st) if seq is not None else None
        if els is not None:
            return ip.new_list(els, st)
        t = sorted_term(ip, args[0], d, kwargs, st)
        return ip.new_list_segs((('opaque', t),), st)
    if name in ('map', 'filter'):
        return map_filter(ip, name, args, st)
    if name == 'print':
        ext_event(ip, st, 'builtins.print', args, kwargs)
        return NONE
    if name == 'input':
        ext_event(ip, st, 'builtins.input', args, kwargs)
        return ip.opaque('input')
    if name == 'open':
        mode = args[1] if len(args) > 1 else kwargs.get('mode', const('r'))
        p = dn(args[0])
        if is_str(mode) and cval(mode)[:1] in 'wax':
            ip.event(st, 'fs_open', (p, cval(mode)))
        if ip.io:
            ip.may_raise(st, mk('iofail', 'open', p), ['OSError'], 'open')
        return mk('file', p, dn(mode))
    if name == 'super':
        return ip.opaque('super')
    if name == 'object':
        return ip.opaque('object')
    if name == 'slice':
        a = [dn(x) for x in args]
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return mk('slice', *a)
    if name == 'format':
        return ip.fmt(args[0], args[1] if len(args) > 1 else const(''), st)
    if name in ('ord', 'chr', 'hex', 'bin', 'ascii'):
        return mk(name, *[dn(a) for a in args])
    mro = ip.exc_mro(name)
    if 'BaseException' in mro and name[0].isupper():
        return mk('exc', name, *[dn(a) for a in args])
    ext_event(ip, st, 'builtins.' + name, args, kwargs)
    return mk('extcall', 'builtins.' + name, *[dn(a) for a in args])


def has(ip, v, name, st):
    v = simp(v, st)
    if v.op == 'gamma':
        return bgamma(v.args[0], has(ip, v.args[1], name, st),
                      has(ip, v.args[2], name, st))
    if v.op == 'ref':
        o = ip.obj(v.args[0], st)
        if o is not None and o.kind == 'inst' and o.cls is not None:
            f = o.fields.get(name)
            if f is None and o.extra == 'sym' and name in \
                    ip.repo.field_specs(o.cls):
                return TRUE
            if f is not None and f is not UNDEF:
                if f.op == 'gamma' and UNDEF in branches(f):
                    return mk('hasattr', v, const(name))
                return TRUE
            if o.cls.find(name) or o.cls.find_getter(name) or \
                    o.cls.find_attr(name)[1] is not None:
                return TRUE
            return FALSE
        if o is not None and o.kind == 'arr':
            return TRUE if name in ('shape', 'dtype', 'size', 'copy',
                                    'astype', '__len__', '__array__') \
                else mk('hasattr', v, const(name))
    if v is NONE:
        return TRUE if hasattr(None, name) else FALSE
    if v.op == 'const':
        return const(hasattr(cval(v), name))
    return mk('hasattr', ip.den(v, st), const(name))


def scalar_item(d):
    """One entry of an array read from a file: a number or an array."""
    return d.op == 'item' and d.args[0].op == 'file0' and (
        is_int(d.args[1]) or d.args[1].op == 'idx')


def isinstance_(ip, v, t, st):
    v = simp(v, st)
    names = type_names(ip, t)
    if v.op == 'gamma':
        return bgamma(v.args[0], isinstance_(ip, v.args[1], t, st),
                      isinstance_(ip, v.args[2], t, st))
    if v is NONE:
        return const('NoneType' in names)
    if 'object' in names:
        return TRUE
    if v.op == 'const':
        k = v.args[0]
        ok = k in names or (k == 'bool' and 'int' in names)
        ok = ok or (k in ('int', 'float', 'bool') and (
            'Number' in names or 'Real' in names)) or (
                k == 'int' and 'Integral' in names)
        return const(ok)
    if v.op == 'nan':
        return const(bool({'float', 'Number', 'Real', 'floating'} &
                          set(names)))
    if v.op == 'tuple':
        return const('tuple' in names)
    if v.op == 'enum':
        return const(v.args[0] in names or 'Enum' in names)
    if v.op == 'str':
        return const('str' in names)
    if v.op == 'ref' and v.args[0].op != 'param':
        o = ip.obj(v.args[0], st)
        if o is not None:
            if o.kind == 'inst' and o.cls is not None:
                return const(any(c.name in names for c in o.cls.mro()))
            if o.kind == 'arr' and not scalar_item(ip.den(v, st)):
                return const('ndarray' in names)
            if o.kind == 'list':
                return const('list' in names)
            if o.kind == 'dict' and not N.stored_item(ip.den(v, st)):
                return const('dict' in names)
    d = ip.den(v, st)
    for n in names:
        if st.facts.get(mk('isa', d, n)):
            return TRUE
    return mk('isinstance', d, tuple(sorted(names)))


def map_filter(ip, name, args, st):
    from .calls import subst_value
    if name == 'filter' and args[0] is NONE:
        fn = lambda x, s: x
    else:
        fn = lambda x, s: ip.call(args[0], [x], {}, s)
    out = ip.new_list([], st)
    import ast
    if name == 'map' and len(args) > 2:
        src = mk('zip', *args[1:])
        call = lambda x, s: ip.call(args[0], list(
            ip.exact_seq(x, s) or [x]), {}, s)
    else:
        src = args[1]
        call = fn
    tgt = ast.Name(id='$it', ctx=ast.Store())

    def body(s):
        x = s.vars['$it']
        if name == 'map':
            ip.list_append(out, call(x, s), s, quiet=True)
            return s
        c = ip.truth(fn(x, s), s)
        d = decide(c, s)
        if d is False:
            return s
        if d is True:
            ip.list_append(out, x, s, quiet=True)
            return s

        def yes(y):
            ip.list_append(out, x, y, quiet=True)
            return y
        return ip.fork(c, s, yes, lambda y: y)
    r = ip.for_plan(ip.iter_plan(src, st), st, tgt, body)
    if r is None:
        raise Dead()
    if r is not st:
        st.become(r)
    st.vars.pop('$it', None)
    return out


# ------------------------------------------------------------------- methods
NPMETH = {'sum', 'any', 'all', 'min', 'max', 'mean', 'prod', 'argmin',
          'argmax', 'std', 'var', 'cumsum', 'repeat', 'take', 'clip',
          'round', 'nonzero', 'dot', 'argsort', 'ptp', 'searchsorted'}


BAR = {'write', 'set_description', 'set_description_str', 'set_postfix',
       'set_postfix_str', 'refresh', 'close', 'display', 'unpause', 'reset',
       'update', 'moveto', 'clear'}


def method(ip, recv, name, args, kwargs, st):
    if recv in ip.bars and name in BAR:
        ext_event(ip, st, 'tqdm.tqdm.' + name, args, kwargs)
        return NONE
    recv = simp(recv, st)
    args = [simp(a, st) for a in args]
    if recv.op == 'gamma':
        if any(b is NONE for b in branches(recv)):
            recv = ip.require(recv, st, 'none-attr', name)
        if recv.op == 'gamma':
            return ip.split(recv, st, lambda x, s: method(
                ip, x, name, args, kwargs, s))
    if recv is NONE:
        ip.hazard(st, 'none-attr', recv, name)
        raise Dead()
    if recv.op == 'super':
        if name == '__setattr__' and len(args) == 2 and is_str(args[0]):
            cls, selfv, after = ip.supers[recv.args[0]]
            ip.write_field(selfv, cval(args[0]), args[1], st)
            return NONE
        return NONE
    if recv.op == 'ref':
        o = ip.obj(recv.args[0], st)
        if o is not None:
            if o.kind == 'arr':
                return arr_method(ip, recv, o, name, args, kwargs, st)
            if o.kind == 'list':
                return list_method(ip, recv, o, name, args, kwargs, st)
            if o.kind == 'dict':
                return dict_method(ip, recv, o, name, args, kwargs, st)
    if recv.op == 'ext':
        return ext_call(ip, recv.args[0] + '.' + name, args, kwargs, st)
    if recv.op == 'objdict' and name == 'update' and recv.args[0].op == \
            'ref':
        for k, v in kwargs.items():
            ip.write_field(recv.args[0], k, v, st)
        if args and args[0].op == 'ref':
            o = ip.obj(args[0].args[0], st)
            it = ip.dict_items(o.content) if o is not None and \
                o.kind == 'dict' else None
            for k, v in it or []:
                if is_str(k):
                    ip.write_field(recv.args[0], cval(k), v, st)
        return NONE
    if recv.op == 'class':
        cls = ip.repo.classes.get(recv.args[0])
        if cls is not None and name == '__new__':
            c = args[0] if args else recv
            cc = ip.repo.classes.get(c.args[0]) if c.op == 'class' else cls
            return ip.new_inst(cc, st)
    if ip.is_strish(recv, st):
        return str_method(ip, recv, name, args, kwargs, st)
    if recv.op == 'file':
        if name == 'write':
            ip.event(st, 'fs_write', (recv.args[0], ip.den(args[0], st)))
            st.fs[recv.args[0]] = mk('textfile', ip.den(args[0], st))
        if name == 'read':
            return mk('read', st.fs.get(recv.args[0], mk(
                'file0', recv.args[0])))
        return NONE
    if recv.op in ('shape', 'tuple') and name in ('index', 'count'):
        return mk('tuple.' + name, ip.den(recv, st), *[
            ip.den(a, st) for a in args])
    d = ip.den(recv, st)
    if name in STR_ONLY and d.op in ('item', 'elem', 'attr', 'fld', 'param',
                                     'gamma', 'last'):
        return str_method(ip, d, name, args, kwargs, st)
    if N.io_tainted(d) or d.op in ('item', 'elem', 'mu', 'fold', 'ofold',
                                   'last', 'fld', 'param', 'opaque',
                                   'npitem', 'store', 'bv') or \
            d.op.startswith('np.'):
        if name in MUTATORS or any(name in c.methods for c in
                                   ip.repo.classes.values()):
            ip.lose(d)
        r = unknown_method(ip, d, name, args, kwargs, st)
        if r is not None:
            return r
    if recv.op == 'const' or recv.op in ('nan', 'lt', 'le', 'eq'):
        if name == 'item':
            return recv
        if name == 'astype':
            return N.astype(recv, N.type_term(ip, args[0]))
    ip.event(st, 'extmeth', (recv, name, tuple(args), dict(kwargs)))
    return mk('opaque', 'm.' + name, ip_next(ip), d)


def ip_next(ip):
    ip.foldids += 1
    return ip.foldids


def unknown_method(ip, d, name, args, kwargs, st):
    """Method on a value of unknown (numeric / array) kind."""
    if name == 'item':
        if ip.io and N.io_tainted(d):
            ip.may_raise(st, mk('iofail', 'item()', d),
                         ['ValueError'], 'item() of file content')
        return mk('npitem', d) if N.io_tainted(d) and not args else d
    if name == 'copy':
        return ip.new_arr(d, st)
    if name == 'tolist':
        return d
    if name == 'astype':
        return ip.new_arr(N.astype(d, N.type_term(ip, args[0])), st)
    if name in ('flatten', 'ravel'):
        return ip.new_arr(mk('np.flatten', d), st)
    if name in NPMETH:
        return np_call(ip, name, [ip.new_arr(d, st)] + args, kwargs, st)
    if name in ('append', 'sort', 'fill', 'extend', 'insert', 'pop',
                'remove', 'clear', 'update', 'put'):
        ip.event(st, 'write', (d, ('meth', name), args[0] if args else
                               NONE))
        return NONE
    if name in ('keys', 'values', 'items', 'get'):
        if name == 'get':
            return mk('item', d, ip.den(args[0], st))
        return mk('d' + name, d)
    return None


def arr_method(ip, recv, o, name, args, kwargs, st):
    oid = recv.args[0]
    dn = lambda v: ip.den(v, st)
    if name == 'copy':
        return ip.new_arr(dn(recv), st, elem=o.elem)
    if name == 'view' and not args and not kwargs:
        return recv
    if name == 'astype' and kwargs.get('copy') is FALSE and args and \
            o.elem is None:
        ty = N.type_term(ip, args[0])
        ty = getattr(ty, 'args', (ty,))[-1] if isinstance(ty, T) else ty
        c = dn(recv)
        if ('bool' in str(ty)) == bool(N.boolish(c)):
            return recv
    if name in ('astype', 'view'):
        t = args[0] if args else kwargs.get('dtype', NONE)
        if t.op == 'class':
            return ip.new_arr(dn(recv), st, elem=dict(
                kind='inst', cls=ip.repo.classes[t.args[0]]))
        c = N.astype(dn(recv), N.type_term(ip, t))
        return ip.new_arr(c, st, elem=o.elem)
    if name == 'flatten':
        return ip.new_arr(flat(dn(recv)), st, elem=o.elem)
    if name in ('ravel', 'reshape', 'transpose', 'squeeze', 'swapaxes',
                'diagonal', 'view'):
        return ip.np_view(name, recv, args, st, kwargs)
    if name == 'tolist':
        c = dn(recv)
        if c.op in ('list', 'tuple'):
            return ip.new_list(list(c.args), st)
        segs = ip.seq_segs(recv, st)
        return ip.new_list_segs(segs, st)
    if name == 'item':
        c = dn(recv)
        if args:
            return ip.getitem(recv, args[0], st)
        if c.op in ('dstore', 'emptydict', 'dictof', 'update', 'ddel'):
            n = ip.fresh('dict')
            st.heap[n] = HObj('dict', content=c)
            return mk('ref', n)
        sp = ip.symspec.get(c)
        if sp and sp['kind'] == 'dict':
            n = ip.fresh('dict')
            st.heap[n] = HObj('dict', content=c)
            return mk('ref', n)
        if ip.io and N.io_tainted(c):
            ip.may_raise(st, mk('iofail', 'item()', c), ['ValueError'],
                         'item() of file content')
        if c.op == 'file0':
            n = ip.fresh('dict')
            st.heap[n] = HObj('dict', content=mk('npitem', c))
            return mk('ref', n)
        return c
    if name in ('fill',):
        ip.write_arr(oid, None, mk('full_like', dn(recv), dn(args[0])), st,
                     'inplace')
        return NONE
    if name in ('sort', 'partition', 'resize', 'byteswap', 'setflags'):
        if name == 'setflags':
            return NONE
        ip.write_arr(oid, None, mk('np.' + name, dn(recv)), st, 'inplace')
        return NONE
    if name in ('put', 'itemset'):
        ip.write_arr(oid, dn(args[0]), dn(args[1]), st)
        return NONE
    if name == '__setitem__':
        ip.setitem(recv, args[0], args[1], st)
        return NONE
    if name == '__getitem__':
        return ip.getitem(recv, args[0], st)
    if name in NPMETH:
        return np_call(ip, name, [recv] + args, kwargs, st)
    if name in ('__len__',):
        return ip.length(recv, st)
    if name in ('keys', 'values', 'items', 'get'):
        return unknown_method(ip, dn(recv), name, args, kwargs, st)
    if name in ('append', 'extend', 'pop', 'remove', 'clear', 'index'):
        ip.raise_(st, ['AttributeError'], 'ndarray has no ' + name)
        raise Dead()
    ip.event(st, 'extmeth', (recv, name, tuple(args), dict(kwargs)))
    return ip.new_arr(mk('np.m.' + name, dn(recv), *[dn(a) for a in args]),
                      st)


def flat(c):
    if c.op == 'np.flatten':
        return c
    if c.op in ('list', 'np.arange', 'np.linspace') and not any(
            x.op in ('list', 'tuple') for x in c.args):
        return c
    return mk('np.flatten', c)


def sorted_term(ip, v, d, kwargs, st):
    """sortby(sequence, keys, reversed): the order the keys put it in"""
    kws = [mk('kw', k, ip.den(x, st)) for k, x in sorted(kwargs.items())]
    rev = kwargs.get('reverse', FALSE)
    if kwargs.get('key', NONE) is not NONE and not set(kwargs) - {
            'key', 'reverse'} and rev in (TRUE, FALSE):
        keys = map_filter(ip, 'map', [kwargs['key'], v], st)
        return mk('sortby', d, ip.den(keys, st), rev)
    return mk('sorted', d, *kws)


def sort_objects(ip, els, kwargs, st):
    """Stable insertion sort of a few objects which define an order: which
    object ends where is a choice among them."""
    rev = kwargs.get('reverse', FALSE)
    if not 1 < len(els) <= 5 or set(kwargs) - {'reverse', 'key'} or \
            rev not in (TRUE, FALSE):
        return None
    key = kwargs.get('key', NONE)
    if key is not NONE:
        return sort_keys(ip, els, key, rev, st)
    for x in els:
        o = ip.obj(x.args[0], st) if x.op == 'ref' else None
        if o is None or o.kind != 'inst' or o.cls is None or \
                not o.cls.find('__lt__'):
            return None
    less = {}
    for i, x in enumerate(els):
        for y in els:
            if x is not y:
                a, b = (y, x) if rev is TRUE else (x, y)
                less[x, y] = ip.den(ip.compare('Lt', a, b, st)[0], st)

    return insertion(els, less)


def sort_keys(ip, els, key, rev, st):
    if any(x.op == 'gamma' for x in els) or len(set(els)) < len(els):
        return None
    keys = {x: ip.den(ip.call(key, [x], {}, st), st) for x in els}
    less = {}
    for x in els:
        for y in els:
            if x is not y:
                a, b = (y, x) if rev is TRUE else (x, y)
                less[x, y] = ip.den(ip.compare('Lt', keys[a], keys[b],
                                               st)[0], st)
    return insertion(els, less)


def insertion(els, less):
    def before(x, y):
        if x.op == 'gamma':
            return gamma(x.args[0], before(x.args[1], y),
                         before(x.args[2], y))
        if y.op == 'gamma':
            return gamma(y.args[0], before(x, y.args[1]),
                         before(x, y.args[2]))
        return FALSE if x is y else less[x, y]
    els = list(els)
    for i in range(1, len(els)):
        for j in range(i, 0, -1):
            a, b = els[j - 1], els[j]
            c = before(b, a)
            els[j - 1], els[j] = gamma(c, b, a), gamma(c, a, b)
    return els


def list_method(ip, recv, o, name, args, kwargs, st):
    oid = recv.args[0]
    dn = lambda v: ip.den(v, st)
    segs = o.segs
    exact = all(s[0] == 'one' for s in segs)

    def put(new, how, v=None):
        n = ip.obj(oid, st).clone()
        n.segs = tuple(new)
        st.heap[oid] = n
        ip.event(st, 'write', (oid, how, v))
    if name in ('append', 'add'):
        ip.list_append(recv, args[0], st)
        return NONE
    if name in ('extend', 'update'):
        if args[0].op == 'gamma':
            v = ip.require(args[0], st, 'none-iter', '') if any(
                b is NONE for b in branches(args[0])) else args[0]
            ip.split(v, st, lambda x, s: (ip.list_extend(recv, x, s),
                                          NONE)[1])
            return NONE
        ip.list_extend(recv, args[0], st)
        return NONE
    if name == 'insert':
        i = dn(args[0])
        if is_int(i) and cval(i) == 0:
            put((('one', args[1]),) + segs, ('insert', i), args[1])
        elif is_int(i) and exact:
            l = list(segs)
            l.insert(cval(i), ('one', args[1]))
            put(l, ('insert', i), args[1])
        else:
            put((('ins', mk('segsof', oid, ip.segs_den(segs, st)), i,
                  args[1]),), ('insert', i), args[1])
        return NONE
    if name == 'pop':
        i = dn(args[0]) if args else const(-1)
        if is_int(i) and exact and -len(segs) <= cval(i) < len(segs):
            l = list(segs)
            x = l.pop(cval(i))
            put(l, ('del', i))
            return x[1]
        v = ip.getitem(recv, i, st)
        put((('del', mk('segsof', oid, ip.segs_den(segs, st)), i),),
            ('del', i))
        return v
    if name == 'remove':
        d = args[0]
        if exact and any(s[1] is d for s in segs):
            l = list(segs)
            l.remove(('one', d))
            put(l, ('del', dn(d)))
        else:
            put((('rem', mk('segsof', oid, ip.segs_den(segs, st)), dn(d)),),
                ('del', dn(d)))
        return NONE
    if name == 'clear':
        put((), ('clear', None))
        return NONE
    if name == 'copy':
        return shallow(ip, recv, st)
    if name == 'reverse':
        if exact:
            put(segs[::-1], ('reverse', None))
        else:
            put((('rev', mk('segsof', oid, ip.segs_den(segs, st))),),
                ('reverse', None))
        return NONE
    if name == 'sort':
        els = sort_objects(ip, [x[1] for x in segs], kwargs, st) if exact \
            else None
        if els is not None:
            put([('one', x) for x in els], ('sort', None))
        elif len(segs) > 1 or any(x[0] != 'one' for x in segs):
            t = sorted_term(ip, recv, mk('segsof', oid, ip.segs_den(
                segs, st)), kwargs, st)
            put((('sorted', t.args[0] if t.op == 'sorted' else t),),
                ('sort', None))
        else:
            ip.event(st, 'write', (oid, ('sort', None), None))
        return NONE
    if name in ('index', 'count'):
        return mk('list.' + name, dn(recv), dn(args[0]))
    if name == '__len__':
        return ip.length(recv, st)
    if name == '__getitem__':
        return ip.getitem(recv, args[0], st)
    if name in ('union', 'intersection', 'difference'):
        return ip.new_list_segs((('opaque', mk('set.' + name, dn(recv), *[
            dn(a) for a in args])),), st)
    if name == 'join':
        return mk('strm', 'join', dn(recv))
    ip.raise_(st, ['AttributeError'], 'list has no ' + name)
    raise Dead()


def dict_method(ip, recv, o, name, args, kwargs, st):
    oid = recv.args[0]
    dn = lambda v: ip.den(v, st)
    items = ip.dict_items(o.content)

    def put(c, how, v=None):
        n = ip.obj(oid, st).clone()
        n.content = c
        st.heap[oid] = n
        ip.event(st, 'write', (oid, how, v))
    if name == 'keys':
        return ip.new_list([k for k, _ in items], st) if items is not None \
            else mk('dkeys', o.content)
    if name == 'values':
        return ip.new_list([v for _, v in items], st) if items is not None \
            else mk('dvals', o.content)
    if name == 'items':
        if items is not None:
            return ip.new_list([mk('tuple', k, v) for k, v in items], st)
        return mk('zip', mk('dkeys', o.content), mk('dvals', o.content))
    if name in ('get', 'pop', 'setdefault'):
        k = dn(args[0])
        dfl = args[1] if len(args) > 1 else NONE
        found = None
        if items is not None:
            for kk, v in items:
                if kk is k:
                    found = v
            if found is None and all(is_const(kk) or kk.op == 'enum'
                                     for kk, _ in items):
                if is_const(k) or k.op == 'enum':
                    if name == 'pop' and len(args) < 2:
                        ip.raise_(st, ['KeyError'], 'pop')
                        raise Dead()
                    found = dfl
                elif name == 'get' and items:
                    r = dfl
                    for kk, v in items:
                        r = gamma(N.compare(ip, 'Eq', k, kk, st), v, r)
                    return r
        if name == 'pop':
            put(mk('ddel', o.content, k), ('del', k))
        if name == 'setdefault' and found is dfl:
            put(mk('dstore', o.content, k, dfl), ('store', k), dfl)
        if found is not None:
            return found
        c = mk('in', k, o.content)
        it = ip.dict_item(o.content, k, st)
        if name == 'pop' and len(args) < 2:
            return it
        return gamma(c, it, dfl)
    if name == 'update':
        c = o.content
        if args and args[0].op == 'ref':
            p = ip.obj(args[0].args[0], st)
            it = ip.dict_items(p.content) if p is not None and \
                p.kind == 'dict' else None
            if it is not None:
                for k, v in it:
                    c = mk('dstore', c, k, v)
            else:
                c = mk('update', c, dn(args[0]))
        elif args:
            c = mk('update', c, dn(args[0]))
        for k, v in kwargs.items():
            c = mk('dstore', c, const(k), v)
        put(c, ('store', None))
        return NONE
    if name == 'copy':
        return shallow(ip, recv, st)
    if name == 'clear':
        put(mk('emptydict'), ('clear', None))
        return NONE
    if name == 'item':
        return recv
    ip.raise_(st, ['AttributeError'], 'dict has no ' + name)
    raise Dead()


STR_ONLY = {'split', 'rsplit', 'splitlines', 'capitalize', 'title', 'upper',
            'lower', 'rjust', 'ljust', 'zfill', 'strip', 'lstrip', 'rstrip',
            'swapcase', 'casefold'}


def str_method(ip, recv, name, args, kwargs, st):
    dn = lambda v: ip.den(v, st)
    if name in ('exists', 'is_file', 'is_dir'):
        return exists(ip, dn(recv), st)
    if name in ('mkdir', 'unlink', 'rmdir'):
        return os_call(ip, 'os.' + ('remove' if name != 'mkdir' else
                                    'mkdir'), [recv], kwargs, st)
    if name == 'joinpath':
        return os_call(ip, 'os.path.join', [recv] + args, {}, st)
    if name in ('as_posix', '__str__', 'resolve', 'absolute'):
        return recv
    if name == 'join':
        args = [need(ip, x, st, name) for x in args]
        seq = ip.exact_seq(args[0], st)
        if seq is not None:
            out = []
            for i, x in enumerate(seq):
                if i:
                    out.append(recv)
                out.append(x if is_str(x) or x.op == 'str' else dn(x))
            return ip.concat(out)
        return mk('strm', 'join', dn(recv), dn(args[0]))
    if name == 'format':
        d = [ip.fmt(a, const(''), st) for a in args]
        kd = {k: ip.fmt(a, const(''), st) for k, a in kwargs.items()}
        if is_str(recv):
            import string
            out, n = [], 0
            try:
                for lit, fld, spec, conv in string.Formatter().parse(
                        cval(recv)):
                    out.append(const(lit))
                    if fld is None:
                        continue
                    if fld == '':
                        x, n = args[n], n + 1
                    elif fld.isdigit():
                        x = args[int(fld)]
                    elif fld in kwargs:
                        x = kwargs[fld]
                    else:
                        raise ValueError
                    out.append(ip.fmt(x, const(spec or ''), st))
                return ip.concat(out)
            except (ValueError, IndexError):
                pass
        return mk('strm', 'format', dn(recv), *d)
    if is_str(recv) and all(is_const(dn(a)) for a in args) and not kwargs:
        try:
            r = getattr(cval(recv), name)(*[cval(dn(a)) for a in args])
        except AttributeError:
            ip.raise_(st, ['AttributeError'], 'str has no ' + name)
            raise Dead()
        except (TypeError, ValueError):
            r = None
        if isinstance(r, (str, int, bool)):
            return const(r)
        if isinstance(r, list):
            return ip.new_list([const(x) for x in r], st)
    t = mk('strm', name, dn(recv), *[dn(a) for a in args] + [
        mk('kw', k, dn(v)) for k, v in sorted(kwargs.items())])
    if name in ('split', 'rsplit', 'splitlines'):
        return ip.new_list_segs((('opaque', t),), st)
    return t
