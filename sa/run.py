"""Drives the abstract interpreter over one public entry point."""
import os
import time
from .terms import *
from .state import *
from .interp_base import *
from .interp import Interp
from .repo import Repo, AnalysisError


class Run:
    """Result of interpreting one function from the unknown initial state."""

    def __init__(self, ip, st0, env, fn):
        self.ip, self.st0, self.env, self.fn = ip, st0, env, fn
        self.st = self.value = None
        self.raises = []
        self.failed = None

    @property
    def returns(self):
        return self.st is not None


def find_func(repo, name):
    """'Class.method', 'Class.prop.getter' or 'module:function'."""
    if ':' in name:
        mod, fn = name.split(':')
        m = repo.modules.get(mod)
        r = m and repo.lookup(m, fn)
        if not r or r[0] != 'func':
            raise AnalysisError('anchor vanished: ' + name)
        return r[1]
    cls, fn = name.split('.', 1)
    c = repo.classes.get(cls)
    if c is None:
        raise AnalysisError('anchor vanished: class ' + cls)
    f = c.find(fn) or c.find_getter(fn)
    if f is None:
        raise AnalysisError('anchor vanished: ' + name)
    return f


def default_self(ip, cls):
    oid = mk('root', cls.name)
    return ip.sym(dict(kind='inst', cls=cls), oid)


def run(repo, fn, env=None, self_val=None, setup=None, cls=None, **kw):
    """Interpret fn with symbolic receiver and parameters."""
    ip = Interp(repo, **kw)
    return run_in(ip, fn, env, self_val, setup, cls)


def param_env(ip, fn, env, self_val, cls=None, defaults=False):
    a = fn.node.args
    names = [x for x in a.posonlyargs + a.args]
    out = {}
    if fn.cls is not None and fn.kind in ('method', 'getter', 'setter') and \
            names:
        out[names[0].arg] = self_val if self_val is not None else \
            default_self(ip, cls or fn.cls)
        names = names[1:]
    elif fn.kind == 'classmethod' and names:
        out[names[0].arg] = mk('class', (cls or fn.cls).name)
        names = names[1:]
    pos = a.posonlyargs + a.args
    dfl = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        dfl[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dfl[p.arg] = d
    for p in names + a.kwonlyargs:
        if env and p.arg in env:
            out[p.arg] = env[p.arg]
            continue
        spec = ip.repo.ann_spec(p.annotation, fn.module)
        if spec is None and p.annotation is None:
            spec = ip.repo.passed_spec(fn, p.arg)
        opt = None
        d = dfl.get(p.arg)
        if d is not None and getattr(d, 'value', 0) is None:
            opt = True
        out[p.arg] = ip.sym(spec, mk('param', p.arg), opt=opt)
    if a.vararg:
        out[a.vararg.arg] = mk('tuple')
    if a.kwarg:
        out[a.kwarg.arg] = mk('param', a.kwarg.arg)
    return out


def run_in(ip, fn, env=None, self_val=None, setup=None, cls=None, st=None):
    st = st or State()
    e = param_env(ip, fn, env, self_val, cls)
    if setup:
        setup(ip, st, e)
    r = Run(ip, st.copy(), e, fn)
    ip.raises = []
    guarded(ip, r, lambda: ip.run_body(fn, fn.node, e, fn.module, None, st),
            st)
    r.raises = ip.raises
    return r


BUDGET = float(os.environ.get('VERIF_BUDGET', '90'))


def guarded(ip, r, go, st):
    """Run the interpreter; an internal failure leaves the entry point
    unresolved instead of stopping the whole check."""
    ip.deadline = time.time() + BUDGET
    try:
        r.value = go()
        r.st = st
    except Dead:
        pass
    except Limit:
        r.failed = 'time budget'
    except AnalysisError:
        raise
    except (Exception, RecursionError) as ex:
        if os.environ.get('VERIF_DEBUG'):
            raise
        r.failed = 'engine: %r' % ex
    if ip.lost and not r.failed:
        r.failed = 'write to an unresolved object, ' + ip.lost
    if r.failed:
        ip.notes.append((r.fn.module.name, r.fn.qual, r.failed))


def call_in(ip, fn, args, kwargs, st):
    """Call within an existing state; returns (value or None, raises)."""
    saved, ip.raises = ip.raises, []
    ip.deadline = time.time() + BUDGET
    try:
        v = ip.call_func(fn, args, kwargs, st)
    except Dead:
        v = None
    except Limit:
        v = None
        ip.notes.append((fn.module.name, fn.qual, 'time budget'))
    if ip.lost:
        ip.notes.append((fn.module.name, fn.qual, ip.lost))
    out = ip.raises
    ip.raises = saved
    return v, out
