"""Who-may-call effect analysis. Every function is interpreted abstractly and
every call that leaves the library (after resolving aliases, from-imports and
re-exports) is compared with the catalogue of calls that draw from or reseed a
global generator, write to standard output, or change the working directory,
environment, numpy, warning, logging or matplotlib settings; code that runs at
import is included. No value that depends on a clock or on randomness may be
stored in a field or a file. A logger must be obtained under a name of its own
and must not propagate."""
import ast
from ..common import *

RNG_OK = {'default_rng', 'Generator', 'RandomState', 'SeedSequence', 'PCG64',
          'Philox', 'MT19937', 'Random', 'SystemRandom'}
GLOBAL = {
    'os.chdir': 'working directory', 'os.fchdir': 'working directory',
    'os.putenv': 'environment', 'os.unsetenv': 'environment',
    'os.umask': 'process umask', 'os.nice': 'process priority',
    'numpy.seterr': 'numpy error settings',
    'numpy.seterrcall': 'numpy error settings',
    'numpy.setbufsize': 'numpy settings',
    'numpy.set_printoptions': 'numpy print settings',
    'numpy.set_string_function': 'numpy print settings',
    'warnings.simplefilter': 'warning filters',
    'warnings.filterwarnings': 'warning filters',
    'warnings.resetwarnings': 'warning filters',
    'matplotlib.use': 'matplotlib backend',
    'matplotlib.rc': 'matplotlib defaults',
    'matplotlib.rcdefaults': 'matplotlib defaults',
    'matplotlib.rc_file': 'matplotlib defaults',
    'matplotlib.style.use': 'matplotlib defaults',
    'matplotlib.pyplot.rc': 'matplotlib defaults',
    'matplotlib.pyplot.rcdefaults': 'matplotlib defaults',
    'matplotlib.pyplot.switch_backend': 'matplotlib backend',
    'matplotlib.pyplot.style.use': 'matplotlib defaults',
    'matplotlib.pyplot.set_cmap': 'matplotlib defaults',
    'matplotlib.pyplot.ion': 'matplotlib interactive mode',
    'matplotlib.pyplot.ioff': 'matplotlib interactive mode',
    'matplotlib.pyplot.viridis': 'matplotlib defaults',
    'locale.setlocale': 'locale', 'sys.setrecursionlimit': 'interpreter '
    'settings', 'signal.signal': 'signal handlers', 'gc.disable':
    'interpreter settings', 'gc.collect': None,
    'logging.basicConfig': 'root logger', 'logging.disable': 'root logger',
    'logging.captureWarnings': 'root logger',
    'logging.setLoggerClass': 'logging settings',
    'logging.addLevelName': 'logging settings',
    'logging.info': 'root logger', 'logging.debug': 'root logger',
    'logging.warning': 'root logger', 'logging.error': 'root logger',
    'logging.critical': 'root logger', 'logging.log': 'root logger',
    'time.tzset': 'time zone', 'builtins.input': 'standard input',
}
RESTORED = {'warning filters': 'catch_warnings',
            'numpy error settings': 'errstate',
            'numpy print settings': 'printoptions',
            'matplotlib defaults': 'rc_context'}
GLOBAL_OBJ = ('os.environ', 'matplotlib.rcParams',
              'matplotlib.pyplot.rcParams', 'sys.path', 'sys.stdout',
              'sys.modules', 'matplotlib.rcParamsDefault')
MUTATORS = {'update', 'pop', 'setdefault', 'clear', 'write', 'writelines',
            'append', 'insert', 'extend', 'remove', '__setitem__', 'popitem',
            'seed', 'setstate'}


def ext_name(t):
    """Dotted name of an external object."""
    if isinstance(t, T):
        if t.op == 'ext':
            return t.args[0]
        if t.op in ('attr', 'bmeth') and len(t.args) > 1:
            b = ext_name(t.args[0])
            return b and b + '.' + str(t.args[1])
    return None


def judge(dotted, withs=()):
    """What global state a call of this name touches, or None."""
    last = dotted.split('.')[-1]
    if dotted.startswith('random.') and last not in RNG_OK:
        return 'the global random generator'
    if dotted.startswith('numpy.random.') and last not in RNG_OK:
        return 'the global numpy random generator'
    g = GLOBAL.get(dotted)
    if g is None and dotted.startswith(('matplotlib.style.', )):
        g = GLOBAL.get('matplotlib.' + last)
    if g is not None:
        r = RESTORED.get(g)
        if r and any(str(w).split('.')[-1] == r for w in withs):
            return None
        return g
    for o in GLOBAL_OBJ:
        if dotted.startswith(o + '.') and last in MUTATORS:
            return o
    return None


def stdout_print(kw):
    f = kw.get('file')
    if f is None or f is NONE:
        return True
    n = ext_name(f)
    if n is None:
        return None
    return n == 'sys.stdout'


def check(ctx):
    repo = ctx.repo
    nfun = ncalls = 0
    for f in repo.funcs:
        r = run(repo, f)
        ctx.analysed(r)
        nfun += 1
        seen = set()
        loggers, closed, opened = {}, set(), set()
        for n in r.ip.nodes:
            where = n.func.qual if n.func else f.qual
            if n.kind == 'extcall':
                dotted, args, kw, withs = n.data
                ncalls += 1
                if dotted.startswith('tqdm.') and kw.get('file') is not \
                        None and ext_name(kw['file']) == 'sys.stdout':
                    ctx.bad('stdout', where, 'prints its progress to '
                            'standard output', n.line)
                if dotted in seen and dotted not in (
                        'builtins.print', 'logging.getLogger',
                        'tqdm.tqdm.write'):
                    continue
                seen.add(dotted)
                if dotted == 'builtins.print' or dotted.endswith(
                        'tqdm.write'):
                    p = stdout_print(kw)
                    if p is not False:
                        ctx.decide(None if p is None else False, 'stdout',
                                   where, 'prints to standard output',
                                   n.line)
                    continue
                if dotted == 'logging.StreamHandler':
                    s = args[0] if args else kw.get('stream')
                    if s is not None and ext_name(s) == 'sys.stdout':
                        ctx.bad('stdout', where, 'logs to standard output',
                                n.line)
                if dotted == 'logging.getLogger':
                    a = args[0] if args else kw.get('name')
                    if a is None or a is NONE or a is const(''):
                        ctx.bad('logger', where, 'uses the root logger',
                                n.line)
                        continue
                    d = deep_name(r.ip, a)
                    if d is False:
                        ctx.bad('logger', where, 'logger name %s is shared '
                                'by all objects' % show(a, 4), n.line)
                    else:
                        ctx.decide(d, 'logger', where,
                                   'logger name is unique')
                    loggers[mk('extcall', dotted, r.ip.den(
                        a, r.st or r.st0))] = (where, n.line)
                    continue
                g = judge(dotted, withs)
                if g:
                    ctx.bad('global-call', '%s: %s' % (where, dotted),
                            'touches %s' % g, n.line)
                else:
                    ctx.ok('global-call', '%s: %s' % (where, dotted))
            elif n.kind == 'extmeth':
                recv, name = n.data[0], n.data[1]
                e = ext_name(recv)
                if e:
                    g = judge(e + '.' + name)
                    if g:
                        ctx.bad('global-call', '%s: %s.%s' % (
                            where, e, name), 'touches %s' % g, n.line)
            elif n.kind == 'extset':
                b, name, v = n.data
                if name == 'propagate':
                    (closed if v is FALSE or (is_num(v) and not cval(v))
                     else opened).add(b)
                e = ext_name(b)
                if e and not e.startswith('repo.'):
                    ctx.bad('global-call', '%s: %s.%s =' % (where, e, name),
                            'changes an attribute of a module', n.line)
            elif n.kind == 'write':
                b, how, v = n.data
                e = ext_name(b) if isinstance(b, T) else None
                if e and e.startswith(GLOBAL_OBJ):
                    ctx.bad('global-call', '%s: %s' % (where, e),
                            'changes %s' % e, n.line)
                if isinstance(v, T) and how[0] in ('field', 'store',
                                                   'append'):
                    volatile(ctx, r, where, how, v, n)
            elif n.kind == 'fs_write':
                v = n.data[1]
                if isinstance(v, T):
                    volatile(ctx, r, where, ('file', show(n.data[0], 3)), v,
                             n)
        # a helper's logger is finished by the functions that call it
        helper = f.name.startswith('_') and not f.name.startswith('__') and \
            repo.call_sites(f)
        if r.st is not None and not helper:
            for t, (where, line) in loggers.items():
                if t in opened and t not in closed:
                    ctx.bad('propagate', where, 'the logger propagates to '
                            'the handlers of the caller', line)
                elif t in closed:
                    ctx.ok('propagate', where, 'propagation switched off')
                else:
                    ctx.bad('propagate', where, 'propagation of the logger '
                            'is never switched off', line)
    for m in repo.modules.values():
        nfun += 1
        for x in import_time(m.tree):
            if isinstance(x, ast.Call):
                e = repo.resolve_expr(x.func, m)
                if isinstance(x.func, ast.Name) and x.func.id == 'print' \
                        and e is None:
                    ctx.bad('stdout', m.name, 'prints when imported',
                            x.lineno)
                if e and e[0] == 'ext':
                    g = judge(e[1])
                    if g:
                        ctx.bad('global-call', '%s: %s' % (m.name, e[1]),
                                'touches %s when imported' % g, x.lineno)
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and \
                    isinstance(x.ctx, (ast.Store, ast.Del)):
                e = repo.resolve_expr(x.value, m)
                if e and e[0] == 'ext' and e[1].startswith(GLOBAL_OBJ):
                    ctx.bad('global-call', '%s: %s' % (m.name, e[1]),
                            'changes %s when imported' % e[1], x.lineno)
        ctx.ok('import', m.name, 'import-time statements scanned')
    ctx.anchor(ncalls >= 20, 'external calls (%d found)' % ncalls)


def import_time(tree):
    stack = list(tree.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack += x.decorator_list + x.args.defaults + [
                d for d in x.args.kw_defaults if d is not None]
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, ast.If) and 'TYPE_CHECKING' in ast.dump(x.test):
            continue
        if isinstance(x, ast.If) and '__main__' in ast.dump(x.test):
            continue
        yield x
        stack += list(ast.iter_child_nodes(x))


def deep_name(ip, a):
    """True: differs per object; False: constant; None: unknown."""
    if a.op == 'const':
        return False
    subs = subterms(a)
    if any(t.op == 'unique' for t in subs):
        return True
    if any(t.op in ('opaque', 'id', 'extcall', 'call', 'builtin') for t in
           subs):
        return None
    if any(t.op in ('root', 'new', 'param', 'ref', 'fld') for t in subs):
        return None
    return False


def volatile(ctx, r, where, how, v, n):
    if how[0] == 'field' and 'log' in str(how[1]):
        return
    try:
        v = r.ip.den(v, r.st) if r.st is not None else v
    except Exception:
        pass
    bad = [t for t in subterms(v) if t.op == 'unique' or (
        t.op == 'opaque' and t.args and t.args[0] == 'random')]
    loggers = [t for t in subterms(v) if t.op == 'extcall' and str(
        t.args[0]).startswith('logging.')]
    if bad and not loggers:
        ctx.bad('stored-randomness', '%s: %s' % (where, how[1]),
                'stores a value that depends on %s' % show(bad[0], 3),
                n.line)
