"""Systematic small changes of /repo: those that survive the existing tests are run against every check.

    mutate.py survivors OUT.json [--jobs N]       apply every mutation, run the tests, keep what survives
    mutate.py detect IN.json OUT.json [--jobs N] [--sample K] [--seed S]   run the checks on (a sample of) the survivors
    mutate.py show OUT.json                       the undetected ones
"""
import ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
MODULES = sorted(f for f in os.listdir(REPO) if f.endswith('.py') and not f.startswith('test'))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv}
CALL = {'nanmin': 'min', 'nanmax': 'max', 'nansum': 'sum', 'nanargmin': 'argmin', 'sin': 'cos', 'cos': 'sin', 'any': 'all', 'all': 'any', 'less': 'less_equal', 'less_equal': 'less',
        'greater': 'greater_equal', 'greater_equal': 'greater', 'zeros': 'ones', 'ones': 'zeros', 'minimum': 'maximum', 'maximum': 'minimum', 'flipud': 'fliplr', 'fliplr': 'flipud',
        'rad2deg': 'deg2rad', 'deg2rad': 'rad2deg', 'deepcopy': 'copy', 'nanmedian': 'nanmean', 'nanmean': 'nanmedian', 'amin': 'amax', 'amax': 'amin', 'zeros_like': 'ones_like',
        'ones_like': 'zeros_like', 'append': 'copy', 'hstack': 'concatenate'}
DROPCALL = {'abs', 'copy', 'flip', 'flipud', 'fliplr', 'sort', 'unique', 'deepcopy', 'array', 'float', 'int', 'sqrt', 'flatten'}
SWAP = {'x': 'y', 'y': 'x', 'dx': 'dy', 'dy': 'dx', 'x_index': 'y_index', 'y_index': 'x_index', 'fx': 'fy', 'fy': 'fx', 'min_x': 'max_x', 'max_x': 'min_x', 'min_y': 'max_y', 'max_y': 'min_y',
        'inner_radius': 'outer_radius', 'outer_radius': 'inner_radius', 'inclination': 'tilt', 'tilt': 'inclination', 'vmin': 'vmax', 'vmax': 'vmin', 'num_x': 'num_y', 'num_y': 'num_x',
        'inner_radii': 'outer_radii', 'outer_radii': 'inner_radii', 'data': 'mask', 'fx_map': 'fy_map', 'fy_map': 'fx_map', 'disk_radius': 'tilt', '_max_x': '_max_y', '_max_y': '_max_x'}


def strip(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) and len(n.body) > 1:
            n.body = n.body[1:]
    return tree


def sites(tree):
    """(description, function(tree copy node) -> None) in walk order"""
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None: skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns is not None: skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign): skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and 'logger' in ast.unparse(n.func): skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise): skip |= {id(x) for x in ast.walk(n)}
    for k, n in enumerate(ast.walk(tree)):
        if id(n) in skip: continue
        def add(what, fn): out.append((k, what, fn))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP: add('compare', lambda m, t=t: m.ops.__setitem__(0, CMP[t]()))
            if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                add('tolerance', lambda m: m.comparators.__setitem__(0, ast.BinOp(m.comparators[0], ast.Add(), ast.Constant(1e-9))))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, str):
            t = type(n.op)
            add('operator', lambda m, t=t: setattr(m, 'op', BIN[t]()))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div)):
            def f(m): m.left, m.right = m.right, m.left
            add('swap operands', f)
        if isinstance(n, ast.BoolOp):
            add('and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for j in range(len(n.values)):
                if len(n.values) > 1: add('drop condition %d' % j, lambda m, j=j: m.values.pop(j))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add('drop minus', lambda m: setattr(m, 'op', ast.UAdd()))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): add('constant', lambda m: setattr(m, 'value', not m.value))
            elif isinstance(v, int):
                add('constant+1', lambda m: setattr(m, 'value', m.value + 1))
                if v: add('constant-1', lambda m: setattr(m, 'value', m.value - 1))
            elif isinstance(v, float): add('constant', lambda m: setattr(m, 'value', m.value * 1.5 + (m.value == 0)))
        if isinstance(n, ast.If):
            add('if not', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            add('if True', lambda m: setattr(m, 'test', ast.Constant(True)))
            add('if False', lambda m: setattr(m, 'test', ast.Constant(False)))
        if isinstance(n, ast.Call):
            f = n.func
            last = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if last in CALL and isinstance(f, ast.Attribute): add('call', lambda m: setattr(m.func, 'attr', CALL[m.func.attr]))
            if last in DROPCALL and len(n.args) >= 1:
                add('drop call', lambda m: 'arg')
            if last in DROPCALL and not n.args and isinstance(f, ast.Attribute): add('drop method', lambda m: 'recv')
            for j in range(len(n.args) - 1):
                if not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.args[j:j + 2]):
                    def sw(m, j=j): m.args[j], m.args[j + 1] = m.args[j + 1], m.args[j]
                    add('swap arguments %d' % j, sw)
            for j in range(len(n.keywords)):
                add('drop keyword ' + str(n.keywords[j].arg), lambda m, j=j: m.keywords.pop(j))
        if isinstance(n, ast.Attribute) and n.attr in SWAP: add('attribute', lambda m: setattr(m, 'attr', SWAP[m.attr]))
        if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load): add('name', lambda m: setattr(m, 'id', SWAP[m.id]))
        if isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                add('open slice', lambda m: (setattr(m, 'lower', None), setattr(m, 'upper', None)))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Delete, ast.Continue, ast.Break)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and 'logger' not in ast.unparse(s) and 'print' not in ast.unparse(s)[:6]:
                        add('delete ' + type(s).__name__, lambda m, fld=fld, j=j: getattr(m, fld).__setitem__(j, ast.Pass()))
                    if isinstance(s, ast.Assign) and j + 1 < len(b) and isinstance(b[j + 1], (ast.Assign, ast.Expr)):
                        def sw(m, fld=fld, j=j):
                            l = getattr(m, fld); l[j], l[j + 1] = l[j + 1], l[j]
                        add('swap statements', sw)
    return out


def replace(tree, node, how):
    class T(ast.NodeTransformer):
        def generic_visit(self, n):
            if n is node: return n.args[0] if how == 'arg' else n.func.value
            return ast.NodeTransformer.generic_visit(self, n)
        visit = generic_visit
    return T().visit(tree)


def mutants():
    for f in MODULES:
        src = open(os.path.join(REPO, f)).read()
        base = strip(ast.parse(src))
        ref = ast.unparse(base)
        for i, (k, what, fn) in enumerate(sites(base)):
            t = strip(ast.parse(src))
            n = next(x for j, x in enumerate(ast.walk(t)) if j == k)
            line = getattr(n, 'lineno', 0)
            how = fn(n)
            if how in ('arg', 'recv'): t = replace(t, n, how)
            try: new = ast.unparse(ast.fix_missing_locations(t))
            except Exception: continue
            if new == ref: continue
            a, b = ref.split('\n'), new.split('\n')
            d = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), 0)
            yield dict(file=f, what=what, line=line, k=k, i=i, old=a[d].strip(), new=b[d].strip(), src=new)


def setup(m, d):
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', 'figures', 'data', '__pycache__', '.pytest_cache'))
    open(os.path.join(d, m['file']), 'w').write(m['src'] + '\n')


def tested(m):
    d = tempfile.mkdtemp(dir='/tmp/mu'); shutil.rmtree(d)
    try:
        setup(m, d)
        r = subprocess.run(['timeout', '60', '/opt/venv/bin/python3', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider'] + TESTS.get(m['file'], []),
                           cwd=d, env=dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
        return r.returncode == 0
    finally: shutil.rmtree(d, ignore_errors=True)


TESTS = {}
seen = {}


def detected(m):
    d = tempfile.mkdtemp(dir='/tmp/mu'); shutil.rmtree(d)
    out = dict(open=[], rc=[])
    try:
        setup(m, d)
        ps = sorted((re.sub(r'c(\d+)\.py', r'C\1', f) for f in os.listdir(VERIF + '/sa/props') if re.match(r'c\d+\.py$', f)), key=lambda p: (-seen.get((m['file'], p), 0), p in ('C10', 'C05', 'C19'), p))
        for p in ps:
            r = subprocess.run(['timeout', '600', 'python3', VERIF + '/check.py', p], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            if r.returncode == 1:
                seen[m['file'], p] = seen.get((m['file'], p), 0) + 1
                out['by'] = p
                out['how'] = r.stdout.strip().split('\n')[0][:200]
                return out
            if r.returncode: out['rc'].append((p, r.returncode))
            u = re.search(r'(\d+) unresolved', r.stdout)
            if u and int(u.group(1)): out['open'].append(p)
        return out
    finally: shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    opt = lambda k, v: next((a.split('=')[1] for a in sys.argv if a.startswith('--%s=' % k)), v)
    jobs = int(opt('jobs', 6))
    os.makedirs('/tmp/mu', exist_ok=True)
    if sys.argv[1] == 'survivors':
        ms = list(mutants())
        random.Random(int(opt('seed', 1))).shuffle(ms)
        ms = ms[:int(opt('sample', len(ms)))]
        print(len(ms), 'mutants', flush=True)
        with cf.ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(tested, ms))
        live = [m for m, r in zip(ms, rs) if r]
        json.dump(live, open(sys.argv[2], 'w'))
        print(len(live), 'survive')
    elif sys.argv[1] == 'detect':
        ms = json.load(open(sys.argv[2]))
        random.Random(int(opt('seed', 1))).shuffle(ms)
        ms = ms[:int(opt('sample', len(ms)))]
        res = []
        with cf.ThreadPoolExecutor(jobs) as ex:
            for m, r in zip(ms, ex.map(detected, ms)):
                res.append(dict({k: v for k, v in m.items() if k != 'src'}, **r))
                json.dump(res, open(sys.argv[3], 'w'))
        print(sum('by' in r for r in res), 'of', len(res), 'detected')
    else:
        for r in json.load(open(sys.argv[2])):
            if 'by' not in r: print('%s:%d %s\n   - %s\n   + %s   open=%s rc=%s' % (r['file'], r['line'], r['what'], r['old'][:110], r['new'][:110], ','.join(r['open']), r['rc']))
