"""Loads and resolves the program under analysis (source only, never run)."""
import ast
import os
import glob


REDUCERS = ('nanmin', 'nanmax', 'min', 'max', 'sum', 'mean', 'median',
            'nanmean', 'nanmedian', 'amin', 'amax', 'nansum', 'prod',
            'any', 'all', 'argmin', 'argmax', 'nanargmin', 'nanargmax')


class AnalysisError(Exception):
    """The analysis itself is broken (vanished anchor, unparsable source)."""


class Func:
    def __init__(self, node, module, cls=None, kind='function'):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<%s %s>' % (self.module.name, self.qual)


class Cls:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}         # class level assignments: name -> expr
        self.base_exprs = node.bases
        self.bases = []
        self.ext_bases = []
        self.is_enum = False
        self.fields = None

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]

    def find_getter(self, name):
        for c in self.mro():
            if name in c.getters:
                return c.getters[name]
            if name in c.methods:
                return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def is_sub(self, other):
        return other in self.mro()

    def ext_names(self):
        out = []
        for c in self.mro():
            out += c.ext_bases
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.names = {}     # name -> ('func',Func)|('class',Cls)|('ext',dotted)
        #                           |('mod',Module)|('expr',ast)


class Repo:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        files = sorted(glob.glob(os.path.join(root, '*.py')))
        for d in sorted(os.listdir(root)):
            p = os.path.join(root, d)
            if os.path.isdir(p) and not d.startswith('.') and \
                    d not in ('tests', 'test', 'data', 'figures'):
                files += sorted(glob.glob(os.path.join(p, '*.py')))
        for f in files:
            base = os.path.basename(f)
            if base.startswith('test_') or base in ('conftest.py', 'setup.py'):
                continue
            rel = os.path.relpath(f, root)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            try:
                tree = ast.parse(open(f).read(), f)
            except SyntaxError as e:
                raise AnalysisError('cannot parse %s: %s' % (f, e))
            self.modules[rel] = Module(rel, f, tree)
        if not self.modules:
            raise AnalysisError('no source under %s' % root)
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            self._link(m)
        self.classes = {}
        self.funcs = []
        self._sites, self._local_memo = None, {}
        for m in self.modules.values():
            for k, (kind, v) in m.names.items():
                if kind == 'class' and v.module is m:
                    self.classes[k] = v
                    for grp in (v.methods, v.getters, v.setters):
                        self.funcs += list(grp.values())
                elif kind == 'func' and v.module is m:
                    self.funcs.append(v)

    # -- collection
    def _collect(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.names[s.name] = ('func', Func(s, m))
                elif isinstance(s, ast.ClassDef):
                    m.names[s.name] = ('class', self._cls(s, m))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ('expr', s.value)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.names[s.target.id] = ('expr', s.value)
                elif isinstance(s, (ast.If, ast.Try)):
                    visit(s.body)
                    visit(s.orelse)
                    for h in getattr(s, 'handlers', []):
                        visit(h.body)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.names[a.asname] = ('import', a.name)
                        else:
                            top = a.name.split('.')[0]
                            m.names[top] = ('import', top)
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        m.names[a.asname or a.name] = (
                            'from', (s.module or '', a.name, s.level))
        visit(m.tree.body)

    def _cls(self, node, m):
        c = Cls(node, m)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                done = False
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        c.getters[s.name] = Func(s, m, c, 'getter')
                        done = True
                    elif isinstance(d, ast.Name) and d.id in (
                            'classmethod', 'staticmethod'):
                        kind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        c.setters[s.name] = Func(s, m, c, 'setter')
                        done = True
                    elif isinstance(d, ast.Attribute) and d.attr in (
                            'cached_property',):
                        c.getters[s.name] = Func(s, m, c, 'getter')
                        done = True
                if not done:
                    c.methods[s.name] = Func(s, m, c, kind)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name):
                c.attrs.setdefault(s.target.id, s.value)
        # name = property(get, set)
        for k, v in list(c.attrs.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    v.func.id == 'property':
                a = [x.id for x in v.args if isinstance(x, ast.Name)]
                for kw in v.keywords:
                    if isinstance(kw.value, ast.Name):
                        if kw.arg == 'fget':
                            a[:1] = [kw.value.id]
                        elif kw.arg == 'fset':
                            a[1:2] = [kw.value.id]
                if a and a[0] in c.methods:
                    c.getters[k] = c.methods[a[0]]
                if len(a) > 1 and a[1] in c.methods:
                    c.setters[k] = c.methods[a[1]]
        return c

    def _find_module(self, name):
        if name in self.modules:
            return self.modules[name]
        last = name.split('.')[-1]
        if last in self.modules:
            return self.modules[last]
        return None

    def _link(self, m):
        for k, (kind, v) in list(m.names.items()):
            if kind == 'import':
                mod = self._find_module(v)
                m.names[k] = ('mod', mod) if mod else ('ext', v)
            elif kind == 'from':
                mname, n, level = v
                mod = self._find_module(mname) if mname else None
                if mod is not None:
                    m.names[k] = ('fromrepo', (mod, n))
                elif not mname and self._find_module(n):
                    m.names[k] = ('mod', self._find_module(n))
                else:
                    m.names[k] = ('ext', (mname + '.' if mname else '') + n)
        for k, (kind, v) in list(m.names.items()):
            if kind == 'fromrepo':
                m.names[k] = self.lookup(*v)
        for k, (kind, v) in m.names.items():
            if kind == 'class' and v.module is m:
                for b in v.base_exprs:
                    r = self.resolve_expr(b, m)
                    if r and r[0] == 'class':
                        v.bases.append(r[1])
                    elif r and r[0] == 'ext':
                        v.ext_bases.append(r[1])
                    elif isinstance(b, ast.Name):
                        v.ext_bases.append(b.id)
                if any(x.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum',
                                            'Flag') for x in v.ext_bases):
                    v.is_enum = True

    def lookup(self, mod, n, seen=()):
        if (mod.name, n) in seen:
            return ('ext', mod.name + '.' + n)
        r = mod.names.get(n)
        if r is None:
            return ('ext', mod.name + '.' + n)
        if r[0] == 'fromrepo':
            return self.lookup(r[1][0], r[1][1], seen + ((mod.name, n),))
        if r[0] == 'from':
            mname, nn, _ = r[1]
            m2 = self._find_module(mname)
            if m2:
                return self.lookup(m2, nn, seen + ((mod.name, n),))
            return ('ext', mname + '.' + nn)
        if r[0] == 'import':
            m2 = self._find_module(r[1])
            return ('mod', m2) if m2 else ('ext', r[1])
        if r[0] == 'expr':
            return ('gexpr', (mod, r[1], n))
        return r

    def resolve_expr(self, e, m):
        """Resolve Name / dotted Attribute to a module-level entity."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            r = m.names.get(e.id)
            if r is None:
                return None
            if r[0] == 'fromrepo':
                return self.lookup(*r[1])
            if r[0] == 'expr':
                return ('gexpr', (m, r[1], e.id))
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, m)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.lookup(b[1], e.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    # -- annotations -> type spec
    # spec: dict(kind=..., cls=..., elem=..., opt=bool)
    def ann_spec(self, e, m):
        if e is None:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(e, ast.Constant) and e.value is None:
            return dict(kind='none')
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.ann_spec(e.left, m), self.ann_spec(e.right, m)
            return self._union([a, b])
        if isinstance(e, ast.Subscript):
            head = ast.unparse(e.value).split('.')[-1]
            sl = e.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if head == 'Optional':
                s = dict(self.ann_spec(elts[0], m) or {'kind': 'opaque'})
                s['opt'] = True
                return s
            if head == 'Union':
                return self._union([self.ann_spec(x, m) for x in elts])
            if head in ('list', 'List', 'Sequence', 'Iterable'):
                s = self.ann_spec(elts[0], m)
                return dict(kind='list', elem=s)
            if head in ('ndarray', 'NDArray'):
                s = self.ann_spec(elts[0], m)
                return dict(kind='array', elem=s if s and s['kind'] == 'inst'
                            else None)
            if head in ('dict', 'Dict'):
                return dict(kind='dict')
            if head in ('tuple', 'Tuple'):
                return dict(kind='tuple',
                            elems=[self.ann_spec(x, m) for x in elts])
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            n = ast.unparse(e)
            last = n.split('.')[-1]
            if last in ('float', 'int', 'complex', 'Number'):
                return dict(kind='scalar')
            if last == 'str':
                return dict(kind='str')
            if last == 'bool':
                return dict(kind='scalar', bool=True)
            if last == 'ndarray':
                return dict(kind='array', elem=None)
            if last in ('list', 'List'):
                return dict(kind='list', elem=None)
            if last in ('dict', 'Dict'):
                return dict(kind='dict')
            r = self.resolve_expr(e, m)
            if r and r[0] == 'class':
                return dict(kind='enum' if r[1].is_enum else 'inst',
                            cls=r[1])
        return None

    def _union(self, specs):
        opt = any(s and s['kind'] == 'none' for s in specs)
        rest = [s for s in specs if s and s['kind'] != 'none']
        kinds = {s['kind'] for s in rest}
        if len(rest) == 1 and len([s for s in specs if s is None]) == 0:
            r = dict(rest[0])
        else:
            r = dict(kind='opaque')
            if kinds == {'scalar'}:
                r = dict(kind='scalar')
        if opt:
            r['opt'] = True
        return r

    # -- field type inference
    def field_specs(self, cls):
        if cls.fields is not None:
            return cls.fields
        cls.fields = {}
        found = {}      # name -> list of specs
        for c in reversed(cls.mro()):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(
                        s.target, ast.Name):
                    sp = self.ann_spec(s.annotation, c.module)
                    if sp:
                        found.setdefault(s.target.id, []).append((sp, True))
            allf = list(c.methods.values()) + list(c.getters.values()) + \
                list(c.setters.values())
            for f in allf:
                self._scan_fields(f, cls, found)
        # objects built by classmethods: x = cls(...); x.f = ...
        out = {}
        for n, lst in found.items():
            ann = [s for s, a in lst if a and s['kind'] not in ('opaque',)]
            inf = [s for s, a in lst if not a]
            opt = any(s['kind'] == 'none' or s.get('opt') for s, a in lst)
            pos = [s for s in inf if s['kind'] not in ('none', 'opaque')]
            spec = None
            if ann:
                spec = dict(ann[-1])
            elif pos:
                ks = {(s['kind'], s.get('cls')) for s in pos}
                if len(ks) == 1:
                    spec = dict(pos[0])
                    for s in pos:
                        if s.get('elem'):
                            spec = dict(s)
                elif {k for k, _ in ks} == {'inst'}:
                    # common base class
                    for cand in pos[0]['cls'].mro():
                        if all(p['cls'].is_sub(cand) for p in pos):
                            spec = dict(kind='inst', cls=cand)
                            break
            if spec is None:
                spec = dict(kind='opaque')
            spec['opt'] = opt
            out[n] = spec
        cls.fields = out
        return out

    def call_sites(self, f):
        """(caller, call) pairs whose target is spelled like f."""
        if self._sites is None:
            self._sites = {}
            for g in self.funcs:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, (ast.Name, ast.Attribute)):
                        k = n.func.id if isinstance(n.func, ast.Name) else \
                            n.func.attr
                        self._sites.setdefault(k, []).append((g, n))
        out = []
        for g, n in self._sites.get(f.name, ()):
            if f.cls is None:
                r = self.resolve_expr(n.func, g.module)
                if r and r[0] == 'func' and r[1] is f:
                    out.append((g, n))
            elif isinstance(n.func, ast.Attribute):
                b = n.func.value
                a = g.node.args.posonlyargs + g.node.args.args
                if isinstance(b, ast.Name) and g.cls is not None and a and \
                        b.id == a[0].arg and g.kind != 'staticmethod':
                    c = g.cls
                else:
                    c = self.resolve_expr(b, g.module)
                    c = c[1] if c and c[0] == 'class' else None
                if c is None or f.cls in c.mro() or c in f.cls.mro():
                    out.append((g, n))
        return out

    def passed_spec(self, f, name):
        """What the call sites pass for a parameter that is not annotated."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and f.kind != 'staticmethod':
            names = names[1:]
        if f.name.startswith('__'):
            return None
        specs = []
        for g, n in self.call_sites(f):
            if any(isinstance(x, ast.Starred) for x in n.args) or any(
                    k.arg is None for k in n.keywords):
                return None
            e = next((k.value for k in n.keywords if k.arg == name), None)
            if e is None and name in names and names.index(name) < len(
                    n.args):
                e = n.args[names.index(name)]
            if e is None:
                return None
            params, local, _, _ = self._locals(g, g.cls)
            sp = self.expr_spec(e, g, params, local, g.cls)
            if sp is None:
                return None
            specs.append(sp)
        return self._union(specs) if len(specs) == 1 else self._same(specs)

    def _same(self, specs):
        rest = [s for s in specs if s['kind'] != 'none']
        if not rest or len({(s['kind'], s.get('cls')) for s in rest}) != 1:
            return None
        r = dict(rest[0])
        r['opt'] = len(rest) < len(specs) or any(s.get('opt') for s in rest)
        return r

    def _locals(self, f, cls):
        k = (f, cls)
        if k not in self._local_memo:
            self._local_memo[k] = ({}, {}, set(), None)     # recursion
            self._local_memo[k] = self._locals0(f, cls)
        return self._local_memo[k]

    def _locals0(self, f, cls):
        args = f.node.args
        params = {}
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            sp = self.ann_spec(a.annotation, f.module)
            if sp is None and a.annotation is None and a.arg != 'self':
                sp = self.passed_spec(f, a.arg)
            if sp:
                params[a.arg] = sp
        names = args.posonlyargs + args.args
        selfn = names[0].arg if names and f.kind != 'staticmethod' else None
        local_cls = set()
        local = {}
        pos = args.posonlyargs + args.args
        for a, d in list(zip(pos[len(pos) - len(args.defaults):],
                             args.defaults)) + \
                list(zip(args.kwonlyargs, args.kw_defaults)):
            if isinstance(d, ast.Constant) and d.value is None and \
                    a.arg in params:
                params[a.arg] = dict(params[a.arg], opt=True)
        top = set(map(id, f.node.body))
        maybe = {n: True for n, sp in params.items() if sp.get('opt')}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                name = n.targets[0].id
                sp = self.expr_spec(n.value, f, params, local, cls)
                if sp is None:
                    continue
                if sp['kind'] == 'none':
                    maybe[name] = True
                    continue
                if id(n) in top:
                    maybe[name] = bool(sp.get('opt'))
                elif sp.get('opt'):
                    maybe[name] = True
                old = local.get(name)
                if old is None or old['kind'] == sp['kind'] or \
                        old['kind'] == 'opaque' or sp['kind'] == 'scalar':
                    local[name] = sp
                if sp['kind'] == 'inst' and sp['cls'] is cls:
                    local_cls.add(name)
            elif isinstance(n, ast.AnnAssign) and isinstance(
                    n.target, ast.Name):
                sp = self.ann_spec(n.annotation, f.module)
                if sp:
                    local[n.target.id] = sp
        for n, m in maybe.items():
            if n in local:
                local[n] = dict(local[n], opt=m)
            elif n not in params and m:
                local[n] = dict(kind='none')
        return params, local, local_cls, selfn

    def _scan_fields(self, f, cls, found):
        params, local, local_cls, selfn = self._locals(f, cls)
        selfs = ({selfn} if f.kind != 'classmethod' else set()) | local_cls

        def is_self(e):
            return isinstance(e, ast.Attribute) and isinstance(
                e.value, ast.Name) and e.value.id in selfs
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and is_self(n.target):
                sp = self.ann_spec(n.annotation, f.module)
                if sp:
                    found.setdefault(n.target.attr, []).append((sp, True))
                if n.value is not None:
                    sp = self.expr_spec(n.value, f, params, local, cls) or \
                        dict(kind='opaque')
                    found.setdefault(n.target.attr, []).append((sp, False))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if is_self(t):
                        sp = self.expr_spec(n.value, f, params, local, cls) \
                            or dict(kind='opaque')
                        found.setdefault(t.attr, []).append((sp, False))
                    elif isinstance(t, ast.Tuple):
                        sps = None
                        r = self.expr_spec(n.value, f, params, local, cls)
                        if r and r['kind'] == 'tuple':
                            sps = r.get('elems')
                        for i, x in enumerate(t.elts):
                            if is_self(x):
                                sp = None
                                if sps and i < len(sps):
                                    sp = sps[i]
                                if isinstance(n.value, ast.Tuple) and i < len(
                                        n.value.elts):
                                    sp = self.expr_spec(
                                        n.value.elts[i], f, params, local,
                                        cls)
                                found.setdefault(x.attr, []).append(
                                    (sp or dict(kind='opaque'), False))

    def expr_spec(self, e, f, params, local, cls, depth=0):
        if depth > 6:
            return None
        rec = lambda x: self.expr_spec(x, f, params, local, cls, depth + 1)
        if isinstance(e, ast.Constant):
            if e.value is None:
                return dict(kind='none')
            if isinstance(e.value, str):
                return dict(kind='str')
            if isinstance(e.value, bool):
                return dict(kind='scalar', bool=True)
            return dict(kind='scalar')
        if isinstance(e, ast.JoinedStr):
            return dict(kind='str')
        if isinstance(e, (ast.List, ast.ListComp)):
            return dict(kind='list', elem=rec(e.elt) if isinstance(
                e, ast.ListComp) else (rec(e.elts[0]) if e.elts else None))
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return dict(kind='dict')
        if isinstance(e, ast.Tuple):
            return dict(kind='tuple', elems=[rec(x) for x in e.elts])
        if isinstance(e, ast.Compare):
            return dict(kind='scalar', bool=True)
        if isinstance(e, ast.Name):
            if e.id in local:
                return local[e.id]
            return params.get(e.id)
        if isinstance(e, ast.IfExp):
            a, b = rec(e.body), rec(e.orelse)
            if a and b and a['kind'] == b['kind']:
                return a
            if a and b and 'none' in (a['kind'], b['kind']):
                r = dict(b if a['kind'] == 'none' else a)
                r['opt'] = True
                return r
            return None
        if isinstance(e, ast.Call):
            fn = e.func
            r = self.resolve_expr(fn, f.module)
            if r:
                if r[0] == 'class':
                    return dict(kind='inst', cls=r[1])
                if r[0] == 'func':
                    if r[1].module.name == 'validate' and e.args:
                        if r[1].name == 'array':
                            return dict(kind='array', elem=None)
                        if r[1].name == 'number':
                            return dict(kind='scalar')
                        if r[1].name == 'boolean':
                            return dict(kind='scalar', bool=True)
                        if r[1].name == 'string':
                            return dict(kind='str')
                        if r[1].name == 'class_object' and len(e.args) > 2:
                            c = self.resolve_expr(e.args[2], f.module)
                            if c and c[0] == 'class':
                                return dict(kind='enum' if c[1].is_enum else
                                            'inst', cls=c[1])
                            return rec(e.args[0])
                    return self.ann_spec(r[1].node.returns, r[1].module)
                if r[0] == 'ext':
                    if r[1].startswith('numpy.'):
                        last = r[1].split('.')[-1]
                        if last in ('float64', 'int64', 'float32'):
                            return dict(kind='scalar')
                        el = None
                        if last in ('array', 'append', 'insert') and any(
                                kw.arg == 'dtype' for kw in e.keywords):
                            for kw in e.keywords:
                                if kw.arg == 'dtype':
                                    c = self.resolve_expr(kw.value, f.module)
                                    if c and c[0] == 'class':
                                        el = dict(kind='inst', cls=c[1])
                        if last in ('abs', 'absolute', 'sqrt', 'square',
                                    'negative', 'sin', 'cos') and e.args:
                            return rec(e.args[0])
                        if last in REDUCERS and len(e.args) == 1 and \
                                not e.keywords:
                            return dict(kind='scalar')
                        return dict(kind='array', elem=el)
                    if r[1] in ('copy.copy', 'copy.deepcopy') and e.args:
                        return rec(e.args[0])
                    return None
            if isinstance(fn, ast.Name):
                if fn.id == 'cls' and cls is not None:
                    return dict(kind='inst', cls=cls)
                if fn.id in ('int', 'float', 'len', 'abs', 'bool'):
                    return dict(kind='scalar')
                if fn.id == 'str':
                    return dict(kind='str')
                if fn.id == 'list':
                    return dict(kind='list', elem=None)
                if fn.id == 'dict':
                    return dict(kind='dict')
            if isinstance(fn, ast.Attribute):
                if isinstance(fn.value, ast.Name) and fn.value.id in (
                        'self', 'cls') and cls is not None:
                    m = cls.find(fn.attr)
                    if m:
                        return self.ann_spec(m.node.returns, m.module)
                base = rec(fn.value)
                if base and base['kind'] == 'inst':
                    m = base['cls'].find(fn.attr)
                    if m:
                        return self.ann_spec(m.node.returns, m.module)
                r2 = self.resolve_expr(fn.value, f.module)
                if r2 and r2[0] == 'class':
                    m = r2[1].find(fn.attr)
                    if m:
                        return self.ann_spec(m.node.returns, m.module)
                if fn.attr in ('flatten', 'astype', 'copy') and base and \
                        base['kind'] == 'array':
                    return base
            return None
        if isinstance(e, ast.Attribute):
            b = rec(e.value)
            if b and b['kind'] == 'inst' and b['cls'] is not cls:
                return self.field_specs(b['cls']).get(e.attr)
            return None
        if isinstance(e, ast.BinOp):
            for x in (rec(e.left), rec(e.right)):
                if x and x['kind'] == 'array':
                    return dict(kind='array', elem=None)
            return None
        if isinstance(e, ast.Subscript):
            b = rec(e.value)
            if b and b['kind'] == 'array':
                ix = e.slice.elts if isinstance(e.slice, ast.Tuple) else \
                    [e.slice]
                if any(isinstance(i, ast.Slice) for i in ix):
                    return dict(kind='array', elem=b.get('elem'))
            if b and b['kind'] == 'tuple' and b.get('elems'):
                ks = b['elems']
                if all(k and k['kind'] == ks[0]['kind'] for k in ks) and \
                        ks[0]:
                    return ks[0]
            return None
        return None
