"""Behaviour-preserving rewrites of the whole repository, to see that the checks stay quiet.

    refactor.py NAME OUTDIR     write the rewritten modules of /repo to OUTDIR
    refactor.py --list
Each rewrite is applied to every function where it is safe.  `tools/quiet.py`
runs the existing tests and the checks on each.
"""
import ast, copy, os, sys, builtins

REPO = os.environ.get('VERIF_REPO', '/repo')
TESTED = ' '.join(open(os.path.join(REPO, f)).read() for f in os.listdir(REPO) if f.startswith('test') and f.endswith('.py'))
MODULES = sorted(f for f in os.listdir(REPO) if f.endswith('.py') and not f.startswith('test'))


class Fresh:
    def __init__(self): self.n = 0
    def __call__(self, base='tmp'):
        self.n += 1
        return '%s_%d' % (base, self.n)


def name(n, ctx=None): return ast.Name(n, ctx or ast.Load())
def store(n): return ast.Name(n, ast.Store())
def assign(n, v): return ast.Assign([store(n)], v)


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


def blocks(node):
    """every statement list below a function"""
    for n in ast.walk(node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                yield n, f, b


def reads(nodes):
    out = set()
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)): out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): out.add(n.target.id)
    return out


def writes(nodes):
    out = set()
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n not in nodes: pass
    return out


def surely(stmts):
    """names surely bound after the statements complete normally"""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        elif isinstance(s, ast.If):
            def ends(b): return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            a, b = surely(s.body), surely(s.orelse) if s.orelse else set()
            if ends(s.body): out |= b
            elif s.orelse and ends(s.orelse): out |= a
            else: out |= a & b
        elif isinstance(s, ast.With):
            out |= surely(s.body)
            for i in s.items:
                if isinstance(i.optional_vars, ast.Name): out.add(i.optional_vars.id)
        elif isinstance(s, ast.Try):
            if all(isinstance(h.body[-1], (ast.Raise, ast.Return)) for h in s.handlers):
                out |= surely(s.body)
            else:
                a = surely(s.body)
                for h in s.handlers:
                    if not isinstance(h.body[-1], (ast.Raise, ast.Return)): a &= surely(h.body)
                out |= a
        elif isinstance(s, (ast.FunctionDef,)): out.add(s.name)
    return out


def has(nodes, kinds):
    return any(isinstance(n, kinds) for s in nodes for n in ast.walk(s))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def doc(fn):
    b = fn.body
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) else 0


def is_static(fn): return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
def is_class(fn): return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fn.decorator_list)


# ---------------------------------------------------------------- rewrites

def t_return_temp(tree):
    f = Fresh()
    class T(ast.NodeTransformer):
        def visit_Return(self, n):
            if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
            v = f('result')
            return [assign(v, n.value), ast.Return(name(v))]
    return T().visit(tree)


def t_flip_if(tree):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
                n.test, n.body, n.orelse = t, n.orelse, n.body
            return n
    return T().visit(tree)


def t_flip_cmp(tree):
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in sw:
                return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
            return n
    return T().visit(tree)


def t_args_temp(tree):
    """calls' arguments into temporaries, in order, for simple statements"""
    f = Fresh()
    class T(ast.NodeTransformer):
        def one(self, s, call):
            if not isinstance(call, ast.Call) or isinstance(call.func, ast.Name) and call.func.id in ('super',): return [s]
            pre = []
            if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords): return [s]
            # keep the receiver's evaluation first: only plain names / attribute chains
            c = call.func
            while isinstance(c, ast.Attribute): c = c.value
            if not isinstance(c, ast.Name): return [s]
            for i, a in enumerate(call.args):
                if isinstance(a, (ast.Constant, ast.Name)): continue
                v = f('arg'); pre.append(assign(v, a)); call.args[i] = name(v)
            for k in call.keywords:
                if isinstance(k.value, (ast.Constant, ast.Name)): continue
                v = f('arg'); pre.append(assign(v, k.value)); k.value = name(v)
            return pre + [s]
        def visit_Assign(self, s): return self.one(s, s.value)
        def visit_Expr(self, s): return self.one(s, s.value)
        def visit_Return(self, s): return self.one(s, s.value)
        def visit_ClassDef(self, n):
            if any(isinstance(b, ast.Name) and 'Enum' in b.id for b in n.bases): return n
            return self.generic_visit(n)
    return T().visit(tree)


def split(tree, tail=True, frac=0.5):
    """half of every function's statements into a helper beside it"""
    class T(ast.NodeTransformer):
        def __init__(self): self.cls = None
        def visit_ClassDef(self, n):
            old, self.cls = self.cls, n
            out = []
            for s in n.body:
                r = self.visit(s) if isinstance(s, ast.FunctionDef) else s
                out += r if isinstance(r, list) else [r]
            n.body = out
            self.cls = old
            return n
        def visit_FunctionDef(self, fn):
            if fn.decorator_list and any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in fn.decorator_list): deco = True
            if has(fn.body, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)): return fn
            if any(isinstance(n, ast.FunctionDef) for s in fn.body for n in ast.walk(s)): return fn
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for n in ast.walk(fn)): return fn
            d = doc(fn)
            b = fn.body[d:]
            if len(b) < 2: return fn
            k = max(1, min(len(b) - 1, int(len(b) * frac)))
            head, rest = b[:k], b[k:]
            known = set(params(fn)) | surely(head)
            known_maybe = set(params(fn)) | writes(head)
            need = [x for x in sorted(reads(rest)) if x in known_maybe and x != 'self']
            meth = self.cls is not None and not is_static(fn) and not is_class(fn)
            if self.cls is not None and is_class(fn): return fn
            args = fn.args.args
            selfname = args[0].arg if meth and args else None
            if meth and selfname is None: return fn
            need = [x for x in need if x != selfname]
            clean = fn.name.strip('_')
            if tail:
                if any(x not in known for x in need): return fn
                hn = '_%s_%s' % (clean, 'rest' if not any(isinstance(dd, ast.Attribute) and dd.attr == 'setter' for dd in fn.decorator_list) else 'set_rest')
                call = ast.Call(self.ref(hn, meth, selfname), [name(x) for x in need], [])
                helper = self.make(hn, meth, selfname, need, rest)
                fn.body = fn.body[:d] + head + [ast.Return(call)]
                return [fn, helper] if not fn.decorator_list or is_static(fn) else [helper, fn] if self.getter(fn) else [fn, helper]
            # head
            if has(head, (ast.Return,)): return fn
            outv = [x for x in sorted(reads(rest)) if x in writes(head)]
            if any(x not in surely(head) and not (x in params(fn)) for x in outv): return fn
            inn = [x for x in sorted(set(params(fn)) & (reads(head) | set(outv))) if x != selfname]
            hn = '_%s_%s' % (clean, 'first' if not any(isinstance(dd, ast.Attribute) and dd.attr == 'setter' for dd in fn.decorator_list) else 'set_first')
            call = ast.Call(self.ref(hn, meth, selfname), [name(x) for x in inn], [])
            if outv:
                v = ast.Tuple([name(x) for x in outv], ast.Load()) if len(outv) > 1 else name(outv[0])
                t = ast.Tuple([store(x) for x in outv], ast.Store()) if len(outv) > 1 else store(outv[0])
                hb = head + [ast.Return(v)]
                new = [ast.Assign([t], call)]
            else:
                hb, new = head, [ast.Expr(call)]
            helper = self.make(hn, meth, selfname, inn, hb)
            fn.body = fn.body[:d] + new + rest
            return [helper, fn] if self.getter(fn) else [fn, helper]
        def getter(self, fn): return False
        def ref(self, hn, meth, selfname):
            if meth: return ast.Attribute(name(selfname), hn, ast.Load())
            if self.cls is not None: return ast.Attribute(name(self.cls.name), hn, ast.Load())
            return name(hn)
        def make(self, hn, meth, selfname, need, body):
            a = [ast.arg(x) for x in ([selfname] if meth else []) + need]
            deco = [] if meth or self.cls is None else [name('staticmethod')]
            return ast.FunctionDef(hn, ast.arguments([], a, None, [], [], None, []), copy.deepcopy(body), deco)
    return T().visit(tree)


def t_tail(tree): return split(tree, True, .5)
def t_tail_late(tree): return split(tree, True, .8)
def t_tail_early(tree): return split(tree, True, .2)
def t_head(tree): return split(tree, False, .5)
def t_head_late(tree): return split(tree, False, .8)
def t_head_early(tree): return split(tree, False, .25)


def t_while(tree):
    f = Fresh()
    class T(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if n.orelse or has(n.body, (ast.Continue,)): return n
            it = n.iter
            if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) in (1, 2) and isinstance(n.target, ast.Name)): return n
            i, e = f('pos'), f('end')
            lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
            return [assign(i, lo), assign(e, it.args[-1]),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]),
                              [assign(n.target.id, name(i))] + n.body + [ast.AugAssign(store(i), ast.Add(), ast.Constant(1))], [])]
    return T().visit(tree)


def t_enumerate(tree):
    """`for k, x in enumerate(xs)` -> `for k in range(len(xs)): x = xs[k]`"""
    f = Fresh()
    class T(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 \
               and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
                v = f('seq')
                return [assign(v, it.args[0]),
                        ast.For(n.target.elts[0], ast.Call(name('range'), [ast.Call(name('len'), [name(v)], [])], []),
                                [ast.Assign([n.target.elts[1]], ast.Subscript(name(v), name(n.target.elts[0].id), ast.Load()))] + n.body, n.orelse)]
            return n
    return T().visit(tree)


def t_index_loop(tree):
    """`for x in xs` -> counted loop with an index (xs a name or attribute: a list here)"""
    f = Fresh()
    class T(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if isinstance(n.iter, (ast.Name, ast.Attribute)) and not n.orelse:
                k = f('k')
                v = f('seq')
                return [assign(v, n.iter), ast.For(store(k), ast.Call(name('range'), [ast.Call(name('len'), [name(v)], [])], []),
                        [ast.Assign([n.target], ast.Subscript(name(v), name(k), ast.Load()))] + n.body, [])]
            return n
    return T().visit(tree)


def t_enum_on(tree):
    """`for i in range(n)` -> `for _, i in enumerate(range(n))`"""
    class T(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            n.target = ast.Tuple([store('_unused'), n.target], ast.Store())
            n.iter = ast.Call(name('enumerate'), [n.iter], [])
            return n
    return T().visit(tree)


def t_list_loop(tree):
    """assigned list comprehensions -> append loops"""
    f = Fresh()
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                g = n.value.generators[0]
                v = f('acc')
                b = [ast.Expr(ast.Call(ast.Attribute(name(v), 'append', ast.Load()), [n.value.elt], []))]
                for c in reversed(g.ifs): b = [ast.If(c, b, [])]
                return [assign(v, ast.List([], ast.Load())), ast.For(g.target, g.iter, b, []), ast.Assign(n.targets, name(v))]
            return n
    return T().visit(tree)


def t_comp(tree):
    """`x = []` directly before `for ..: x.append(e)` -> comprehension"""
    class T(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            for fld in ('body', 'orelse'):
                b = getattr(n, fld, None)
                if not isinstance(b, list): continue
                i = 0
                while i + 1 < len(b):
                    a, l = b[i], b[i + 1]
                    if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts \
                       and isinstance(l, ast.For) and len(l.body) == 1 and isinstance(l.body[0], ast.Expr) and isinstance(l.body[0].value, ast.Call):
                        c = l.body[0].value
                        if isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and c.func.value.id == a.targets[0].id:
                            b[i:i + 2] = [ast.Assign(a.targets, ast.ListComp(c.args[0], [ast.comprehension(l.target, l.iter, [], 0)]))]
                    i += 1
            return n
    return T().visit(tree)


def t_nest_and(tree):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                b = n.body
                for t in reversed(n.test.values): b = [ast.If(t, b, [])]
                return b[0]
            return n
    return T().visit(tree)


def t_ifexp(tree):
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
                v = n.value
                return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
            return n
        def visit_Return(self, n):
            if isinstance(n.value, ast.IfExp):
                return [ast.If(n.value.test, [ast.Return(n.value.body)], []), ast.Return(n.value.orelse)]
            return n
        def visit_If(self, n):
            self.generic_visit(n)
            if len(n.body) == 1 == len(n.orelse) and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) \
               and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]) and isinstance(n.body[0].targets[0], (ast.Name, ast.Attribute)):
                return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
            return n
    return T().visit(tree)


def t_rename(tree):
    """every local variable of every function renamed"""
    for fn in list(functions(tree)):
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for n in ast.walk(fn)): continue
        loc = writes(fn.body) - set(params(fn))
        m = {x: x + '_v' for x in loc}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in m: n.id = m[n.id]
            if isinstance(n, ast.ExceptHandler) and n.name in m: n.name = m[n.name]
    return tree


def t_private(tree):
    """private methods renamed, everywhere"""
    class T(ast.NodeTransformer):
        def ok(self, n): return n.startswith('_') and not n.startswith('__') and n in T.names
        def visit_FunctionDef(self, n):
            self.generic_visit(n)
            if self.ok(n.name): n.name = n.name + '_impl'
            return n
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if self.ok(n.attr): n.attr = n.attr + '_impl'
            return n
        def visit_Name(self, n):
            if self.ok(n.id): n.id = n.id + '_impl'
            return n
    T.names = set()
    for f in MODULES:
        for fn in functions(ast.parse(open(os.path.join(REPO, f)).read())):
            if fn.name.startswith('_') and not fn.name.startswith('__') and not fn.decorator_list and fn.name not in TESTED: T.names.add(fn.name)
    return T().visit(tree)


def t_private_fields(tree):
    """private attributes (not methods) renamed, everywhere"""
    class T(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr.startswith('_') and not n.attr.startswith('__') and n.attr not in T.names: n.attr = n.attr + '_f'
            return n
    T.names = set()
    for f in MODULES:
        for fn in functions(ast.parse(open(os.path.join(REPO, f)).read())): T.names.add(fn.name)
    T.names |= {'_asdict', '_replace'}
    for f in MODULES:
        for n in ast.walk(ast.parse(open(os.path.join(REPO, f)).read())):
            if isinstance(n, ast.Attribute) and n.attr in TESTED: T.names.add(n.attr)
    return T().visit(tree)


def t_field_local(tree):
    """`self.x` read twice or more in a property-free read-only function -> a local bound once"""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        names = {f.name for f in c.body if isinstance(f, ast.FunctionDef)}
        for fn in [f for f in c.body if isinstance(f, ast.FunctionDef)]:
            if is_static(fn) or is_class(fn) or not fn.args.args: continue
            stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            calls = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == fn.args.args[0].arg]
            if stored or calls: continue
            s = fn.args.args[0].arg
            cnt = {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == s and n.attr.startswith('_') and n.attr not in names:
                    cnt.setdefault(n.attr, []).append(n)
            d = doc(fn)
            pre = []
            for a, ns in sorted(cnt.items()):
                if len(ns) < 2: continue
                class T(ast.NodeTransformer):
                    def visit_Attribute(self, n):
                        self.generic_visit(n)
                        return name('own' + a) if any(n is x for x in ns) else n
                    def visit_Lambda(self, n): return n
                fn.body = [T().visit(x) for x in fn.body]
                pre.append(assign('own' + a, ast.Attribute(name(s), a, ast.Load())))
            fn.body = fn.body[:d] + pre + fn.body[d:]
    return tree


def t_binop_temp(tree):
    """operands of arithmetic on the right of an assignment into temporaries"""
    f = Fresh()
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            if isinstance(n.value, ast.BinOp) and isinstance(n.targets[0], ast.Name):
                pre = []
                for side in ('left', 'right'):
                    e = getattr(n.value, side)
                    if isinstance(e, (ast.Name, ast.Constant)): continue
                    v = f('term'); pre.append(assign(v, e)); setattr(n.value, side, name(v))
                return pre + [n]
            return n
        def visit_ClassDef(self, n):
            if any(isinstance(b, ast.Name) and 'Enum' in b.id for b in n.bases): return n
            return self.generic_visit(n)
    return T().visit(tree)


def t_commute(tree):
    """a + b -> b + a and a * b -> b * a where neither side can be a string or a list"""
    def plain(e): return not has([ast.Expr(e)], (ast.Constant, ast.JoinedStr, ast.List, ast.Call, ast.Mod)) or all(not isinstance(x, (ast.JoinedStr, ast.List)) and not (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in ast.walk(e)) and not has([ast.Expr(e)], (ast.Call,))
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult) and plain(n.left) and plain(n.right): n.left, n.right = n.right, n.left
            return n
    return T().visit(tree)


def t_swap(tree):
    """adjacent independent assignments of call-free expressions to locals swapped"""
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has([s], (ast.Call, ast.Subscript, ast.BinOp))
    for n, f, b in list(blocks(tree)):
        if isinstance(n, ast.Module): continue
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if simple(x) and simple(y) and not (writes([x]) & (reads([y]) | writes([y]))) and not (writes([y]) & reads([x])):
                b[i], b[i + 1] = y, x
                i += 1
            i += 1
    return tree


def t_swap_fields(tree):
    """adjacent `self.a = name` / `self.b = name` swapped (private fields, no setters)"""
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr.startswith('_') \
            and isinstance(s.targets[0].value, ast.Name) and isinstance(s.value, (ast.Name, ast.Constant, ast.List))
    for n, f, b in list(blocks(tree)):
        i = 0
        while i + 1 < len(b):
            if simple(b[i]) and simple(b[i + 1]) and b[i].targets[0].attr != b[i + 1].targets[0].attr:
                b[i], b[i + 1] = b[i + 1], b[i]
                i += 1
            i += 1
    return tree


def t_else_return(tree):
    """`if c: ...return` followed by rest -> `else: rest`"""
    class T(ast.NodeTransformer):
        def visit_FunctionDef(self, fn):
            self.generic_visit(fn)
            fn.body = self.fix(fn.body)
            return fn
        def fix(self, b):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                    s.orelse = self.fix(b[i + 1:])
                    return b[:i + 1]
            return b
    return T().visit(tree)


def t_pass(tree):
    for fn in functions(tree):
        d = doc(fn)
        fn.body.insert(d, ast.parse('unused_marker = 0').body[0])
        fn.body.append(ast.Pass())
    return tree


def t_unpack(tree):
    """`a, b = e` -> `pair = e; a = pair[0]; b = pair[1]` where e is a call or name"""
    f = Fresh()
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in n.targets[0].elts) \
               and not isinstance(n.value, (ast.Tuple,)):
                v = f('parts')
                return [assign(v, n.value)] + [ast.Assign([x], ast.Subscript(name(v), ast.Constant(i), ast.Load())) for i, x in enumerate(n.targets[0].elts)]
            return n
    return T().visit(tree)


def t_tuple_assign(tree):
    """`a, b = x, y` -> two assignments when independent"""
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts) \
               and not (writes([n]) & reads([n])) and all(isinstance(x, ast.Name) for x in n.targets[0].elts):
                return [ast.Assign([t], v) for t, v in zip(n.targets[0].elts, n.value.elts)]
            return n
    return T().visit(tree)


def t_method_fn(tree):
    """np.f spelled as the method where both exist"""
    m = {'abs': 'absolute', 'sum': None}
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np':
                if n.func.attr == 'abs': n.func.attr = 'absolute'
                elif n.func.attr == 'absolute': n.func.attr = 'abs'
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'copy')): pass
            return n
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            return n
    return T().visit(tree)


def t_keyword(tree):
    """positional arguments of calls of the repository's own classes and functions by keyword"""
    sig = {}
    for f in MODULES:
        t = ast.parse(open(os.path.join(REPO, f)).read())
        for n in t.body:
            if isinstance(n, ast.FunctionDef): sig[n.name] = [a.arg for a in n.args.args]
            if isinstance(n, ast.ClassDef):
                for g in n.body:
                    if isinstance(g, ast.FunctionDef) and g.name == '__init__': sig[n.name] = [a.arg for a in g.args.args][1:]
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'validate': k = n.func.attr
            elif isinstance(n.func, ast.Name): k = n.func.id
            else: return n
            if k in sig and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(sig[k]):
                kept = n.args[:1]
                n.keywords = [ast.keyword(p, a) for p, a in zip(sig[k][1:], n.args[1:])] + n.keywords
                n.args = kept
            return n
    return T().visit(tree)


def t_early(tree):
    """a loop body that is one `if` -> continue guard; a function whose last statement is an `if` without else -> early return"""
    class T(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                i = n.body[0]
                n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
            return n
        def visit_FunctionDef(self, fn):
            self.generic_visit(fn)
            l = fn.body[-1]
            if isinstance(l, ast.If) and not l.orelse:
                fn.body = fn.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), l.test), [ast.Return(None)], [])] + l.body
            return fn
    return T().visit(tree)


def t_demorgan(tree):
    class T(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
        def visit_If(self, n):
            self.generic_visit(n); return n
    class U(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp): n.test = T().visit(n.test)
            return n
    return U().visit(tree)


def t_helper_expr(tree):
    """every multi-operand arithmetic assigned to a local computed in a module-level helper"""
    f = Fresh()
    new = []
    class T(ast.NodeTransformer):
        def __init__(self): self.loc = None
        def visit_FunctionDef(self, fn):
            old, self.loc = self.loc, set(params(fn)) | writes(fn.body)
            self.generic_visit(fn)
            self.loc = old
            return fn
        def visit_Assign(self, n):
            if self.loc is not None and isinstance(n.value, (ast.BinOp, ast.Compare)) and not has([n.value], (ast.ListComp, ast.Lambda, ast.GeneratorExp)):
                need = sorted(reads([ast.Expr(n.value)]) & self.loc)
                h = f('_helper')
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(n.value)], []))
                n.value = ast.Call(name(h), [name(x) for x in need], [])
            return n
    tree = T().visit(tree)
    tree.body += new
    return tree


def t_helper_if(tree):
    """conditions of `if`s computed by helpers"""
    f = Fresh()
    new = []
    class T(ast.NodeTransformer):
        def __init__(self): self.loc = None
        def visit_FunctionDef(self, fn):
            old, self.loc = self.loc, set(params(fn)) | writes(fn.body)
            self.generic_visit(fn)
            self.loc = old
            return fn
        def visit_If(self, n):
            self.generic_visit(n)
            if self.loc is not None and isinstance(n.test, (ast.BoolOp, ast.Compare)):
                need = sorted(reads([ast.Expr(n.test)]) & self.loc)
                h = f('_holds')
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(n.test)], []))
                n.test = ast.Call(name(h), [name(x) for x in need], [])
            return n
    tree = T().visit(tree)
    tree.body += new
    return tree


def t_loop_helper(tree):
    """bodies of loops that bind nothing read outside into helpers"""
    f = Fresh()
    class T(ast.NodeTransformer):
        def __init__(self): self.cls = None; self.fn = None; self.new = []
        def visit_ClassDef(self, n):
            old, self.cls = self.cls, n
            oldnew, self.new = self.new, []
            self.generic_visit(n)
            n.body += self.new
            self.new, self.cls = oldnew, old
            return n
        def visit_FunctionDef(self, fn):
            if self.cls is None or is_static(fn) or is_class(fn) or not fn.args.args: return fn
            old, self.fn = self.fn, fn
            self.generic_visit(fn)
            self.fn = old
            return fn
        def visit_For(self, n):
            self.generic_visit(n)
            if self.fn is None or self.cls is None: return n
            if has(n.body, (ast.Break, ast.Continue, ast.Return, ast.Yield)): return n
            w = writes(n.body)
            inside = {id(x) for s in n.body for x in ast.walk(s)}
            outside = {x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and id(x) not in inside}
            if w & (outside | set(params(self.fn))): return n
            loc = set(params(self.fn)) | writes(self.fn.body)
            s = self.fn.args.args[0].arg
            need = sorted((reads(n.body) & loc) - w - {s})
            h = f('_' + self.fn.name.strip('_') + '_step')
            self.new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in [s] + need], None, [], [], None, []), n.body, []))
            n.body = [ast.Expr(ast.Call(ast.Attribute(name(s), h, ast.Load()), [name(x) for x in need], []))]
            return n
    return T().visit(tree)


def hide(path):
    """calls of one function made through an expression an analysis cannot resolve"""
    def go(tree):
        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and ast.unparse(n.func) == path:
                    base, _, last = path.rpartition('.')
                    n.func = ast.parse(("getattr(%s, min({%r: 0}))" if base == 'self' else 'vars(%s)[%r]') % (base, last), mode='eval').body
                return n
        return T().visit(tree)
    return go


class Table(dict):
    def __missing__(self, k):
        if k.startswith('hide:'): return hide(k[5:])
        raise KeyError(k)


TR = Table((k[2:], v) for k, v in list(globals().items()) if k.startswith('t_'))


def apply(names, out):
    os.makedirs(out, exist_ok=True)
    n = 0
    for f in MODULES:
        src = open(os.path.join(REPO, f)).read()
        tree = ast.parse(src)
        before = ast.unparse(tree)
        for k in names.split('+'): tree = ast.parse(ast.unparse(ast.fix_missing_locations(TR[k](tree))))
        after = ast.unparse(tree)
        n += sum(1 for a in set(after.split('\n')) - set(before.split('\n')))
        open(os.path.join(out, f), 'w').write(after + '\n' if after != before else src)
    return n


if __name__ == '__main__':
    if sys.argv[1] == '--list': print(' '.join(TR))
    else: print(apply(sys.argv[1], sys.argv[2]), 'lines differ')
