"""Expression semantics (mixin of Interp)."""
import ast
from .terms import *
from .state import *
from .interp_base import *
from . import npmodel
from .repo import Func, Cls, Module

EXTCONST = {
    'numpy.nan': NAN, 'numpy.NaN': NAN, 'numpy.NAN': NAN, 'math.nan': NAN,
    'numpy.pi': PI, 'math.pi': PI,
    'numpy.inf': const(float('inf')), 'numpy.Inf': const(float('inf')),
    'math.inf': const(float('inf')), 'numpy.newaxis': NONE,
    'os.pardir': const('..'), 'os.curdir': const('.'),
    'os.sep': const('/'), 'os.path.sep': const('/'),
    'os.path.pardir': const('..'), 'os.path.curdir': const('.'),
    'logging.DEBUG': const(10), 'logging.INFO': const(20),
    'logging.WARNING': const(30), 'logging.ERROR': const(40),
    'logging.CRITICAL': const(50),
}
BUILTINS = set(dir(__import__('builtins')))


def made(r):
    """Allocated by the analysed code."""
    return not isinstance(r.args[0], T) or r.args[0].op == 'new'


def member(r):
    """An element of a sequence that was there before."""
    return any(x.op in ('item', 'elem') for x in subterms(r.args[0]))


class Exprs:
    def cur_module(self):
        return self.frames[-1].module

    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if hasattr(e, 'lineno'):
            self.line = e.lineno
        if m is None:
            self.note('unsupported expression ' + type(e).__name__)
            return self.opaque('expr')
        return m(e, st)

    def opaque(self, tag, *args):
        self.foldids += 1
        return mk('opaque', tag, self.foldids, *args)

    def hazard(self, st, kind, v, what=''):
        """An operation on None (or on an absent object)."""
        if not self.discover:
            self.hazards.append((kind, v, what, self.cur_func(), self.line,
                                 tuple(f.func.qual for f in self.frames
                                       if f.func), st.pc))
        self.raise_(st, ['AttributeError' if kind == 'none-attr' else
                         'TypeError'], kind)

    def require(self, v, st, kind, what=''):
        """v must not be None here; returns the non-None part."""
        v = simp(v, st)
        n = none_ness(v, st)
        if n is False:
            return v
        if n is True:
            self.hazard(st, kind, v, what)
            raise Dead()
        if v.op == 'gamma':
            c, a, b = v.args
            na, nb = none_ness(a, st), none_ness(b, st)
            if na is True or nb is True:
                r = st.copy()
                pol = na is True
                if r.assume(c, pol):
                    r.pc = r.pc + ((c, pol),)
                    self.hazard(r, kind, v, what)
                if not st.assume(c, not pol):
                    raise Dead()
                st.pc = st.pc + ((c, not pol),)
                return self.require(b if na is True else a, st, kind, what)
            if (na is None or nb is None) and any(
                    x is NONE for x in branches(v)):
                n = isnone_term(v, st)
                if n is FALSE:
                    return v
                r = st.copy()
                if r.assume(n, True):
                    r.pc = r.pc + ((n, True),)
                    self.hazard(r, kind, v, what)
                if not st.assume(n, False):
                    raise Dead()
                st.pc = st.pc + ((n, False),)
                return without_none(simp(v, st), st)
        return v

    def absent_index(self, i, st, e=None):
        """An array indexed by None: no error, but every element is meant.
        Only np.newaxis and a literal None say so on purpose."""
        if isinstance(e, ast.Constant) or isinstance(e, ast.Attribute) and \
                e.attr == 'newaxis':
            return
        if i is NONE and e is not None:
            self.absent('none-index', i, st)
        elif i.op == 'gamma' and any(x is NONE for x in branches(i)):
            r = st.copy()
            if r.assume(isnone_term(i, st), True):
                self.absent('none-index', i, r)

    def absent(self, kind, v, st):
        if not self.discover:
            self.hazards.append((kind, v, '', self.cur_func(), self.line,
                                 tuple(f.func.qual for f in self.frames
                                       if f.func), st.pc))

    def split(self, v, st, fn):
        """Apply fn(part, state) to every gamma branch of v."""
        v = simp(v, st)
        if v.op != 'gamma':
            return fn(v, st)
        c, a, b = v.args
        sa, sb = st.copy(), st.copy()
        if not sa.assume(c, True):
            return self.split(b, st, fn)
        if not sb.assume(c, False):
            return self.split(a, st, fn)
        base = st.pc
        sa.pc = base + ((c, True),)
        sb.pc = base + ((c, False),)
        ra = rb = None
        try:
            ra = self.split(a, sa, fn)
        except Dead:
            pass
        try:
            rb = self.split(b, sb, fn)
        except Dead:
            pass
        if ra is None and rb is None:
            raise Dead()
        if rb is None:
            st.become(sa)
            return ra
        if ra is None:
            st.become(sb)
            return rb
        m = self.merge(c, sa, sb)
        m.pc = base
        st.become(m)
        return gamma(c, ra, rb)

    # ----------------------------------------------------------------- names
    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return mk('ellipsis')
        if isinstance(e.value, (int, float, str, bool, type(None), bytes)):
            return const(e.value)
        return mk('const', type(e.value).__name__, repr(e.value))

    def e_Name(self, e, st):
        return self.load_name(e.id, st)

    def load_name(self, n, st):
        v = st.vars.get(n)
        if v is not None:
            return v
        fr = self.frames[-1]
        fid = fr.closure
        seen = 0
        while fid is not None and seen < 20:
            seen += 1
            hit = None
            for f, vs in reversed(st.frames):
                if f == fid:
                    hit = vs
                    break
            snap, parent = self.closure_env.get(fid, (None, None))
            env = hit if hit is not None else snap
            if env is not None and n in env:
                return env[n]
            fid = parent
        return self.module_name(n, fr.module, st)

    def module_name(self, n, module, st):
        r = module.names.get(n)
        if r is None:
            if n in BUILTINS:
                return mk('ext', 'builtins.' + n)
            return self.opaque('name', const(n))
        if r[0] == 'expr':
            r = ('gexpr', (module, r[1], n))
        return self.entity(r, st)

    def entity(self, r, st):
        k, v = r
        if k == 'func':
            return self.func_value(v)
        if k == 'class':
            return mk('class', v.name)
        if k == 'mod':
            return mk('module', v.name)
        if k == 'ext':
            return EXTCONST.get(v) or mk('ext', v)
        if k == 'gexpr':
            mod, ex, name = v
            key = (mod.name, name)
            if key in self.globals_cache:
                return self.globals_cache[key]
            self.globals_cache[key] = mk('global', mod.name, name)
            fr = Frame(0, None, mod)
            self.frames.append(fr)
            s2 = State()
            saved = self.raises
            self.raises = []
            line = self.line
            try:
                val = self.eval(ex, s2)
            except Dead:
                val = mk('global', mod.name, name)
            finally:
                self.frames.pop()
                self.raises = saved
                self.line = line
            if val.op == 'ref':
                # module level containers: exact contents in every state
                self.global_objs.update(s2.heap)
            self.globals_cache[key] = val
            return val
        return self.opaque('entity')

    def func_value(self, f):
        key = f.module.name + ':' + f.qual + ':' + f.kind
        self.funcs[key] = f
        return mk('func', key)

    # ------------------------------------------------------------- operators
    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        a, b = simp(a, st), simp(b, st)
        # sequences
        if op == 'Add':
            sa, sb = self.list_segs(a, st), self.list_segs(b, st)
            if sa is not None and sb is not None:
                return self.new_list_segs(sa + sb, st)
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
            if a.op in ('str',) or is_str(a) or b.op == 'str' or is_str(b):
                return self.concat([
                    self.require(x, st, 'none-op', op) if any(
                        y is NONE for y in branches(x)) else x
                    for x in (a, b)])
            if a.op == 'tuple' and b.op != 'gamma':
                return mk('add', a, self.den(b, st))
        if op == 'Mod' and (a.op == 'str' or is_str(a)):
            if b.op in ('gamma', 'const') and not (
                    is_str(a) and cval(a).count('%s') == cval(a).count('%')):
                if any(y is NONE for y in branches(b)):
                    b = self.require(b, st, 'none-format', op)
            d = self.den(b, st)
            return mk('str', mk('fmt%', a, d)) if not (
                is_str(a) and cval(a).count('%') == 1 and
                (cval(a).endswith('%s') or cval(a).startswith('%s'))
            ) else self.concat([const(cval(a)[:-2]), d] if cval(
                a).endswith('%s') else [d, const(cval(a)[2:])])
        if op == 'Mult' and (a.op == 'ref' or b.op == 'ref'):
            l, n = (a, b) if self.list_segs(a, st) is not None else (b, a)
            segs = self.list_segs(l, st)
            if segs is not None and not self.is_arr(n, st):
                if is_int(n):
                    return self.new_list_segs(segs * cval(n), st)
                cnt = n
                idx = mk('idx', cnt)
                return self.new_list_segs((('map', cnt, idx, segs, TRUE),),
                                          st)
        if op in ('BitOr', 'BitAnd', 'Sub') and a.op in ('class', 'ext') :
            return self.opaque('typeop')
        for x in (a, b):
            if none_ness(x, st) is not False and x.op in ('gamma', 'const'):
                if any(y is NONE for y in branches(x)):
                    nx = self.require(x, st, 'none-op', op)
                    if x is a:
                        a = nx
                    if x is b:
                        b = nx
        boxed = self.is_arr(a, st) or self.is_arr(b, st)
        da, db = self.den(a, st), self.den(b, st)
        r = boxed and npmodel.each(self, op, da, db, st) or \
            npmodel.binop(self, op, da, db, st)
        return self.new_arr(r, st) if boxed else r

    def concat(self, parts):
        out = []
        for p in parts:
            if p.op == 'str':
                out += list(p.args)
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op == 'str':
                sub = list(p.args)
            else:
                sub = [p]
            for q in sub:
                if is_str(q) and res and is_str(res[-1]):
                    res[-1] = const(cval(res[-1]) + cval(q))
                elif is_str(q) and cval(q) == '':
                    continue
                else:
                    res.append(q)
        if not res:
            return const('')
        if len(res) == 1 and is_str(res[0]):
            return res[0]
        return mk('str', *res)

    def e_UnaryOp(self, e, st):
        op = type(e.op).__name__
        if op == 'Not':
            return t_not(self.cond(e.operand, st))
        v = self.eval(e.operand, st)
        v = self.require(v, st, 'none-op', op) if any(
            x is NONE for x in branches(v)) else v
        r = npmodel.unop(self, op, self.den(v, st), st)
        return self.new_arr(r, st) if self.is_arr(v, st) else r

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        for x in e.values[1:]:
            c = self.truth(v, st)
            d = decide(c, st)
            if d is not None:
                if d == isand:
                    v = self.eval(x, st)
                continue
            # evaluate the right operand where it is reached
            a = st.copy()
            if not a.assume(c, isand):
                continue
            a.pc = st.pc + ((c, isand),)
            try:
                w = self.eval(x, a)
            except Dead:
                # only the short-circuited outcome survives
                st.assume(c, not isand)
                st.pc = st.pc + ((c, not isand),)
                continue
            b = st.copy()
            b.assume(c, not isand)
            base = st.pc
            m = self.merge(c if isand else t_not(c), a, b)
            m.pc = base
            # facts established before evaluation survive
            m.facts.update({k: p for k, p in st.facts.items()})
            st.become(m)
            tw = None
            if v.op in BOOL_OPS or v in (TRUE, FALSE):
                if w.op in BOOL_OPS or w in (TRUE, FALSE):
                    tw = t_and(v, w) if isand else t_or(v, w)
            if tw is None:
                tw = gamma(c, w, v) if isand else gamma(c, v, w)
            v = tw
        return v

    def cond(self, e, st):
        """Boolean term for the truth value of e."""
        return self.truth(self.eval(e, st), st)

    def truth(self, v, st):
        if v.op == 'const':
            return TRUE if cval(v) else FALSE
        if v.op in BOOL_OPS:
            return v
        if v.op == 'gamma':
            v = simp(v, st)
            if v.op == 'gamma':
                c, a, b = v.args
                ta, tb = self.truth(a, st), self.truth(b, st)
                if ta is tb:
                    return ta
                return bgamma(c, ta, tb)
            return self.truth(v, st)
        if v.op == 'tuple':
            return TRUE if v.args else FALSE
        if v.op in ('func', 'class', 'bound', 'closure', 'module', 'enum',
                    'ext', 'exc'):
            return TRUE
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            if o is not None and o.kind == 'inst':
                if o.cls is not None and not o.cls.find('__len__') and \
                        not o.cls.find('__bool__'):
                    return TRUE
            if o is not None and o.kind == 'list':
                if any(s[0] == 'one' for s in o.segs):
                    return TRUE
                if not o.segs:
                    return FALSE
                n = self.length(v, st)
                return t_not(npmodel.compare(self, 'Eq', n, const(0), st))
            if o is not None and o.kind == 'arr':
                return self.truth(o.content, st) if o.content is not None \
                    and o.base is None else mk('truthy', self.den(v, st))
            return mk('truthy', self.den(v, st))
        if v.op == 'len':
            return t_not(mk('eq', v, const(0)))
        return mk('truthy', v)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = TRUE
        boxed = False
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            name = type(op).__name__
            c, bx = self.compare(name, left, right, st)
            boxed = boxed or bx
            out = c if out is TRUE else t_and(out, c)
            left = right
        return self.new_arr(out, st) if boxed else out

    def compare(self, name, a, b, st):
        a, b = simp(a, st), simp(b, st)
        if name in ('Is', 'IsNot'):
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                n = none_ness(x, st)
                if n is not None:
                    r = TRUE if n else FALSE
                else:
                    r = isnone_term(x, st)
            elif a is b:
                r = TRUE
            elif b in (TRUE, FALSE) and a.op in BOOL_OPS:
                r = a if b is TRUE else t_not(a)
            elif a.op == 'ref' and b.op == 'ref' and not (
                    made(a) or made(b)) and (member(a) or member(b)):
                r = mk('is', a, b)      # two elements may be one object
            elif a.op in ('enum', 'class', 'ref', 'const') and a.op == b.op:
                r = FALSE
            else:
                r = mk('is', a, b)
            return (t_not(r) if name == 'IsNot' else r), False
        if name in ('In', 'NotIn'):
            if any(x is NONE for x in branches(b)):
                b = self.require(b, st, 'none-iter', name)
            db = self.den(b, st)
            seq = self.exact_seq(b, st)
            if seq is not None and len(seq) <= 12:
                r = t_or(*[npmodel.compare(self, 'Eq', self.den(a, st),
                                           self.den(x, st), st)
                           for x in seq])
            else:
                r = mk('in', self.den(a, st), db)
            return (t_not(r) if name == 'NotIn' else r), False
        if name not in ('Eq', 'NotEq'):
            for x in (a, b):
                if any(y is NONE for y in branches(x)):
                    nx = self.require(x, st, 'none-op', name)
                    a = nx if x is a else a
                    b = nx if x is b else b
        if a.op == 'ref' and b.op == 'ref':
            oa, ob = self.obj(a.args[0], st), self.obj(b.args[0], st)
            if oa is not None and oa.kind == 'inst' and oa.cls is not None:
                dn = {'Lt': '__lt__', 'Gt': '__gt__', 'Eq': '__eq__',
                      'LtE': '__le__', 'GtE': '__ge__'}.get(name)
                m = dn and oa.cls.find(dn)
                if m:
                    return self.call_func(m, [a, b], {}, st), False
        if name in ('Eq', 'NotEq') and a.op == 'tuple' and b.op == 'tuple' \
                and len(a.args) == len(b.args):
            r = t_and(*[self.compare('Eq', x, y, st)[0]
                        for x, y in zip(a.args, b.args)])
            return (t_not(r) if name == 'NotEq' else r), False
        boxed = self.is_arr(a, st) or self.is_arr(b, st)
        return npmodel.compare(self, name, self.den(a, st), self.den(b, st),
                               st), boxed

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        d = decide(c, st)
        if d is True:
            return self.eval(e.body, st)
        if d is False:
            return self.eval(e.orelse, st)
        return self.fork_expr(c, st, lambda x: self.eval(e.body, x),
                              lambda x: self.eval(e.orelse, x))

    def fork_expr(self, c, st, fa, fb):
        return self.split(gamma(c, mk('pick', 0), mk('pick', 1)), st,
                          lambda p, s: (fa if p.args[0] == 0 else fb)(s))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.set_name(e.target.id, v, st)
        return v

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        if e.value is not None:
            v = self.eval(e.value, st)
            ys = self.frames[-1].yields
            if ys is not None:
                self.list_append(ys, v, st)
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        ys = self.frames[-1].yields
        if ys is not None:
            self.list_extend(ys, v, st)
        return NONE

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    # ------------------------------------------------------------- displays
    def eval_elts(self, elts, st):
        """Segments for a display with possible stars."""
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                s = self.seq_segs(v, st)
                segs += list(s)
            else:
                segs.append(('one', self.eval(x, st)))
        return segs

    def e_Tuple(self, e, st):
        segs = self.eval_elts(e.elts, st)
        if all(s[0] == 'one' for s in segs):
            return mk('tuple', *[s[1] for s in segs])
        return self.new_list_segs(segs, st)

    def e_List(self, e, st):
        return self.new_list_segs(self.eval_elts(e.elts, st), st)

    def e_Set(self, e, st):
        segs = self.eval_elts(e.elts, st)
        return self.as_set(self.new_list_segs(segs, st), st)

    def as_set(self, ref, st):
        """Duplicates removed: known only when all elements are constants."""
        if ref.op != 'ref':
            return ref
        o = self.obj(ref.args[0], st)
        if o is None or o.kind != 'list':
            return ref
        if all(s[0] == 'one' and (s[1].op in ('const', 'enum'))
               for s in o.segs):
            segs = tuple(dict.fromkeys(o.segs))
        elif len(o.segs) == 1 and o.segs[0][0] == 'one':
            return ref
        else:
            segs = (('opaque', mk('setof', self.den(ref, st))),)
        return self.new_list_segs(segs, st)

    def e_SetComp(self, e, st):
        return self.as_set(self.comp(e.generators, lambda s: self.eval(
            e.elt, s), st), st)

    def e_Dict(self, e, st):
        oid = self.fresh('dict')
        cont = mk('emptydict')
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                cont = mk('update', cont, self.den(vv, st))
            else:
                cont = mk('dstore', cont, self.den(self.eval(k, st), st), vv)
        st.heap[oid] = HObj('dict', content=cont)
        return mk('ref', oid)

    def e_ListComp(self, e, st):
        return self.comp(e.generators, lambda s: self.eval(e.elt, s), st)
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        r = self.comp(e.generators, lambda s: mk(
            'tuple', self.eval(e.key, s), self.eval(e.value, s)), st)
        oid = self.fresh('dict')
        st.heap[oid] = HObj('dict', content=mk('dictof', self.den(r, st)))
        return mk('ref', oid)

    def comp(self, gens, elt, st):
        """A comprehension is an append loop in its own scope."""
        out = self.new_list([], st)
        saved = dict(st.vars)
        loop_owner = self.frames[-1]

        def run(gs, st):
            if not gs:
                v = elt(st)
                self.list_append(out, v, st, quiet=True)
                return st
            g = gs[0]
            it = self.eval(g.iter, st)

            def body(s):
                c = TRUE
                for i in g.ifs:
                    c = t_and(c, self.cond(i, s))
                d = decide(c, s)
                if d is False:
                    return s
                if d is True:
                    return run(gs[1:], s)
                return self.fork(c, s, lambda x: run_safe(gs[1:], x),
                                 lambda x: x)
            from .stmts import Loop
            return self.for_plan(self.iter_plan(it, st), st, g.target, body)

        def run_safe(gs, s):
            try:
                return run(gs, s)
            except Dead:
                return None
        r = run(gens, st)
        if r is None:
            raise Dead()
        if r is not st:
            st.become(r)
        # restore the scope
        for n in list(st.vars):
            if n not in saved:
                del st.vars[n]
        for n, v in saved.items():
            if n in st.vars and st.vars[n] is not v:
                tgt = {x.id for g in gens for x in ast.walk(g.target)
                       if isinstance(x, ast.Name)}
                if n in tgt:
                    st.vars[n] = v
        return out

    def for_plan(self, plan, st, target, body):
        """Run body(state)->state over an iteration plan (comprehension)."""
        from .stmts import Loop
        loop = Loop(None)
        for p in plan:
            if st is None:
                return None
            if p[0] == 'one':
                self.assign(target, p[1], st)
                try:
                    st = body(st)
                except Dead:
                    return None
            elif p[0] == 'alt':
                def sub(pl):
                    def f(x):
                        try:
                            return self.for_plan(pl, x, target, body)
                        except Dead:
                            return None
                    return f
                st = self.fork(p[1], st, sub(p[2]), sub(p[3]))
            else:
                _, cnt, idx, fn, cond = p
                st = self.sym_loop(
                    cnt, idx, lambda x: self.assign(target, fn(x), x), None,
                    st, loop, cond=cond, bodyfn=body)
        return st

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def closure(self, node, st):
        self.clos_n += 1
        key = 'c%d' % self.clos_n
        fr = self.frames[-1]
        self.closures[key] = (node, fr.module, fr.fid, fr.func)
        self.closure_env[fr.fid] = (dict(st.vars), fr.closure)
        dfl = []
        a = node.args
        for d in a.defaults:
            dfl.append(self.eval(d, st))
        kwd = [None if d is None else self.eval(d, st)
               for d in a.kw_defaults]
        self.closure_defaults[key] = (dfl, kwd)
        return mk('closure', key)

    # --------------------------------------------------------------- strings
    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                parts.append(self.formatted(p, st))
        return self.concat(parts)

    def formatted(self, p, st):
        v = self.eval(p.value, st)
        spec = const('')
        if p.format_spec is not None:
            spec = self.eval(p.format_spec, st)
        return self.fmt(v, spec, st)

    def fmt(self, v, spec, st):
        if spec is not const('') and any(x is NONE for x in branches(v)):
            v = self.require(v, st, 'none-format', '')
        if is_str(v) and spec is const(''):
            return v
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                for d in ('__format__', '__str__', '__repr__'):
                    m = o.cls.find(d)
                    if m and d != '__format__':
                        return self.call_func(m, [v], {}, st)
        if v.op in ('enum',):
            return self.to_str(v, st)
        if v.op == 'str' and spec is const(''):
            return v
        d = self.den(v, st)
        if spec is const('') and d.op == 'const' and d.args[0] in (
                'int', 'bool', 'float', 'NoneType'):
            return const(str(cval(d)))
        if spec is const('') and self.is_strish(d, st):
            return d
        if spec is const(''):
            return mk('tostr', d) if d.op not in ('fld', 'param', 'tostr') \
                else (mk('tostr', d) if d.op != 'tostr' else d)
        return mk('fmt', d, spec)

    def e_FormattedValue(self, e, st):
        return self.formatted(e, st)

    def to_str(self, v, st):
        if v.op == 'const':
            return const(str(cval(v)))
        if v.op == 'enum':
            cls = self.repo.classes.get(v.args[0])
            m = cls and cls.find('__str__')
            if m:
                return self.call_func(m, [v], {}, st)
            return const('%s.%s' % v.args)
        if v.op == 'str':
            return v
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                for d in ('__str__', '__repr__'):
                    m = o.cls.find(d)
                    if m:
                        return self.call_func(m, [v], {}, st)
        d = self.den(v, st)
        return d if d.op == 'tostr' or self.is_strish(d, st) else \
            mk('tostr', d)

    # -------------------------------------------------------------- subscript
    def e_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.den(self.eval(x, st), st)
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def eval_index(self, e, st):
        if isinstance(e, ast.Tuple):
            return mk('tuple', *[self.eval_index(x, st) for x in e.elts])
        if isinstance(e, ast.Slice):
            return self.e_Slice(e, st)
        return self.eval(e, st)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.eval_index(e.slice, st)
        if self.is_arr(b, st):
            self.absent_index(simp(i, st), st, e.slice)
        v = self.getitem(b, i, st)
        if any(i is x for x in self.active_idx):
            # the element of this iteration, as if iterated over
            self.own |= {o for o in self.made_by(v)
                         if i in self.made.get(o, ())}
        return v

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr(b, e.attr, st)

    def e_Call(self, e, st):
        return self.call_expr(e, st)


def without_none(v, st):
    """The value where it is known not to be None."""
    if v.op != 'gamma':
        return v
    c, a, b = v.args
    if a is NONE:
        return without_none(b, st)
    if b is NONE:
        return without_none(a, st)
    return gamma(c, without_none(a, st), without_none(b, st))


def isnone_term(x, st):
    """Condition under which x is None."""
    if x.op == 'gamma':
        c, a, b = x.args
        na, nb = none_ness(a, st), none_ness(b, st)
        ta = TRUE if na is True else FALSE if na is False else \
            isnone_term(a, st)
        tb = TRUE if nb is True else FALSE if nb is False else \
            isnone_term(b, st)
        return bgamma(c, ta, tb)
    return mk('isnone', x)
