"""Abstract interpreter: source -> gated value-flow terms, effect graph.

Nothing of the analysed program is executed: every construct is mapped to a
term over the unknown initial state; paths are joined by gamma terms at every
control-flow join, loops are summarised by fold / map terms, and effects
(writes, file-system calls, checks, raises) become nodes of a flow graph.
"""
import ast
import builtins
import sys
from .terms import *
from .state import *
from .repo import Repo, AnalysisError, Func, Cls
from . import npmodel, extmodel
from .interp_base import *
from .stmts import Stmts
from .exprs import Exprs
from .calls import Calls

sys.setrecursionlimit(20000)


def strip_copy(t):
    """The original of a deep-copied symbolic object."""
    if not isinstance(t, T) or t.op not in ('fld', 'elem', 'item', 'dcopy'):
        return t
    return rewrite(t, lambda x: x.args[1] if x.op == 'dcopy' else x)


class Interp(Stmts, Exprs, Calls):
    def __init__(self, repo, prim_validate=True, io=False, max_depth=60):
        self.repo = repo
        self.prim = prim_validate
        self.cond_facts = not prim_validate
        self.io = io
        self.nodes = [Node(0, 'entry', None, (), None, 0, (), {}, (), ())]
        self.raises = []            # current sink of raise outcomes
        self.frames = []
        self.symspec = {}           # term -> type spec of symbolic values
        self.newid = 0
        self.funcs = {}             # function id -> Func
        self.fids = 0
        self.closures = {}
        self.active_idx = []
        self.made = {}              # new object -> loop indices around it
        self.own = set()            # one object per iteration of the loop
        self.loopctx = []
        self.discover = 0
        self.max_depth = max_depth
        self.callcount = {}
        self.hazards = []
        self.notes = []
        self.calls = set()
        self.foldids = 0
        self.folds = {}             # (loop, location) -> Fold
        self.lost = None            # a write the model could not place
        self.mu_from = {}           # loop variable -> entry value
        self.line = 0
        self.invariants = None      # optional callback(interp, oid, name)
        self.arr_terms = set()
        self.bars = set()           # iterables behind a progress bar
        self.mu_init = {}           # loop variable -> value on entry
        self.loop_entry = {}        # the same for one first iteration
        self.unending = set()       # `while True` loops: left from inside
        self.loop_recs = []         # analysed loops, see stmts.record_loop
        self.refused = []           # path conditions of caught failures
        self.withs = []             # open context managers
        self.deadline = float('inf')
        self.stats = {'stmts': 0, 'calls': 0, 'checks': 0, 'loops': 0}
        self.closure_env = {}
        self.closure_defaults = {}
        self.clos_n = 0
        self.supers = {}
        self.globals_cache = {}
        self.global_objs = {}
        self.hooks = {}             # qualified function -> callable

    # ------------------------------------------------------------ utilities
    def fresh(self, tag='new'):
        self.newid += 1
        return mk('new', tag, self.newid)

    def note(self, msg):
        self.notes.append((self.cur_func().qual if self.frames and
                           self.cur_func() else '?', self.line, msg))

    def cur_func(self):
        return self.frames[-1].func if self.frames else None

    def event(self, st, kind, data):
        n = Node(len(self.nodes), kind, data, (st.node,), self.cur_func(),
                 self.line, st.pc, None, tuple(self.loopctx),
                 tuple(f.func.qual for f in self.frames if f.func))
        if self.discover:
            n.kind = 'discover:' + kind
        else:
            n.facts = dict(st.facts)
        self.nodes.append(n)
        st.node = n.id
        return n

    # ------------------------------------------------------ symbolic values
    def sym(self, spec, term, opt=None):
        """Initial value of the given type spec named by term."""
        if spec is None:
            spec = {'kind': 'opaque'}
        k = spec['kind']
        if opt is None:
            opt = spec.get('opt')
        if k in ('array', 'list', 'dict', 'inst'):
            self.symspec.setdefault(term, spec)
            v = mk('ref', term)
            if k == 'array':
                self.arr_terms.add(term)
                self.arr_terms.add(strip_copy(term))
        elif k == 'tuple' and spec.get('elems'):
            v = mk('tuple', *[self.sym(s, mk('item', term, const(i)))
                              for i, s in enumerate(spec['elems'])])
        else:
            if k == 'none':
                v = term
            else:
                v = strip_copy(term)
                self.symspec.setdefault(v, spec)
        if opt:
            v = gamma(mk('isnone', strip_copy(self.none_leader(term))), NONE,
                      v)
        return v

    def none_leader(self, term):
        """Fields that are absent together share one absence condition."""
        if self.invariants and term.op == 'fld':
            lead = self.invariants(self, term.args[0], term.args[1])
            if lead is not None:
                return mk('fld', term.args[0], lead)
        return term

    def init_obj(self, oid):
        """The heap object a symbolic ref initially denotes."""
        spec = self.symspec.get(oid)
        if spec is None:
            return None
        k = spec['kind']
        if k == 'inst':
            return HObj('inst', cls=spec['cls'], fields={}, extra='sym')
        if k == 'array':
            return HObj('arr', content=strip_copy(oid) if not spec.get(
                'elem') else oid, elem=spec.get('elem'), extra='sym')
        if k == 'list':
            cnt = mk('len', strip_copy(oid))
            idx = mk('idx', cnt)
            el = self.sym(spec.get('elem'), mk('elem', oid, idx), opt=False) \
                if spec.get('elem') else mk('elem', oid, idx)
            return HObj('list', segs=(('map', cnt, idx, (('one', el),),
                                       TRUE),), elem=spec.get('elem'),
                        content=oid, extra='sym')
        if k == 'dict':
            return HObj('dict', content=strip_copy(oid), extra='sym')
        return None

    def obj(self, oid, st):
        o = st.heap.get(oid)
        if o is None:
            o = self.global_objs.get(oid)
        if o is None:
            o = self.init_obj(oid)
        return o

    def sym_field(self, oid, name, cls):
        spec = self.repo.field_specs(cls).get(name)
        if spec is None:
            return None
        return self.sym(spec, mk('fld', oid, name))

    def get_field(self, oid, name, st):
        o = self.obj(oid, st)
        if o is None or o.kind != 'inst':
            return None
        v = o.fields.get(name)
        if v is None and o.extra == 'sym':
            v = self.sym_field(oid, name, o.cls)
        return v

    def is_sym(self, oid):
        return oid.op != 'new'

    # --------------------------------------------------------------- merge
    def merge(self, c, a, b):
        """Join of two states: a where c holds, b elsewhere."""
        n = State()
        n.pc = common(a.pc, b.pc)
        n.frames = a.frames
        if a.frames is not b.frames and len(a.frames) == len(b.frames):
            fr = []
            for (fid, va), (fid2, vb) in zip(a.frames, b.frames):
                fr.append((fid, self.merge_vars(c, va, vb)
                           if va is not vb else va))
            n.frames = tuple(fr)
        n.vars = self.merge_vars(c, a.vars, b.vars)
        for f, p in a.facts.items():
            if b.facts.get(f) is p:
                n.facts[f] = p
        if self.cond_facts:
            self.conditional(c, a, b, n)
        n.heap = dict(a.heap)
        for oid, ob in b.heap.items():
            oa = a.heap.get(oid)
            if oa is None:
                ini = self.init_obj(oid)
                n.heap[oid] = ob if ini is None else self.merge_obj(
                    c, oid, ini, ob)
            elif oa is not ob:
                n.heap[oid] = self.merge_obj(c, oid, oa, ob)
        for oid, oa in a.heap.items():
            if oid not in b.heap:
                ini = self.init_obj(oid)
                if ini is not None:
                    n.heap[oid] = self.merge_obj(c, oid, oa, ini)
        n.fs = dict(a.fs)
        for p in set(a.fs) | set(b.fs):
            x = extmodel.fs_get(self, p, a)
            y = extmodel.fs_get(self, p, b)
            n.fs[p] = gamma(c, x, y)
        if a.node == b.node:
            n.node = a.node
        else:
            nd = Node(len(self.nodes), 'join', c, (a.node, b.node),
                      self.cur_func(), self.line, n.pc, n.facts,
                      tuple(self.loopctx), ())
            self.nodes.append(nd)
            n.node = nd.id
        return n

    def conditional(self, c, a, b, n):
        """Keep what was established where an optional value is present."""
        base = c.args[0] if c.op == 'not' else c
        if base.op != 'isnone':
            return
        for x, y, guard in ((a, b, t_not(c)), (b, a, c)):
            for f, p in x.facts.items():
                if f.op in ('lt', 'le', 'isnan') and y.facts.get(f) is not p:
                    n.facts[t_or(guard, f if p else t_not(f))] = True

    def merge_vars(self, c, a, b):
        out = {}
        for k, x in a.items():
            y = b.get(k)
            if y is x:
                out[k] = x
            elif y is None:
                out[k] = gamma(c, x, UNDEF)
            else:
                out[k] = gamma(c, x, y)
        for k, y in b.items():
            if k not in a:
                out[k] = gamma(c, UNDEF, y)
        return out

    def merge_obj(self, c, oid, a, b):
        if a is b or a.same(b):
            return a
        if a.kind != b.kind:
            return a
        n = a.clone()
        if a.kind == 'inst':
            n.fields = {}
            for k in list(a.fields) + [k for k in b.fields
                                       if k not in a.fields]:
                x, y = a.fields.get(k), b.fields.get(k)
                if x is None:
                    x = self.sym_field(oid, k, a.cls) if a.extra == 'sym' \
                        else None
                if y is None:
                    y = self.sym_field(oid, k, a.cls) if a.extra == 'sym' \
                        else None
                x = UNDEF if x is None else x
                y = UNDEF if y is None else y
                n.fields[k] = gamma(c, x, y)
        elif a.kind == 'list':
            n.segs = merge_segs(c, a.segs, b.segs)
        else:
            n.content = gamma(c, a.content or UNDEF, b.content or UNDEF) \
                if (a.content is not None or b.content is not None) else None
            if a.base != b.base:
                n.base = None
        return n

    def merge_outcomes(self, outs, base_len):
        """Join outcomes of one activation, in temporal order."""
        if len(outs) == 1:
            return outs[0].st, outs[0].value
        items = [(list(o.st.pc[base_len:]), o.st, o.value) for o in outs]

        def go(its):
            if len(its) == 1:
                return its[0][1], its[0][2]
            lits, st, v = its[0]
            rest = []
            cond = t_and(*[t if p else t_not(t) for t, p in lits]) \
                if lits else mk('choice', st.node)
            for l2, s2, v2 in its[1:]:
                if len(lits) == 1:
                    neg = (lits[0][0], not lits[0][1])
                    l2 = [x for x in l2 if x != neg]
                rest.append((l2, s2, v2))
            # group those sharing the first literal positively
            rst, rv = go(rest)
            m = self.merge(cond, st, rst)
            if v is None or rv is None:
                nv = v or rv
            else:
                nv = gamma(cond, v, rv)
            return m, nv

        def tree(its):
            """Prefer a decision tree on complementary literals."""
            if len(its) == 1:
                return its[0][1], its[0][2]
            firsts = [i[0][0] if i[0] else None for i in its]
            if all(f is not None for f in firsts):
                t0 = firsts[0][0]
                if all(f[0] is t0 for f in firsts):
                    pos = [(l[1:], s, v) for l, s, v in its if l[0][1]]
                    neg = [(l[1:], s, v) for l, s, v in its if not l[0][1]]
                    if pos and neg:
                        ps, pv = tree(pos)
                        ns, nv = tree(neg)
                        m = self.merge(t0, ps, ns)
                        return m, (None if pv is None or nv is None else
                                   gamma(t0, pv, nv))
                    return tree([(l[1:], s, v) for l, s, v in its])
            return go(its)
        return tree(items)

    # ------------------------------------------------------------- raising
    def raise_(self, st, excs, why=None, value=None):
        n = self.event(st, 'raise', (excs, why))
        self.raises.append(Outcome(st.copy(), value or mk(
            'exc', excs[0] if excs else '?'), excs, n, why))

    def may_raise(self, st, cond, excs, why):
        """Fork an outcome raising if cond; st continues with not cond."""
        d = decide(cond, st)
        if d is False:
            return
        r = st.copy()
        if not r.assume(cond, True):
            return
        r.pc = r.pc + ((cond, True),)
        self.raise_(r, excs, why)
        if d is True:
            raise Dead()
        if not st.assume(cond, False):
            raise Dead()
        st.pc = st.pc + ((cond, False),)

    def exc_matches(self, name, handler):
        """Is exception class `name` a subclass of class `handler`?"""
        if name == handler or handler in ('BaseException',):
            return True
        a = self.exc_mro(name)
        return handler in a

    def exc_mro(self, name):
        c = self.repo.classes.get(name)
        out = []
        if c is not None:
            for x in c.mro():
                out.append(x.name)
                for e in x.ext_bases:
                    out += self.exc_mro(e.split('.')[-1])
            if not c.mro()[-1].ext_bases:
                out.append('Exception')
            return out
        alias = {'UnpicklingError': 'Exception', 'IOError': 'OSError',
                 'AxisError': 'ValueError', 'BadZipFile': 'Exception'}
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return [x.__name__ for x in b.__mro__]
        if name in alias:
            return [name] + self.exc_mro(alias[name])
        return [name, 'Exception', 'BaseException']

    def is_strish(self, t, st):
        """Is t certainly a string (or path)?"""
        if is_str(t) or t.op in ('str', 'tostr', 'fmt', 'strm', 'unique'):
            return t.op != 'unique'
        if t.op == 'gamma':
            return self.is_strish(t.args[1], st) and \
                self.is_strish(t.args[2], st)
        if t.op in ('elem', 'item') and (
                t.args[0].op == 'strm' or t.args[0].op == 'item' and
                t.args[0].args[1].op == 'slice' and any(
                    x.op == 'strm' for x in subterms(t.args[0].args[0]))):
            return True
        sp = self.symspec.get(t)
        if sp is not None and sp.get('kind') == 'str':
            return True
        return bool(st.facts.get(mk('isa', t, 'str')))

    def np_view(self, name, v, args, st, kwargs=None):
        """Reshaping views; the result aliases the memory of v."""
        kw = dict(kwargs or {})
        order = kw.pop('order', NONE)
        if name in ('ravel', 'flatten') and args:
            order, args = args[0], args[1:]
        if order not in (NONE, const('C')) and name in (
                'ravel', 'flatten', 'reshape'):
            return self.reordered(name, v, args, order, st, kw)
        a = [self.den(x, st) for x in args] + [
            self.den(kw[k], st) for k in sorted(kw)]
        a = [mk('tuple', *x.args) if x.op == 'list' else x for x in a]
        if name == 'fliplr':
            name, a = 'flip', [const(1)]
        elif name == 'flipud':
            name, a = 'flip', [const(0)]
        elif name == 'ravel':
            name, a = 'flatten', []
        elif name == 'reshape':
            if len(a) > 1:
                a = [mk('tuple', *a)]
            if a and a[0] in (const(-1), mk('tuple', const(-1))):
                name, a = 'flatten', []
            elif a and a[0].op == 'tuple' and sum(
                    x is const(-1) for x in a[0].args) == 1 and all(
                    x in (const(-1), const(1)) for x in a[0].args) and \
                    npmodel.rank(self, self.den(v, st), st) == 1:
                return self.getitem(v, mk('tuple', *[
                    NONE if x is const(1) else mk('slice', NONE, NONE, NONE)
                    for x in a[0].args]), st)
        if name == 'atleast_1d' and self.is_arr(v, st) and npmodel.rank(
                self, self.den(v, st), st) not in (None, 0):
            return v
        if v.op != 'ref' or not self.is_arr(v, st):
            c = self.den(v, st)
            return self.new_arr(npmodel.fold_list(name, [c] + a) or
                                mk('np.' + name, c, *a), st)
        oid = v.args[0]
        o = self.obj(oid, st)
        if name == 'flatten':
            from .extmodel import flat
            c = flat(self.arr_content(oid, st))
        else:
            c = self.arr_content(oid, st)
            c = npmodel.fold_list(name, [c] + a) or mk('np.' + name, c, *a)
        n = self.fresh('arr')
        st.heap[n] = HObj('arr', content=c, base=(oid, (name,) + tuple(a)),
                          elem=o.elem)
        self.arr_terms.add(c)
        return mk('ref', n)

    def reordered(self, name, v, args, order, st, kw):
        """Column-major flattening or reshaping, through the transpose."""
        if order is const('F') and not kw:
            if name != 'reshape':
                return self.np_view('flatten', self.np_view(
                    'transpose', v, (), st), (), st)
            a = [self.den(x, st) for x in args]
            if len(a) == 1 and a[0].op in ('tuple', 'list'):
                a = list(a[0].args)
            if a and not any(x.op == 'shape' for x in a):
                x = self.np_view('transpose', v, (), st)
                x = self.np_view('reshape', x, [mk('tuple', *a[::-1])], st)
                return self.np_view('transpose', x, (), st)
        return self.new_arr(mk('np.ordered.' + name, self.den(v, st), *[
            self.den(x, st) for x in list(args) + [order]]), st)

    # -------------------------------------------------------------- denote
    def den(self, v, st, deep=False, seen=()):
        """Content snapshot: boxed arrays and lists become their content."""
        if v.op == 'ref':
            oid = v.args[0]
            o = self.obj(oid, st)
            if o is None:
                return v
            if o.kind == 'arr':
                return self.arr_content(oid, st)
            if o.kind == 'list':
                if oid in seen:
                    return v
                return self.segs_term(o, oid, st, seen + (oid,))
            if o.kind == 'dict':
                return o.content if o.content is not None else v
            return v
        if v.op == 'gamma':
            return gamma(v.args[0], self.den(v.args[1], st, deep, seen),
                         self.den(v.args[2], st, deep, seen))
        if v.op == 'tuple':
            return mk('tuple', *[self.den(a, st, deep, seen)
                                 for a in v.args])
        return v

    def segs_term(self, o, oid, st, seen=()):
        if o.extra == 'sym' and o.segs == self.init_obj(oid).segs:
            return oid
        return self.segs_den(o.segs, st, seen)

    def segs_den(self, segs, st, seen=()):
        if all(s[0] == 'one' for s in segs):
            return mk('list', *[self.den(s[1], st, False, seen)
                                for s in segs])
        out = []
        for s in segs:
            if s[0] == 'one':
                out.append(mk('one', self.den(s[1], st, False, seen)))
            elif s[0] == 'map':
                inner = self.segs_den(s[3], st, seen)
                if inner.op == 'list' and len(inner.args) == 1:
                    inner = inner.args[0]
                else:
                    inner = mk('multi', inner)
                out.append(mk('map', s[1], s[2], inner, s[4]))
            elif s[0] == 'alt':
                out.append(gamma(s[1], mk('segs', self.segs_den(
                    s[2], st, seen)), mk('segs', self.segs_den(
                        s[3], st, seen))))
            else:
                out.append(mk(s[0], *[x for x in s[1:]
                                      if isinstance(x, T)]))
        if len(out) == 1 and out[0].op == 'map':
            return out[0]
        return mk('seq', *out)

    def arr_content(self, oid, st):
        o = self.obj(oid, st)
        if o.base is None:
            return o.content
        boid, how = o.base
        bc = self.arr_content(boid, st)
        if how[0] == 'item':
            return npmodel.item(self, bc, how[1], st)
        if how[0] == 'flatten':
            from .extmodel import flat
            return flat(bc)
        return npmodel.fold_list(how[0], (bc,) + tuple(how[1:])) or mk(
            'np.' + how[0], bc, *how[1:])

    def new_arr(self, content, st, elem=None, base=None):
        oid = self.fresh('arr')
        st.heap[oid] = HObj(
            'arr', content=content, base=base, elem=elem,
            narrow=npmodel.narrow_of(content) if base is None and
            not elem else None)
        if content is not None:
            self.arr_terms.add(content)
        return mk('ref', oid)

    def new_list(self, vals, st):
        oid = self.fresh('list')
        st.heap[oid] = HObj('list', segs=tuple(('one', v) for v in vals))
        return mk('ref', oid)

    def new_list_segs(self, segs, st):
        oid = self.fresh('list')
        st.heap[oid] = HObj('list', segs=tuple(segs))
        return mk('ref', oid)

    def new_inst(self, cls, st):
        oid = self.fresh(cls.name)
        self.made[oid] = tuple(self.active_idx)
        st.heap[oid] = HObj('inst', cls=cls, fields={})
        return mk('ref', oid)

    def is_arr(self, v, st):
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            return o is not None and o.kind == 'arr'
        if v.op == 'gamma':
            return self.is_arr(v.args[1], st) or self.is_arr(v.args[2], st)
        return False

    # --------------------------------------------------------------- writes
    def write_field(self, ref, name, v, st):
        oid = ref.args[0]
        o = self.obj(oid, st)
        if o is None or o.kind != 'inst':
            self.event(st, 'write', (oid, ('field', name), v))
            return
        n = o.clone()
        n.fields[name] = v
        st.heap[oid] = n
        self.event(st, 'write', (oid, ('field', name), v))

    def write_arr(self, oid, idx, v, st, how='store'):
        """x[idx] = v (or in-place op) on array oid, through views."""
        o = self.obj(oid, st)
        self.event(st, 'write', (self.root_arr(oid, st), (how, idx), v))
        self._write_arr(oid, idx, v, st)

    def root_arr(self, oid, st):
        o = self.obj(oid, st)
        while o is not None and o.base is not None:
            oid = o.base[0]
            o = self.obj(oid, st)
        return oid

    def _write_arr(self, oid, idx, v, st):
        o = self.obj(oid, st)
        old = self.arr_content(oid, st)
        if o.narrow is not None:
            v = npmodel.narrowed(v, o.narrow)
        new = v if idx is None else npmodel.store(self, old, idx, v, st)
        if o.base is None:
            n = o.clone()
            n.content = new
            st.heap[oid] = n
            self.arr_terms.add(new)
        else:
            boid, how = o.base
            if how[0] == 'item':
                self._write_arr(boid, how[1], new, st)
            else:
                self._write_arr(boid, None, mk('np.un' + how[0], new,
                                               *how[1:]), st)

