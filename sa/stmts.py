"""Statement semantics (mixin of Interp)."""
import ast
import time
from .terms import *
from .state import *
from .interp_base import *
from . import npmodel


class Loop:
    def __init__(self, lid):
        self.lid = lid
        self.breaks, self.conts = [], []


class Stmts:
    def exec_block(self, stmts, st):
        for s in stmts:
            try:
                st = self.exec_stmt(s, st)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def exec_stmt(self, s, st):
        self.line = getattr(s, 'lineno', self.line)
        self.stats['stmts'] += 1
        if time.time() > self.deadline:
            raise Limit()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.note('unsupported statement ' + type(s).__name__)
            return st
        return m(s, st)

    def x_Pass(self, s, st):
        return st
    x_Global = x_Nonlocal = x_ClassDef = x_Pass

    def x_Import(self, s, st):
        for a in s.names:
            mod = self.repo._find_module(a.name)
            st.vars[a.asname or a.name.split('.')[0]] = \
                mk('module', mod.name) if mod else mk(
                    'ext', a.name if a.asname else a.name.split('.')[0])
        return st

    def x_ImportFrom(self, s, st):
        for a in s.names:
            mod = self.repo._find_module(s.module) if s.module else None
            if mod is not None:
                v = self.entity(self.repo.lookup(mod, a.name), st)
            else:
                v = mk('ext', (s.module or '') + '.' + a.name)
            st.vars[a.asname or a.name] = v
        return st

    def x_FunctionDef(self, s, st):
        st.vars[s.name] = self.closure(s, st)
        return st

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st)
        return st

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.may_raise(st, t_not(c), ['AssertionError'], 'assert')
        return st

    def x_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        n = self.event(st, 'return', v)
        self.frames[-1].returns.append(Outcome(st.copy(), v, node=n))
        return None

    def x_Break(self, s, st):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1].breaks.append(Outcome(st.copy(), None))
        return None

    def x_Continue(self, s, st):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1].conts.append(Outcome(st.copy(), None))
        return None

    def x_Raise(self, s, st):
        if s.exc is None:
            cur = self.frames[-1].exc_stack
            outs = cur[-1] if cur else []
            for f in reversed(self.frames):
                if f.exc_stack:
                    outs = f.exc_stack[-1]
                    break
            excs = []
            for o in outs:
                for e in o.excs or []:
                    if e not in excs:
                        excs.append(e)
            self.raise_(st, excs or ['Exception'], 're-raise')
            return None
        v = self.eval(s.exc, st)
        if s.cause is not None:
            self.eval(s.cause, st)
        excs = []
        for b in branches(v):
            if b.op == 'exc':
                excs.append(b.args[0])
            elif b.op == 'class':
                excs.append(b.args[0])
            elif b.op == 'ref':
                o = self.obj(b.args[0], st)
                excs.append(o.cls.name if o is not None and o.cls is not None
                            else 'Exception')
            elif b.op == 'ext':
                excs.append(b.args[0].split('.')[-1])
            else:
                excs.append('Exception')
        self.raise_(st, excs, 'raise', v)
        return None

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval_index(t.slice, st)
                self.del_item(b, i, st)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                for x in branches(b):
                    if x.op == 'ref':
                        self.write_field(x, t.attr, UNDEF, st)
        return st

    # ------------------------------------------------------------ assignment
    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def x_AnnAssign(self, s, st):
        spec = self.repo.ann_spec(s.annotation, self.cur_module())
        if s.value is None:
            if isinstance(s.target, ast.Name) and s.target.id in st.vars and \
                    spec and spec['kind'] == 'inst':
                v = st.vars[s.target.id]
                if v.op in ('elem', 'item', 'mu') and \
                        v not in self.symspec:
                    self.symspec[v] = spec
                    st.vars[s.target.id] = mk('ref', v)
            return st
        v = self.eval(s.value, st)
        self.assign(s.target, v, st)
        return st

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st)
            put = lambda v: self.set_name(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            cur = self.getattr(base, t.attr, st)
            put = lambda v: self.setattr(base, t.attr, v, st)
        else:
            base = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            if self.is_arr(base, st):
                self.absent_index(simp(idx, st), st, t.slice)
            cur = self.getitem(base, idx, st)
            put = lambda v: self.setitem(base, idx, v, st)
        rhs = self.eval(s.value, st)
        op = type(s.op).__name__
        if any(x is NONE for x in branches(rhs)):
            rhs = self.require(rhs, st, 'none-op', op)

        def one(c, st):
            if c.op == 'ref':
                o = self.obj(c.args[0], st)
                if o is not None and o.kind == 'arr':
                    d = self.den(c, st)
                    val = npmodel.binop(self, op, d, self.den(rhs, st), st)
                    if st.facts.get(mk('notnum', d, FALSE)) is False or \
                            st.facts.get(mk('notnum', d, False)) is False:
                        return val          # a number, not a view
                    self.write_arr(c.args[0], None, val, st, 'inplace')
                    return c
                if o is not None and o.kind == 'list' and op == 'Add':
                    self.list_extend(c, rhs, st)
                    return c
            return self.binop(op, c, rhs, st)
        r = self.split(cur, st, one)
        put(r)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts, st)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x,
                            y, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            if self.is_arr(b, st):
                self.absent_index(simp(i, st), st, t.slice)
            self.setitem(b, i, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def set_name(self, n, v, st):
        fr = self.frames[-1]
        if n in fr.nonlocals and fr.closure is not None:
            fid = fr.closure
            out = []
            for f, vs in st.frames:
                if f == fid:
                    vs = dict(vs)
                    vs[n] = v
                out.append((f, vs))
            st.frames = tuple(out)
            return
        if n in fr.globals_:
            self.event(st, 'global', (fr.module.name, n, v))
        st.vars[n] = v

    def unpack(self, v, elts, st):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == 'gamma':
            v = simp(v, st)
        if v.op == 'gamma':
            c, a, b = v.args
            xa, xb = self.unpack(a, elts, st), self.unpack(b, elts, st)
            return [gamma(c, p, q) for p, q in zip(xa, xb)]
        if v is NONE:
            self.hazard(st, 'none-unpack', v)
            raise Dead()
        seq = self.exact_seq(v, st)
        if seq is not None:
            if star:
                i = star[0]
                k = len(seq) - (n - 1)
                if k >= 0:
                    return seq[:i] + [self.new_list(seq[i:i + k], st)] + \
                        seq[i + k:]
            if len(seq) == n:
                return seq
            if not star:
                self.raise_(st, ['ValueError'], 'unpack')
                raise Dead()
        d = self.den(v, st)
        if self.io and npmodel.io_tainted(d):
            self.may_raise(st, mk('iofail', 'unpack', d, n), ['ValueError'],
                           'unpack of file content')
            self.may_raise(st, mk('iofail', 'unpackT', d, n), ['TypeError'],
                           'unpack of file content')
        return [self.getitem(v, const(i), st) for i in range(n)]

    # -------------------------------------------------------------------- if
    def x_If(self, s, st):
        c = self.cond(s.test, st)
        d = decide(c, st)
        if d is True:
            return self.exec_block(s.body, st)
        if d is False:
            return self.exec_block(s.orelse, st)
        return self.fork(c, st, lambda x: self.exec_block(s.body, x),
                         lambda x: self.exec_block(s.orelse, x))

    def fork(self, c, st, fa, fb):
        base = st.pc
        line = self.line
        a, b = st.copy(), st.copy()
        if not a.assume(c, True):
            return fb(st)
        if not b.assume(c, False):
            return fa(st)
        a.pc = base + ((c, True),)
        b.pc = base + ((c, False),)
        self.event(a, 'branch', (c, True))
        self.event(b, 'branch', (c, False))
        ra = fa(a)
        self.line = line
        rb = fb(b)
        self.line = line
        if ra is None:
            return rb
        if rb is None:
            return ra
        m = self.merge(c, ra, rb)
        m.pc = base
        return m

    # ----------------------------------------------------------------- loops
    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        plan = self.iter_plan(it, st)
        loop = Loop(None)
        base_pc = st.pc
        self.frames[-1].loops.append(loop)
        try:
            st = self.run_plan(plan, st, s, loop, it)
        finally:
            self.frames[-1].loops.pop()
        if st is not None and s.orelse:
            st = self.exec_block(s.orelse, st)
        return self.join_breaks(loop, st, base_pc)

    def join_breaks(self, loop, st, base_pc):
        outs = loop.breaks + ([Outcome(st, None)] if st is not None else [])
        if not outs:
            return None
        if len(outs) == 1:
            outs[0].st.pc = base_pc
            return outs[0].st
        for i, o in enumerate(outs[:-1]):
            if getattr(o, 'exact', False) and len(o.st.pc) > len(base_pc) \
                    and o.st.pc[:len(base_pc)] == base_pc:
                continue
            self.foldids += 1
            o.st.pc = base_pc + ((mk('brk', self.foldids), True),)
        outs[-1].st.pc = base_pc
        m, _ = self.merge_outcomes(outs, len(base_pc))
        m.pc = base_pc
        return m

    def run_plan(self, plan, st, s, loop, over=None):
        for p in plan:
            if st is None:
                return None
            if p[0] == 'one':
                outer = loop.conts
                loop.conts = []
                self.assign_safe(s.target, p[1], st)
                pc = st.pc
                done = len(loop.breaks)
                r = self.exec_block(s.body, st)
                for o in loop.breaks[done:]:
                    o.exact = o.st.pc[:len(pc)] == pc
                outs = loop.conts + ([Outcome(r, None)] if r is not None
                                     else [])
                loop.conts = outer
                if not outs:
                    return None
                if len(outs) > 1:
                    st, _ = self.merge_outcomes(outs, len(pc))
                else:
                    st = outs[0].st
                st.pc = common(st.pc, pc) if len(outs) > 1 else st.pc
            elif p[0] == 'alt':
                st = self.fork(p[1], st,
                               lambda x: self.run_plan(p[2], x, s, loop, over),
                               lambda x: self.run_plan(p[3], x, s, loop, over))
            else:
                _, cnt, idx, fn, cond = p

                def bind(x, fn=fn, cond=cond):
                    v = fn(x)
                    self.own |= {o for o in self.made_by(v)
                                 if idx in self.made.get(o, ())}
                    self.assign(s.target, v, x)
                own, self.own = self.own, set()
                try:
                    st = self.sym_loop(cnt, idx, bind, s.body, st, loop,
                                       cond=cond, over=over)
                finally:
                    self.own = own
        return st

    def made_by(self, v):
        """Objects, one per iteration of an earlier loop over the same
        range, that an element of a list stands for."""
        if v.op == 'ref':
            return {v.args[0]} if v.args[0].op == 'new' else set()
        if v.op == 'gamma':
            return self.made_by(v.args[1]) | self.made_by(v.args[2])
        if v.op == 'tuple':
            return set().union(*[self.made_by(x) for x in v.args])
        return set()

    def assign_safe(self, t, v, st):
        self.assign(t, v, st)

    def x_While(self, s, st):
        f = counted(s)
        if f is not None and f[0].id in st.vars and 'range' not in st.vars:
            var, bound, loop, after = f
            if whole(self.den(st.vars[var.id], st), st) and whole(
                    self.den(self.eval(bound, st.copy()), st), st):
                st.vars['#start'] = st.vars[var.id]
                st = self.x_For(loop, st)
                if st is not None:
                    self.exec_block([after], st)
                    st.vars.pop('#start', None)
                return st
        loop = Loop(None)
        base_pc = st.pc
        self.foldids += 1
        cnt = mk('while', self.foldids)
        idx = mk('idx', cnt)
        self.frames[-1].loops.append(loop)
        try:
            st = self.sym_loop(cnt, idx, lambda x: None, s.body, st, loop,
                               test=s.test)
        finally:
            self.frames[-1].loops.pop()
        if st is not None and s.orelse:
            st = self.exec_block(s.orelse, st)
        return self.join_breaks(loop, st, base_pc)

    def sym_loop(self, cnt, idx, bind, body, st, loop, test=None, cond=TRUE,
                 bodyfn=None, over=None):
        """Summarise a loop of unknown length.  Element objects reached
        through idx stay generic (they stand for every iteration); every
        other location the body changes becomes loop-carried."""
        self.stats['loops'] += 1
        st0 = st
        changed = []
        self.foldids += 1
        lid = self.foldids
        self.loopctx.append((lid, cnt, idx, self.line))
        line0 = self.line
        save_raises, save_nodes = len(self.raises), len(self.nodes)
        save_ret = len(self.frames[-1].returns)
        save_br = len(loop.breaks)
        save_lr = len(self.loop_recs)
        outer_conts = loop.conts
        ends_kinds = {}
        alias = set()
        try:
            for attempt in range(9):
                first = attempt == 0
                if first:
                    self.discover += 1
                self.line = line0
                s1 = st0.copy()
                head = None
                if not first:
                    head = Node(len(self.nodes), 'loophead', (lid, cnt),
                                (st0.node,), self.cur_func(), self.line,
                                s1.pc, s1.facts, tuple(self.loopctx), ())
                    self.nodes.append(head)
                    s1.node = head.id
                carried = {}
                mus = self.havoc(changed, s1, lid, ends_kinds, carried,
                                 alias, idx)
                pre = s1.copy()
                loop.conts = []
                entry_facts = dict(s1.facts)
                ok = True
                self.active_idx.append(idx)
                try:
                    try:
                        if test is not None:
                            c = self.cond(test, s1)
                            exit_st = s1.copy()
                            if not exit_st.assume(c, False):
                                exit_st = None
                            elif exit_st is not None:
                                exit_st.facts = dict(s1.facts)
                            if decide(c, s1) is False or \
                                    not s1.assume(c, True):
                                ok = False
                        else:
                            exit_st = True
                        if ok:
                            if cond is not TRUE:
                                s1.assume(cond, True)
                            bind(s1)
                            end = bodyfn(s1) if bodyfn else \
                                self.exec_block(body, s1)
                        else:
                            end = None
                    except Dead:
                        end = None
                finally:
                    self.active_idx.pop()
                outs = loop.conts + ([Outcome(end, None)] if end is not None
                                     else [])
                loop.conts = outer_conts
                E = None
                backs = [o.st.copy() for o in outs]
                if outs:
                    if len(outs) > 1:
                        E, _ = self.merge_outcomes(outs, len(pre.pc))
                    else:
                        E = outs[0].st
                new = []
                realias = False
                cands = ([E] if E is not None else []) + [
                    o.st for o in loop.breaks[save_br:]]
                for x in cands:
                    for k in self.diff_keys(pre, x, idx):
                        if k[0] in ('cont', 'list', 'field') and \
                                k[1] in carried:
                            # written through a loop-carried variable
                            if carried[k[1]] not in alias:
                                alias.add(carried[k[1]])
                                realias = True
                        elif k not in changed and k not in new:
                            new.append(k)
                if E is not None:
                    for k in changed + new:
                        ends_kinds[k] = self.key_value(k, E)
                if first:
                    self.discover -= 1
                redo = bool(new) or first or realias
                if not redo or attempt == 8:
                    break
                changed += new
                del self.raises[save_raises:]
                del self.nodes[save_nodes:]
                del self.loop_recs[save_lr:]
                del self.frames[-1].returns[save_ret:]
                del loop.breaks[save_br:]
        finally:
            self.loopctx.pop()
        if not self.discover:
            self.record_loop(lid, cnt, idx, line0, test, mus, pre, backs,
                             loop.breaks[save_br:], exit_st, changed, over)
            self.loop_recs[-1].leaves = self.loop_recs[-1].breaks + [
                o.st.copy() for o in self.frames[-1].returns[save_ret:]]
        # partial effects visible when the body raises in a later iteration
        if E is not None:
            local = [k for k in self.diff_keys_local(pre, E, idx)]
            ear = mk('earlier', lid)
            for o in self.raises[save_raises:] + \
                    self.frames[-1].returns[save_ret:] + \
                    loop.breaks[save_br:]:
                for k in local:
                    v1 = self.key_value(k, E)
                    v0 = self.key_value(k, o.st)
                    if v1 is None or v0 is None or v1 is v0:
                        continue
                    self.set_key(k, gamma(ear, v1, v0), o.st)
            if head is not None:
                head.preds = head.preds + (E.node,)
        if test is not None and exit_st is None and E is None:
            return None
        if test is not None and exit_st is None:
            if not self.discover:       # while True: leaves by break only
                self.close_loop(changed, st0, E, E.copy(), mus, cnt, idx,
                                lid, cond)
                self.unending.add(lid)
            return None
        # exit state
        X = (E if E is not None else pre).copy()
        if E is None and test is None:
            X = st0.copy()
            X.pc = st0.pc
            return X
        X.pc = st0.pc
        X.vars = dict(X.vars)
        X.node = head.id if head is not None else X.node
        mine = set(mus.values())
        facts = {}
        for f, p in X.facts.items():
            if contains(f, lambda t: t in mine):
                continue
            if st0.facts.get(f) is p or (
                    test is None and not loop.breaks[save_br:] and
                    contains(f, lambda t: t is idx)):
                facts[f] = p
        X.facts = facts
        if E is not None:
            self.close_loop(changed, st0, E, X, mus, cnt, idx, lid, cond)
        # variables first bound inside the loop
        for n, v in list(X.vars.items()):
            if n not in st0.vars:
                X.vars[n] = v
        return X

    def record_loop(self, lid, cnt, idx, line, test, mus, pre, backs,
                    breaks, exit_st, changed, over):
        """Keep what a termination argument needs: the states at the back
        edges (with the loop test evaluated there) and at the breaks."""
        nn, nr = len(self.nodes), len(self.raises)
        out = []
        for s in backs:
            c = TRUE
            if test is not None:
                try:
                    c = self.cond(test, s)
                except Dead:
                    continue
            out.append((s, c))
        del self.nodes[nn:]
        del self.raises[nr:]
        self.loop_recs.append(LoopRec(
            lid, cnt, idx, self.cur_func(), line, test is not None,
            dict(mus), pre, out, [b.st.copy() for b in breaks],
            exit_st if isinstance(exit_st, State) else None, list(changed),
            over))

    # -- loop-carried locations
    def diff_keys(self, a, b, idx):
        """Locations whose value differs between a and b (not local to
        one element)."""
        out = []
        for n in b.vars:
            if n in a.vars and a.vars[n] is not b.vars[n]:
                out.append(('var', n))
        for i, ((f1, v1), (f2, v2)) in enumerate(zip(a.frames, b.frames)):
            if v1 is not v2:
                for n in v2:
                    if n in v1 and v1[n] is not v2[n]:
                        out.append(('fvar', i, n))
        for oid, o in b.heap.items():
            oa = a.heap.get(oid)
            if oa is o:
                continue
            if oa is None:
                if oid.op == 'new':
                    continue
                oa = self.init_obj(oid)
                if oa is None:
                    continue
            if oid in self.own or contains(oid, lambda t: t is idx):
                continue
            out += self.obj_diff(oid, oa, o)
        for p in b.fs:
            if a.fs.get(p) is not b.fs[p] and not contains(
                    p, lambda t: t is idx):
                out.append(('fs', p))
        return out

    def diff_keys_local(self, a, b, idx):
        out = []
        for oid, o in b.heap.items():
            oa = a.heap.get(oid)
            if oa is o:
                continue
            if oa is None:
                if oid.op == 'new':
                    continue
                oa = self.init_obj(oid)
                if oa is None:
                    continue
            if oid in self.own or contains(oid, lambda t: t is idx):
                out += self.obj_diff(oid, oa, o)
        return out

    def obj_diff(self, oid, oa, o):
        out = []
        if o.kind == 'inst':
            for k, v in o.fields.items():
                w = oa.fields.get(k)
                if w is None and oa.extra == 'sym':
                    w = self.sym_field(oid, k, oa.cls)
                if w is not v:
                    out.append(('field', oid, k))
        elif o.kind == 'list':
            if o.segs != oa.segs:
                out.append(('list', oid))
        else:
            if o.content is not oa.content:
                out.append(('cont', oid))
        return out

    def key_value(self, k, st):
        if k[0] == 'var':
            return st.vars.get(k[1])
        if k[0] == 'fvar':
            return st.frames[k[1]][1].get(k[2])
        if k[0] == 'field':
            return self.get_field(k[1], k[2], st)
        if k[0] == 'cont':
            o = self.obj(k[1], st)
            return o.content if o else None
        if k[0] == 'list':
            o = self.obj(k[1], st)
            return o.segs if o else None
        if k[0] == 'fs':
            return st.fs.get(k[1], mk('file0', k[1]))

    def set_key(self, k, v, st):
        if k[0] == 'var':
            st.vars[k[1]] = v
        elif k[0] == 'fvar':
            fr = list(st.frames)
            fid, vs = fr[k[1]]
            vs = dict(vs)
            vs[k[2]] = v
            fr[k[1]] = (fid, vs)
            st.frames = tuple(fr)
        elif k[0] != 'fs' and self.obj(k[1], st) is None:
            return
        elif k[0] == 'field':
            o = self.obj(k[1], st)
            n = o.clone()
            n.fields[k[2]] = v
            st.heap[k[1]] = n
        elif k[0] == 'cont':
            n = self.obj(k[1], st).clone()
            n.content = v
            st.heap[k[1]] = n
            if n.kind == 'arr':
                self.arr_terms.add(v)
        elif k[0] == 'list':
            n = self.obj(k[1], st).clone()
            n.segs = v
            st.heap[k[1]] = n
        elif k[0] == 'fs':
            st.fs[k[1]] = v

    def kinds_of(self, v, st):
        out = set()
        if v is None or isinstance(v, tuple):
            return out
        for b in branches(v):
            if b is NONE:
                out.add(('none', None))
            elif b is UNDEF:
                pass
            elif b.op == 'ref':
                o = self.obj(b.args[0], st) if st is not None else None
                if o is None:
                    out.add(('opaque', None))
                else:
                    out.add((o.kind, o.cls))
            else:
                out.add(('scalar', None))
        return out

    def alias_targets(self, k, v0, v1, st, idx):
        """Objects existing before an iteration that a loop-carried
        variable may refer to when the iteration starts."""
        out = []
        for v in (v0, v1):
            if v is None or isinstance(v, tuple):
                continue
            for b in branches(v):
                if b.op != 'ref':
                    continue
                oid = b.args[0]
                if contains(oid, lambda t: t is idx):
                    prev = mk('idx', idx.args[0], 'earlier')
                    new = rewrite(oid, lambda t: prev if t is idx else t)
                    for o in subterms(oid):
                        if o in self.symspec and contains(
                                o, lambda t: t is idx):
                            n = rewrite(o, lambda t: prev if t is idx
                                        else t)
                            self.symspec.setdefault(n, self.symspec[o])
                    oid = new
                if self.obj(oid, st) is not None and oid not in out:
                    out.append(oid)
        return out

    def havoc(self, changed, st, lid, ends, carried=None, alias=(),
              idx=None):
        if carried is None:
            carried = {}
        changed = [k for k in changed if k[0] == 'fs' or k[0] in (
            'var', 'fvar') or self.obj(k[1], st) is not None]
        mus = {}
        for n, k in enumerate(changed):
            mu = mk('mu', lid, n)
            mus[k] = mu
            if k[0] != 'list':
                v = self.key_value(k, st)
                if isinstance(v, T):
                    v = self.den(v, st)
                if isinstance(v, T):
                    self.loop_entry[mu] = v
                else:
                    self.loop_entry.pop(mu, None)
            if k[0] == 'cont' and not self.discover:
                o = self.obj(k[1], st)
                if isinstance(o.content, T):
                    self.mu_init.setdefault(mu, []).append(o.content)
            if k[0] == 'list':
                o = self.obj(k[1], st)
                self.set_key(k, o.segs + (('acc', mu),), st)
                continue
            if k[0] in ('cont', 'fs'):
                self.set_key(k, mu, st)
                continue
            v0 = self.key_value(k, st)
            kinds = self.kinds_of(v0, st)
            v1 = ends.get(k)
            ek = getattr(self, '_end_kinds', {}).get((lid, k))
            if v1 is not None and not isinstance(v1, tuple):
                for b in branches(v1):
                    if b is NONE:
                        kinds.add(('none', None))
                    elif b.op == 'ref':
                        t = b.args[0]
                        if t.op == 'new' and t.args[0] == 'arr':
                            kinds.add(('arr', None))
                        elif t.op == 'new' and t.args[0] == 'list':
                            kinds.add(('list', None))
                        elif t.op == 'new' and t.args[0] in \
                                self.repo.classes:
                            kinds.add(('inst',
                                       self.repo.classes[t.args[0]]))
                    else:
                        kinds.add(('scalar', None))
            kinds.discard(('opaque', None))
            opt = ('none', None) in kinds
            rest = {x for x in kinds if x[0] != 'none'}
            v = mu
            if len(rest) == 1:
                kd, cls = next(iter(rest))
                if kd == 'arr':
                    v = self.new_arr(mu, st)
                    carried[v.args[0]] = k
                elif kd == 'list':
                    v = self.new_list_segs((('opaque', mu),), st)
                    carried[v.args[0]] = k
                if k in alias and kd in ('arr', 'list') and idx is not None:
                    for n2, oid in enumerate(self.alias_targets(
                            k, v0, v1, st, idx)):
                        v = gamma(mk('carried', lid, n, n2),
                                  mk('ref', oid), v)
                if kd == 'inst' and cls is not None:
                    self.symspec[mu] = dict(kind='inst', cls=cls)
                    v = mk('ref', mu)
            if opt:
                v = gamma(mk('isnone', mu), NONE, v)
            self.set_key(k, v, st)
        return mus

    def close_loop(self, changed, st0, E, X, mus, cnt, idx, lid, cond):
        changed = [k for k in changed if k in mus]
        mine = set(mus.values())

        def has_mu(t):
            return isinstance(t, T) and contains(t, lambda x: x in mine)
        for k in changed:
            v0 = self.key_value(k, st0)
            v1 = self.key_value(k, E)
            if v1 is None:
                continue
            mu = mus[k]
            if k[0] == 'list':
                base = v0 + (('acc', mu),)
                if v1[:len(base)] == base:
                    app = v1[len(base):]
                    seg = (('map', cnt, idx, app, cond),) if app else ()
                    self.set_key(k, v0 + seg, X)
                else:
                    self.set_key(k, (('lfold', cnt, idx, mu, lid, v0, v1),), X)
                self.folds[(lid, k)] = Fold(cnt, idx, v0, mu, v1, None,
                                            cond)
                continue
            if v0 is None:
                v0 = UNDEF
            d0, d1 = self.den(v0, st0), self.den(v1, E)
            arr = self.is_arr(v0, st0) or self.is_arr(v1, E)
            f = self.fold_term(cnt, idx, d0, mu, d1, mine, lid, X, cond)
            self.folds[(lid, k)] = Fold(cnt, idx, d0, mu, d1, f, cond)
            self.mu_from[mu] = d0
            if k[0] in ('cont', 'fs'):
                self.set_key(k, f, X)
            elif arr:
                self.set_key(k, self.new_arr(f, X), X)
            else:
                if v1.op == 'ref' and d1 is v1 and v1.args[0].op == 'new' \
                        and X.heap.get(v1.args[0]) is not None:
                    self.set_key(k, f if v0 is not v1 else v1, X)
                else:
                    self.set_key(k, f, X)

    def fold_term(self, cnt, idx, v0, mu, v1, mine, lid, st, cond):
        if v1 is mu:
            return v0
        if cond is not TRUE:
            v1 = gamma(cond, v1, mu)
        # element-wise stores
        m = self.mapstore(mu, idx, v1, v0, st)
        if m is not None and not contains(m, lambda x: x in mine):
            if full_len(self, v0, cnt, st):
                return mk('map', cnt, idx, m, TRUE)
            return mk('mapstore', v0, cnt, idx, m)
        reach, todo = set(), [v1]
        while todo:             # through the entry values of inner loops
            for t in subterms(todo.pop()):
                if t.op == 'mu' and t not in reach:
                    reach.add(t)
                    d = self.mu_from.get(t) if t not in mine else None
                    if isinstance(d, T):
                        todo.append(d)
        if not [x for x in mine if x is not mu and x in reach]:
            h = 1 + max([t.args[0] for t in subterms(v1)
                         if t.op == 'bv'] or [0])
            bv = mk('bv', h)
            if not contains(v1, lambda t: t is mu):
                return mk('last', cnt, idx, v0, v1)
            v1 = rewrite(v1, lambda t: bv if t is mu else t)
            return mk('fold', cnt, idx, v0, bv, v1)
        return mk('ofold', cnt, idx, v0, mu, v1, lid)

    def mapstore(self, mu, idx, v1, v0, st):
        if v1.op == 'store' and v1.args[0] is mu and \
                v1.args[1] in (idx, mk('tuple', idx)):
            return v1.args[2]
        if v1.op == 'gamma':
            a = self.mapstore(mu, idx, v1.args[1], v0, st)
            b = self.mapstore(mu, idx, v1.args[2], v0, st)
            old = npmodel.item(self, v0, idx, st)
            if v1.args[1] is mu:
                a = old
            if v1.args[2] is mu:
                b = old
            if a is not None and b is not None and (
                    v1.args[1] is not mu or v1.args[2] is not mu):
                return gamma(v1.args[0], a, b)
        return None

    # ------------------------------------------------------------------- try
    def x_Try(self, s, st):
        base_pc = st.pc
        fr = self.frames[-1]
        saved, sink = self.raises, []
        ret0 = len(fr.returns)
        start = st.copy()
        refused0, mine = len(self.refused), []
        self.raises = sink
        try:
            body = self.exec_block(s.body, st)
        finally:
            self.raises = saved
        if body is not None and s.orelse:
            body = self.exec_block(s.orelse, body)
        per = [[] for _ in s.handlers]
        escaped = []
        for o in sink:
            left = list(o.excs or ['Exception'])
            for i, h in enumerate(s.handlers):
                if h.type is None:
                    hit = list(left)
                else:
                    names = self.exc_names(h.type)
                    hit = [e for e in left if any(
                        self.exc_matches(e, n) for n in names)]
                if hit:
                    per[i].append(Outcome(o.st, o.value, hit, o.node, o.why))
                    left = [e for e in left if e not in hit]
            if left:
                escaped.append(Outcome(o.st, o.value, left, o.node, o.why))
        fin_sink = []
        outer = self.raises
        if s.finalbody:
            self.raises = fin_sink
        self.raises.extend(escaped)
        ends = []
        for h, outs in zip(s.handlers, per):
            if not outs:
                continue
            hs = [Outcome(o.st.copy(), o.value, o.excs) for o in outs]
            if len(hs) == 1:
                m, v = hs[0].st, hs[0].value
                lits = m.pc
            else:
                m, v = self.merge_outcomes(hs, len(base_pc))
                self.foldids += 1
                lits = base_pc + ((mk('caught', self.foldids), True),)
            m.pc = lits
            m.frames, = (m.frames,)
            self.event(m, 'handler', (outs, h))
            fr.exc_stack.append(outs)
            if h.name:
                m.vars[h.name] = v if v is not None else mk('exc', '?')
            self.line = h.lineno
            nret = len(fr.returns)
            r = self.exec_block(h.body, m)
            fr.exc_stack.pop()
            if r is not None:
                ends.append(Outcome(r, None))
            if r is not None or len(fr.returns) > nret:
                # the failures of the body do not end the operation
                del self.refused[refused0:]
                mine = None
            elif mine is not None and not self.discover:
                mine += [o.st.pc for o in outs]
        self.refused += mine or []
        if body is not None:
            ends.append(Outcome(body, None))
        if s.finalbody:
            self.raises = outer
            for o in fin_sink:
                x = self.exec_block(s.finalbody, o.st.copy())
                if x is not None:
                    self.raises.append(Outcome(x, o.value, o.excs, o.node,
                                               o.why))
            rets = fr.returns[ret0:]
            del fr.returns[ret0:]
            for o in rets:
                x = self.exec_block(s.finalbody, o.st.copy())
                if x is not None:
                    fr.returns.append(Outcome(x, o.value, o.excs, o.node))
        if not ends:
            return None
        if len(ends) == 1:
            m = ends[0].st
        else:
            m, _ = self.merge_outcomes(ends, len(base_pc))
            m.pc = base_pc
        if s.finalbody:
            m = self.exec_block(s.finalbody, m)
        return m
    x_TryStar = x_Try

    def exc_names(self, e):
        if isinstance(e, ast.Tuple):
            return [n for x in e.elts for n in self.exc_names(x)]
        if isinstance(e, ast.Name):
            r = self.repo.resolve_expr(e, self.cur_module())
            if r and r[0] == 'gexpr' and isinstance(r[1][1], ast.Tuple):
                return self.exc_names(r[1][1])
            return [e.id]
        if isinstance(e, ast.Attribute):
            return [e.attr]
        return ['Exception']

    def x_With(self, s, st):
        n = len(self.withs)
        try:
            return self.with_body(s, st)
        finally:
            del self.withs[n:]

    def with_body(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if v.op == 'extcall':
                self.withs.append(v.args[0])
            if v.op == 'extcall' and v.args[0] == 'contextlib.suppress':
                t = ast.Try(body=s.body, handlers=[ast.ExceptHandler(
                    type=it.context_expr.args[0] if len(
                        it.context_expr.args) == 1 else ast.Tuple(
                            elts=it.context_expr.args), name=None,
                    body=[ast.Pass()])], orelse=[], finalbody=[])
                ast.copy_location(t, s)
                ast.fix_missing_locations(t)
                return self.x_Try(t, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(s.body, st)

    def x_Match(self, s, st):
        subj = self.eval(s.subject, st)
        self.note('match statement approximated')

        def go(cases, st):
            if not cases:
                return st
            c = cases[0]
            p = c.pattern
            if isinstance(p, ast.MatchValue):
                v = self.eval(p.value, st)
                cnd = npmodel.compare(self, 'Eq', subj, v, st)
            elif isinstance(p, ast.MatchSingleton):
                cnd = mk('isnone', subj) if p.value is None else \
                    npmodel.compare(self, 'Eq', subj, const(p.value), st)
            elif isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    st.vars[p.name] = subj
                cnd = TRUE
            else:
                self.foldids += 1
                cnd = mk('match', self.foldids)
            if c.guard is not None:
                cnd = t_and(cnd, self.cond(c.guard, st))
            d = decide(cnd, st)
            if d is True:
                return self.exec_block(c.body, st)
            if d is False:
                return go(cases[1:], st)
            return self.fork(cnd, st,
                             lambda x: self.exec_block(c.body, x),
                             lambda x: go(cases[1:], x))
        return go(s.cases, st)


def counted(s):
    """`while i < n: ...; i += 1` as (i, n, `for i in range(i, n): ...`,
    `i = max(i before, n)`), if that is the same for integers."""
    if hasattr(s, 'as_for'):
        return s.as_for
    s.as_for = None
    t, last = s.test, s.body[-1]
    if s.orelse or len(s.body) < 2 or not isinstance(t, ast.Compare) or \
            len(t.ops) != 1:
        return None
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        a, b = b, a
    elif not isinstance(t.ops[0], ast.Lt):
        return None
    if not isinstance(a, ast.Name) or not isinstance(
            b, (ast.Name, ast.Constant)):
        return None
    one = None
    if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add):
        one, goal = last.value, last.target
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and \
            isinstance(last.value, ast.BinOp) and isinstance(
            last.value.op, ast.Add) and isinstance(last.value.left, ast.Name):
        one, goal = last.value.right, last.targets[0]
        if last.value.left.id != a.id:
            return None
    if not isinstance(one, ast.Constant) or type(one.value) is not int or \
            one.value != 1 or not isinstance(goal, ast.Name) or \
            goal.id != a.id:
        return None
    fixed = {a.id} | ({b.id} if isinstance(b, ast.Name) else set())
    for x in s.body[:-1]:
        for y in ast.walk(x):
            if isinstance(y, (ast.Break, ast.Continue, ast.Global,
                              ast.Nonlocal)):
                return None
            if isinstance(y, ast.Name) and y.id in fixed and not isinstance(
                    y.ctx, ast.Load):
                return None
    load = lambda i: ast.Name(i, ast.Load())
    call = lambda f, *xs: ast.Call(load(f), list(xs), [])
    loop = ast.For(ast.Name(a.id, ast.Store()), call('range', load(a.id), b),
                   s.body[:-1], [])
    after = ast.Assign([ast.Name(a.id, ast.Store())],
                       call('max', load('#start'), b))
    for x in (loop, after):
        ast.copy_location(x, s)
        ast.fix_missing_locations(x)
    s.as_for = a, b, loop, after
    return s.as_for


def whole(v, st):
    """Certainly an integer?"""
    if v.op in ('add', 'sub', 'mul', 'max', 'min', 'neg'):
        return all(whole(x, st) for x in v.args)
    if v.op == 'item' and v.args[0].op == 'fld':
        return 'shape' in str(v.args[0].args[1])
    return is_int(v) or v.op in ('len', 'idx', 'floordiv') or \
        v.op == 'item' and v.args[0].op == 'shape' or \
        st.facts.get(mk('isint', v)) is True


def full_len(ip, v, cnt, st):
    """Is v an array filled with one value whose first dimension is cnt?"""
    if v.op == 'full':
        sh = v.args[0]
        if sh.op == 'tuple' and sh.args:
            sh = sh.args[0]
        if sh is cnt:
            return True
        if sh.op in ('add',) and sh.args and sh.args[0].op == 'tuple' and \
                sh.args[0].args and sh.args[0].args[0] is cnt:
            return True
        return False
    if v.op == 'full_like':
        return npmodel.length(ip, v.args[0], st) is cnt
    return False
