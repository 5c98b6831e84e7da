"""Attributes, items, sequences and calls (mixin of Interp)."""
import ast
from .terms import *
from .state import *
from .interp_base import *
from . import npmodel
from .poly import diff
from .repo import Func, Cls

IOERR = ['OSError', 'ValueError', 'EOFError', 'UnpicklingError']
STRMETH = {'rjust', 'ljust', 'center', 'join', 'split', 'capitalize',
           'format', 'upper', 'lower', 'title', 'strip', 'replace', 'zfill',
           'startswith', 'endswith', 'rstrip', 'lstrip', 'splitlines',
           'encode', 'count', 'find', 'index', 'isdigit'}
INPLACE_METH = {'sort', 'fill', 'put', 'itemset', 'partition', 'resize',
                'setfield', 'setflags', 'byteswap'}


class Calls:
    # ------------------------------------------------------------ attributes
    def getattr(self, b, name, st):
        b = simp(b, st)
        if b.op == 'gamma' and any(x is NONE for x in branches(b)):
            b = self.require(b, st, 'none-attr', name)
        if b.op == 'gamma':
            return self.split(b, st, lambda x, s: self.getattr(x, name, s))
        if b is NONE:
            self.hazard(st, 'none-attr', b, name)
            raise Dead()
        if b.op == 'module':
            mod = self.repo.modules[b.args[0]]
            if name in mod.names:
                return self.module_name(name, mod, st)
            return mk('ext', b.args[0] + '.' + name)
        if b.op == 'ext':
            from .exprs import EXTCONST
            d = b.args[0] + '.' + name
            return EXTCONST.get(d) or mk('ext', d)
        if b.op == 'class':
            return self.class_attr(b, name, st)
        if b.op == 'enum':
            return self.enum_attr(b, name, st)
        if b.op == 'super':
            cls, selfv, after = self.supers[b.args[0]]
            mro = cls.mro()
            for c in mro[mro.index(after) + 1:]:
                if name in c.methods:
                    f = c.methods[name]
                    if f.kind == 'staticmethod':
                        return self.func_value(f)
                    return mk('bound', selfv, self.func_value(f))
                if name in c.getters:
                    return self.call_func(c.getters[name], [selfv], {}, st)
            return mk('bmeth', b, name)
        if b.op == 'ref':
            return self.ref_attr(b, name, st)
        spec = self.symspec.get(b)
        if spec and spec['kind'] == 'enum':
            m = spec['cls'].find(name)
            if m:
                return mk('bound', b, self.func_value(m))
            return mk('attr', b, name)
        if b.op == 'exc' and name == 'args':
            return mk('tuple', *b.args[1:])
        if name in ('shape', 'T', 'size', 'ndim', 'dtype', 'flat', 'real'):
            return mk(name, b)
        t = mk('bmeth', b, name) if b.op not in (
            'ext', 'opaque') else mk('attr', b, name)
        if name in ('vertices', 'codes') and b.op in ('opaque', 'extcall'):
            t = mk('attr', b, name)     # of a matplotlib Path
            return self.sym(dict(kind='array'), t)
        return t

    def ref_attr(self, b, name, st):
        oid = b.args[0]
        o = self.obj(oid, st)
        if o is None:
            return mk('attr', b, name)
        if o.kind == 'inst':
            cls = o.cls
            if name == '__class__':
                return mk('class', cls.name)
            if name == '__dict__':
                return mk('objdict', b)
            if cls is not None:
                g = cls.find_getter(name)
                if g is not None:
                    return self.call_func(g, [b], {}, st)
            v = o.fields.get(name)
            if v is None and o.extra == 'sym' and cls is not None:
                m = cls.find(name)
                if m is None:
                    v = self.sym_field(oid, name, cls)
                    if v is None:
                        # maybe declared by a subclass / external base
                        for c in self.repo.classes.values():
                            if cls in c.mro():
                                sp = self.repo.field_specs(c).get(name)
                                if sp:
                                    v = self.sym(sp, mk('fld', oid, name))
                                    break
            if v is not None and v is not UNDEF:
                if v.op == 'gamma' and UNDEF in branches(v):
                    v2 = simp(v, st)
                    if v2.op == 'gamma' and v2.args[1] is UNDEF:
                        self.may_raise(st, v2.args[0], ['AttributeError'],
                                       'unset ' + name)
                        v2 = v2.args[2]
                    elif v2.op == 'gamma' and v2.args[2] is UNDEF:
                        self.may_raise(st, t_not(v2.args[0]),
                                       ['AttributeError'], 'unset ' + name)
                        v2 = v2.args[1]
                    v = v2
                return simp(v, st)
            if cls is not None:
                m = cls.find(name)
                if m is not None:
                    if m.kind == 'staticmethod':
                        return self.func_value(m)
                    if m.kind == 'classmethod':
                        return mk('bound', mk('class', cls.name),
                                  self.func_value(m))
                    return mk('bound', b, self.func_value(m))
                c, ex = cls.find_attr(name)
                if ex is not None:
                    return self.entity(('gexpr', (c.module, ex, c.name + '.'
                                                  + name)), st)
            if o.extra == 'sym' or (cls is not None and cls.ext_names()):
                return mk('attr', b, name)
            self.raise_(st, ['AttributeError'], 'no attribute ' + name)
            raise Dead()
        if o.kind == 'arr':
            if name in ('shape', 'size', 'ndim', 'dtype', 'nbytes'):
                if name == 'shape':
                    return npmodel.shape(self, self.den(b, st), st)
                if name == 'size':
                    return mk('np.prod', npmodel.shape(
                        self, self.den(b, st), st))
                return mk(name, self.den(b, st))
            if name == 'T':
                return self.np_view('transpose', b, (), st)
            if name in ('real', 'flat'):
                return b
            return mk('bmeth', b, name)
        return mk('bmeth', b, name)

    def class_attr(self, b, name, st):
        cls = self.repo.classes.get(b.args[0])
        if cls is None:
            return mk('attr', b, name)
        if cls.is_enum and name in cls.attrs:
            return mk('enum', cls.name, name)
        if name == '__name__':
            return const(cls.name)
        m = cls.find(name)
        if m is not None:
            if m.kind == 'classmethod':
                return mk('bound', b, self.func_value(m))
            return self.func_value(m)
        c, ex = cls.find_attr(name)
        if ex is not None:
            return self.entity(('gexpr', (c.module, ex, c.name + '.' +
                                          name)), st)
        return mk('attr', b, name)

    def enum_attr(self, b, name, st):
        cls = self.repo.classes.get(b.args[0])
        if name in ('name', '_name_'):
            return const(b.args[1])
        if name in ('value', '_value_'):
            ex = cls.attrs.get(b.args[1])
            if isinstance(ex, ast.Constant):
                return const(ex.value)
            if isinstance(ex, ast.Call):
                return const(list(cls.attrs).index(b.args[1]) + 1)
            return mk('attr', b, 'value')
        g = cls.find_getter(name)
        if g is not None:
            return self.call_func(g, [b], {}, st)
        m = cls.find(name)
        if m is not None:
            return mk('bound', b, self.func_value(m))
        return mk('attr', b, name)

    def setattr(self, b, name, v, st):
        b = simp(b, st)
        if b.op == 'gamma':
            if any(x is NONE for x in branches(b)):
                b = self.require(b, st, 'none-attr', name)
        if b.op == 'gamma':
            self.split(b, st, lambda x, s: (self.setattr(x, name, v, s),
                                            NONE)[1])
            return
        if b is NONE:
            self.hazard(st, 'none-attr', b, name)
            raise Dead()
        if b.op == 'ref':
            o = self.obj(b.args[0], st)
            if o is not None and o.kind == 'inst':
                if o.cls is not None:
                    s = o.cls.find_setter(name)
                    if s is not None:
                        self.call_func(s, [b, v], {}, st)
                        return
                    if o.cls.find_getter(name) is not None:
                        self.raise_(st, ['AttributeError'], 'read-only')
                        raise Dead()
                    ms = o.cls.find('__setattr__')
                    if ms is not None and not any(
                            f.func is ms for f in self.frames):
                        self.call_func(ms, [b, const(name), v], {}, st)
                        return
                self.write_field(b, name, v, st)
                return
            if o is not None and o.kind == 'arr' and name == 'shape':
                self.event(st, 'write', (b.args[0], ('shape', None), v))
                return
        self.lose(b)
        self.event(st, 'extset', (b, name, v))

    def lose(self, b):
        """A write to (or a mutating call on) an element of a collection
        that is not resolved to an object of the model: everything read
        afterwards may be stale, so the run decides nothing."""
        root = b
        while root.op in ('item', 'elem', 'fld', 'npitem', 'gamma'):
            root = root.args[1 if root.op == 'gamma' else 0]
        if root.op in ('acc', 'lfold', 'segsof', 'mu', 'opaque', 'ofold',
                       'fold', 'seq', 'segs', 'map', 'list'):
            self.lost = self.lost or 'line %s: %s' % (self.line, show(b, 3))

    # ----------------------------------------------------------------- items
    def getitem(self, b, i, st):
        b = simp(b, st)
        i = simp(i, st)
        if b.op == 'gamma' and any(x is NONE for x in branches(b)):
            b = self.require(b, st, 'none-item', '')
        if b.op == 'gamma':
            return self.split(b, st, lambda x, s: self.getitem(x, i, s))
        if b is NONE:
            self.hazard(st, 'none-item', b, '')
            raise Dead()
        if b.op == 'tuple':
            if is_int(i) or i in (TRUE, FALSE):
                k = int(cval(i))
                if -len(b.args) <= k < len(b.args):
                    return b.args[k]
                self.raise_(st, ['IndexError'], 'index')
                raise Dead()
            if i.op == 'slice' and all(x is NONE or is_int(x)
                                       for x in i.args):
                return mk('tuple', *b.args[slice(*[cval(x)
                                                   for x in i.args])])
            return self.select(list(b.args), i, st)
        if b.op == 'ref':
            o = self.obj(b.args[0], st)
            if o is None:
                return mk('item', b, self.den(i, st))
            if o.kind == 'list':
                return self.list_item(b, o, i, st)
            if o.kind == 'arr':
                return self.arr_item(b, o, i, st)
            if o.kind == 'dict':
                return self.dict_item(o.content, i, st)
            if o.kind == 'inst' and o.cls is not None and \
                    o.cls.find('__getitem__'):
                return self.call_func(o.cls.find('__getitem__'), [b, i], {},
                                      st)
        if (is_str(b)) and is_int(i):
            try:
                return const(cval(b)[cval(i)])
            except IndexError:
                raise Dead()
        if is_str(b) and i.op == 'slice' and all(
                x is NONE or is_int(x) for x in i.args):
            return const(cval(b)[slice(*[cval(x) for x in i.args])])
        if b.op == 'class':
            cls = self.repo.classes.get(b.args[0])
            if cls is not None and cls.is_enum and is_str(i):
                return mk('enum', cls.name, cval(i))
        if b.op == 'str' and i.op == 'slice':
            return mk('item', b, i)
        if b.op == 'ext' and b.args[0].split('.')[-1] in (
                'mgrid', 'ogrid', 'r_', 'c_', 's_'):
            return self.new_arr(mk('item', b, self.den(i, st)), st)
        if self.io and npmodel.io_tainted(b):
            self.may_raise(st, mk('iofail', 'item', b, self.den(i, st)),
                           ['IndexError'], 'index of file content')
        r = npmodel.item(self, b, self.den(i, st), st)
        return self.rebox_item(b, r)

    def rebox_item(self, cont, r):
        spec = self.symspec.get(cont)
        if spec and spec.get('elem') and spec['elem'].get('kind') == 'inst':
            return self.sym(spec['elem'], r, opt=False)
        return r

    def select(self, vals, i, st):
        """vals[i] for an index that is not constant."""
        if not vals:
            return self.opaque('select')
        i = self.den(i, st)
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            c = mk('eq', i, const(k))
            d = decide(c, st)
            if d is True:
                r = vals[k]
            elif d is None:
                r = gamma(c, vals[k], r)
        return r

    def dict_item(self, cont, i, st):
        di = self.den(i, st)
        c = cont
        while c.op == 'dstore':
            if c.args[1] is di:
                return c.args[2]
            if not (is_const(c.args[1]) or c.args[1].op == 'enum') or not (
                    is_const(di) or di.op == 'enum'):
                break
            c = c.args[0]
        else:
            pass
        if cont.op == 'dstore':
            # select among exact keys
            keys, c = [], cont
            while c.op == 'dstore':
                keys.append((c.args[1], c.args[2]))
                c = c.args[0]
            if c.op == 'emptydict' and not is_const(di) and all(
                    is_const(k) or k.op == 'enum' for k, _ in keys):
                r = keys[0][1]
                for k, v in keys[1:]:
                    r = gamma(npmodel.compare(self, 'Eq', di, k, st), v, r)
                return r
            if c.op == 'emptydict' and (is_const(di) or di.op == 'enum'):
                self.raise_(st, ['KeyError'], 'key')
                raise Dead()
        self.event(st, 'dictitem', (cont, di))
        return mk('item', cont, di)

    def arr_item(self, b, o, i, st):
        oid = b.args[0]
        cont = self.arr_content(oid, st)
        if self.io and npmodel.io_tainted(cont):
            self.may_raise(st, mk('iofail', 'item', cont, self.den(i, st)),
                           ['IndexError'], 'index of file content')
        di = self.den(i, st)
        if is_int(di):
            n = npmodel.length(self, cont, st)
            if n is not None and is_int(n) and not \
                    -cval(n) <= cval(di) < cval(n):
                self.raise_(st, ['IndexError'], 'index')
                raise Dead()
        if o.elem and o.elem.get('kind') == 'inst' and di.op != 'slice':
            r = npmodel.item(self, cont, di, st)
            if r.op == 'ref':
                return r
            if r.op == 'gamma' and all(x.op in ('ref', 'item')
                                       for x in branches(r)):
                return self.box_elems(r, o.elem)
            return self.box_elems(r, o.elem)
        if self.is_mask(i, di, st):
            return self.new_arr(mk('item', cont, di), st, elem=o.elem)
        r = npmodel.item(self, cont, di, st)
        if r.op == 'ref':
            return r
        rk = npmodel.rank(self, cont, st)
        k = npmodel.nscalar(di)
        if k is not None and (rk is not None and k >= rk or
                              rk is None and k >= 3):
            return r
        if rk is None and k == 1 and cont.op in ('map', 'list', 'mapstore'):
            return r
        if k is None and self.is_arr(i, st):
            return self.new_arr(r, st)
        if not self.view_ok(di):
            return self.new_arr(r, st)
        oid2 = self.fresh('arr')
        st.heap[oid2] = HObj('arr', content=r, base=(oid, ('item', di)),
                             elem=o.elem)
        self.arr_terms.add(r)
        return mk('ref', oid2)

    def box_elems(self, r, elem):
        if r.op == 'gamma':
            return gamma(r.args[0], self.box_elems(r.args[1], elem),
                         self.box_elems(r.args[2], elem))
        if r.op == 'ref':
            return r
        return self.sym(elem, r, opt=False)

    def view_ok(self, di):
        xs = di.args if di.op == 'tuple' else (di,)
        return all(x.op in ('slice', 'const', 'ellipsis', 'idx', 'add',
                            'sub', 'param', 'len', 'fld', 'item', 'mu',
                            'floordiv', 'bv', 'gamma') for x in xs)

    def is_mask(self, i, di, st):
        for x in (di.args if di.op == 'tuple' else (di,)):
            if x.op in BOOL_OPS and x.op != 'truthy' or x.op in (
                    'list', 'invert', 'np.where', 'np.nonzero'):
                return True
        return self.is_arr(i, st) and i.op == 'ref'

    def setitem(self, b, i, v, st):
        b = simp(b, st)
        if b.op == 'gamma' and any(x is NONE for x in branches(b)):
            b = self.require(b, st, 'none-item', '')
        if b.op == 'gamma':
            self.split(b, st, lambda x, s: (self.setitem(x, i, v, s),
                                            NONE)[1])
            return
        if b is NONE:
            self.hazard(st, 'none-item', b, '')
            raise Dead()
        if b.op != 'ref':
            self.lose(b)
            self.event(st, 'write', (b, ('store', self.den(i, st)), v))
            return
        oid = b.args[0]
        o = self.obj(oid, st)
        if o is None:
            return
        di = self.den(i, st)
        if o.kind == 'arr':
            val = v if (o.elem or v.op == 'ref' and self.obj(
                v.args[0], st) is not None and self.obj(
                    v.args[0], st).kind == 'inst') else self.den(v, st)
            self.write_arr(oid, di, val, st)
            if o.elem is None and val.op == 'ref':
                x = self.obj(val.args[0], st)
                n = self.obj(oid, st).clone()
                n.elem = dict(kind='inst', cls=x.cls)
                st.heap[oid] = n
        elif o.kind == 'list':
            n = o.clone()
            segs = o.segs
            if is_int(di) and all(s[0] == 'one' for s in segs) and \
                    -len(segs) <= cval(di) < len(segs):
                l = list(segs)
                l[cval(di)] = ('one', v)
                n.segs = tuple(l)
            elif len(segs) == 1 and segs[0][0] == 'map' and \
                    segs[0][2] is di:
                n.segs = (('map', segs[0][1], di, (('one', v),),
                           segs[0][4]),)
            else:
                n.segs = (('set', mk('segsof', oid, self.segs_den(
                    segs, st)), di, v),)
            st.heap[oid] = n
            self.event(st, 'write', (oid, ('store', di), v))
        elif o.kind == 'dict':
            n = o.clone()
            n.content = mk('dstore', o.content, di, v)
            st.heap[oid] = n
            self.event(st, 'write', (oid, ('store', di), v))
        elif o.kind == 'inst' and o.cls is not None and o.cls.find(
                '__setitem__'):
            self.call_func(o.cls.find('__setitem__'), [b, i, v], {}, st)

    def del_item(self, b, i, st):
        for x in branches(simp(b, st)):
            if x.op != 'ref':
                continue
            o = self.obj(x.args[0], st)
            if o is None:
                continue
            di = self.den(i, st)
            n = o.clone()
            if o.kind == 'list':
                if is_int(di) and all(s[0] == 'one' for s in o.segs) and \
                        -len(o.segs) <= cval(di) < len(o.segs):
                    l = list(o.segs)
                    del l[cval(di)]
                    n.segs = tuple(l)
                else:
                    n.segs = (('del', mk('segsof', x.args[0], self.segs_den(
                        o.segs, st)), di),)
            elif o.kind == 'dict':
                n.content = mk('ddel', o.content, di)
            st.heap[x.args[0]] = n
            self.event(st, 'write', (x.args[0], ('del', di), None))

    # ------------------------------------------------------------- sequences
    def exact_seq(self, v, st):
        """Known elements of a sequence value, or None."""
        if v.op == 'tuple':
            return list(v.args)
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            if o is not None and o.kind == 'list' and all(
                    s[0] == 'one' for s in o.segs):
                return [s[1] for s in o.segs]
            if o is not None and o.kind == 'arr':
                c = self.arr_content(v.args[0], st)
                if c.op == 'list':
                    return list(c.args)
                if c.op == 'tuple':
                    return list(c.args)
            return None
        if v.op == 'list':
            return list(v.args)
        if v.op == 'shape':
            n = npmodel.rank(self, v.args[0], st)
            if n:
                return [npmodel.dim(self, v.args[0], k, st)
                        for k in range(n)]
        if is_str(v):
            return [const(c) for c in cval(v)]
        if v.op == 'class':
            cls = self.repo.classes.get(v.args[0])
            if cls is not None and cls.is_enum:
                return [mk('enum', cls.name, k) for k in cls.attrs]
        if v.op in ('zip', 'enumerate', 'reversed'):
            p = self.iter_plan(v, st)
            if all(x[0] == 'one' for x in p):
                return [x[1] for x in p]
        return None

    def list_segs(self, v, st):
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            if o is not None and o.kind == 'list':
                return o.segs
        return None

    def seq_segs(self, v, st):
        """Segments of any iterable value."""
        s = self.list_segs(v, st)
        if s is not None:
            return s
        out = []
        for p in self.iter_plan(v, st):
            if p[0] == 'one':
                out.append(('one', p[1]))
            elif p[0] == 'sym':
                out.append(('map', p[1], p[2], (('one', p[3](st)),), p[4]))
            else:
                out.append(('opaque', self.den(v, st)))
        return tuple(out)

    def segs_len(self, segs, st):
        n = const(0)
        for s in segs:
            if s[0] == 'one':
                x = const(1)
            elif s[0] == 'map' and s[4] is TRUE and len(s[3]) == 1 and \
                    s[3][0][0] == 'one':
                x = s[1]
            elif s[0] == 'alt':
                a, b = [self.segs_len(x, st) for x in s[2:4]]
                if a is None or b is None:
                    return None
                x = gamma(s[1], a, b)
            else:
                return None
            n = npmodel.binop(self, 'Add', n, x, st)
        return n

    def length(self, v, st):
        if v.op == 'tuple':
            return const(len(v.args))
        if is_str(v):
            return const(len(cval(v)))
        if v.op == 'gamma':
            ns = []
            for x, pol in ((v.args[1], True), (v.args[2], False)):
                o = self.obj(x.args[0], st) if x.op == 'ref' else None
                s, n = st.copy(), None
                if o is not None and o.kind == 'list' and o.extra != 'sym' \
                        and s.assume(v.args[0], pol):
                    n = self.segs_len(self.known_segs(o.segs, s), s)
                ns.append(self.length(x, st) if n is None else n)
            return gamma(v.args[0], *ns)
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            if o is not None and o.kind == 'list':
                if o.extra == 'sym' and o.segs == self.init_obj(
                        v.args[0]).segs:
                    return mk('len', v.args[0])
                n = self.segs_len(o.segs, st)
                if n is not None:
                    return n
                return mk('len', self.den(v, st))
            if o is not None and o.kind == 'arr':
                return npmodel.length(self, self.den(v, st), st)
            if o is not None and o.kind == 'inst' and o.cls is not None \
                    and o.cls.find('__len__'):
                return self.call_func(o.cls.find('__len__'), [v], {}, st)
        return npmodel.length(self, self.den(v, st), st)

    def iter_plan(self, v, st):
        """How to iterate v: list of ('one',x) | ('sym',count,idx,fn,cond)
        | ('alt',c,plan,plan)."""
        v = simp(v, st)
        if v.op == 'gamma':
            if any(x is NONE for x in branches(v)):
                v = self.require(v, st, 'none-iter', '')
        if v.op == 'gamma':
            return [('alt', v.args[0], self.iter_plan(v.args[1], st),
                     self.iter_plan(v.args[2], st))]
        if v is NONE:
            self.hazard(st, 'none-iter', v, '')
            raise Dead()
        if v.op == 'range':
            a, b, s = v.args
            if all(is_int(x) for x in (a, b, s)):
                r = range(cval(a), cval(b), cval(s))
                if len(r) <= 12:
                    return [('one', const(k)) for k in r]
            if a is const(0) and s is const(1):
                cnt = b
                idx = self.idx_for(cnt)
                return [('sym', cnt, idx, lambda s_: idx, TRUE)]
            cnt = mk('rangelen', a, b, s)
            if s is const(1):
                cnt = npmodel.binop(self, 'Sub', b, a, st)
            idx = self.idx_for(cnt)
            step = npmodel.binop(self, 'Mult', idx, s, st)
            val = npmodel.binop(self, 'Add', a, step, st)
            return [('sym', cnt, idx, lambda s_: val, TRUE)]
        if v.op == 'icount':
            cnt = mk('len', v)
            idx = self.idx_for(cnt)
            a = v.args[0] if v.args else const(0)
            b = v.args[1] if len(v.args) > 1 else const(1)
            val = npmodel.binop(self, 'Add', a, npmodel.binop(
                self, 'Mult', idx, b, st), st)
            return [('sym', cnt, idx, lambda s_: val, TRUE)]
        if v.op == 'enumerate':
            return self.plan_zip([('count', v.args[1]), v.args[0]], st)
        if v.op == 'zip':
            return self.plan_zip(list(v.args), st)
        if v.op == 'reversed':
            p = self.iter_plan(v.args[0], st)
            if all(x[0] == 'one' for x in p):
                return p[::-1]
            return [self.reverse_plan(x, v, st) for x in p[::-1]]
        if v.op == 'ref':
            o = self.obj(v.args[0], st)
            if o is not None and o.kind == 'list':
                return self.segs_plan(o.segs, st)
            if o is not None and o.kind == 'arr':
                c = self.arr_content(v.args[0], st)
                return self.content_plan(c, st, o.elem, v)
            if o is not None and o.kind == 'dict':
                seq = self.dict_items(o.content)
                if seq is not None:
                    return [('one', k) for k, _ in seq]
                c = mk('dkeys', o.content)
                return self.content_plan(c, st, None, None)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                m = o.cls.find('__iter__')
                if m:
                    return self.iter_plan(self.call_func(m, [v], {}, st), st)
        seq = self.exact_seq(v, st)
        if seq is not None:
            return [('one', x) for x in seq]
        if v.op == 'ext' or v.op == 'func':
            return []
        return self.content_plan(self.den(v, st), st, None, None)

    def dict_items(self, cont):
        out, c, seen = [], cont, []
        while c.op == 'dstore':
            if c.args[1] not in seen:
                seen.append(c.args[1])
                out.append((c.args[1], c.args[2]))
            c = c.args[0]
        if c.op == 'emptydict':
            return out[::-1]
        return None

    def reverse_plan(self, p, v, st):
        if p[0] == 'sym':
            _, cnt, idx, fn, cond = p
            back = npmodel.binop(self, 'Sub', npmodel.binop(
                self, 'Sub', cnt, const(1), st), idx, st)
            return ('sym', cnt, idx,
                    lambda s: subst_value(fn(s), idx, back),
                    subst_value(cond, idx, back))
        if p[0] == 'alt':
            return ('alt', p[1]) + tuple(
                [self.reverse_plan(x, v, st) for x in q[::-1]]
                for q in p[2:])
        return p

    def idx_for(self, cnt):
        idx = mk('idx', cnt)
        n = sum(1 for x in self.active_idx if x is idx or (
            x.op == 'idx' and x.args[0] is cnt))
        if n:
            idx = mk('idx', cnt, n)
        return idx

    def content_plan(self, c, st, elem, ref):
        if c.op in ('list', 'tuple') and len(c.args) <= 40:
            return [('one', x) for x in c.args]
        if c.op == 'gamma':
            return [('alt', c.args[0],
                     self.content_plan(c.args[1], st, elem, None),
                     self.content_plan(c.args[2], st, elem, None))]
        if c.op == 'seq':
            out = []
            for x in c.args:
                if x.op == 'one':
                    out.append(('one', x.args[0]))
                else:
                    out += self.content_plan(x, st, elem, None)
            return out
        if c.op == 'map':
            cnt, idx, body, cond = c.args
            if body.op != 'multi':
                idx2 = self.idx_for(cnt)
                b2 = body if idx2 is idx else subst_value(body, idx, idx2)
                return [('sym', cnt, idx2, lambda s: b2, cond)]
        cnt = npmodel.length(self, c, st)
        if is_int(cnt) and cval(cnt) <= 12:
            return [('one', self.elem_of(c, const(k), elem, st))
                    for k in range(cval(cnt))]
        idx = self.idx_for(cnt)
        return [('sym', cnt, idx,
                 lambda s: self.elem_of(c, idx, elem, s), TRUE)]

    def elem_of(self, c, idx, elem, st):
        r = npmodel.item(self, c, idx, st)
        if elem and elem.get('kind') == 'inst':
            return self.box_elems(r, elem)
        return self.rebox_item(c, r)

    def segs_plan(self, segs, st):
        out = []
        for s in segs:
            if s[0] == 'one':
                out.append(('one', s[1]))
            elif s[0] == 'map':
                _, cnt, idx, inner, cond = s
                if len(inner) == 1 and inner[0][0] == 'one':
                    v = inner[0][1]
                    idx2 = self.idx_for(cnt)
                    if idx2 is not idx:
                        v = subst_value(v, idx, idx2)
                        v = self.respec(v)
                    out.append(('sym', cnt, idx2, lambda st_, v=v: v, cond))
                elif len(inner) == 1 and inner[0][0] == 'alt':
                    _, c, a, b = inner[0]
                    if len(a) == 1 and a[0][0] == 'one' and not b:
                        out.append(('sym', cnt, idx,
                                    lambda st_, v=a[0][1]: v,
                                    t_and(cond, c)))
                    elif len(b) == 1 and b[0][0] == 'one' and not a:
                        out.append(('sym', cnt, idx,
                                    lambda st_, v=b[0][1]: v,
                                    t_and(cond, t_not(c))))
                    else:
                        out.append(self.opaque_plan(s))
                else:
                    out.append(self.opaque_plan(s))
            elif s[0] == 'alt':
                out.append(('alt', s[1], self.segs_plan(s[2], st),
                            self.segs_plan(s[3], st)))
            elif s[0] == 'acc':
                out.append(self.opaque_plan(s))
            else:
                out.append(self.opaque_plan(s))
        return out

    def opaque_plan(self, s):
        if s[0] == 'opaque' and s[1].op == 'strm':
            t = s[1]
        elif s[0] == 'slice' and any(x.op == 'strm' for x in subterms(s[1])):
            t = mk('item', s[1], s[2])
        else:
            t = self.opaque('seq')
        cnt = mk('len', t)
        idx = self.idx_for(cnt)
        return ('sym', cnt, idx, lambda st: mk('elem', t, idx), TRUE)

    def respec(self, v):
        """A renamed element keeps the type of the generic one."""
        if v.op == 'ref' and v.args[0] not in self.symspec:
            def gen(t):
                return mk('idx', t.args[0]) if t.op == 'idx' else t
            g = rewrite(v.args[0], gen)
            if g in self.symspec:
                self.symspec[v.args[0]] = self.symspec[g]
        return v

    def plan_zip(self, parts, st):
        plans = []
        for p in parts:
            if isinstance(p, tuple) and p[0] == 'count':
                plans.append(p)
            else:
                plans.append(self.iter_plan(p, st))
        real = [p for p in plans if not isinstance(p, tuple)]
        if all(all(x[0] == 'one' for x in p) for p in real):
            n = min(len(p) for p in real) if real else 0
            out = []
            for k in range(n):
                vals = []
                for p in plans:
                    if isinstance(p, tuple):
                        vals.append(npmodel.binop(self, 'Add', p[1],
                                                  const(k), st))
                    else:
                        vals.append(p[k][1])
                out.append(('one', mk('tuple', *vals)))
            return out
        if len(real) == 1 and any(x[0] == 'alt' for x in real[0]) and \
                len(real[0]) == 1:
            _, c, a, b = real[0][0]
            k = [i for i, p in enumerate(plans)
                 if not isinstance(p, tuple)][0]
            mkp = lambda pl: self._zip_plans(
                [pl if i == k else p for i, p in enumerate(plans)], st)
            return [('alt', c, mkp(a), mkp(b))]
        return self._zip_plans(plans, st)

    def _zip_plans(self, plans, st):
        real = [p for p in plans if not isinstance(p, tuple)]
        if not real or any(len(p) != 1 for p in real):
            if len(real) == 1 and real[0] and all(
                    x[0] in ('one', 'sym') for x in real[0]):
                # enumerate over a mixed list
                off = plans[0][1] if isinstance(plans[0], tuple) else \
                    const(0)
                out = []
                for x in real[0]:
                    o = off
                    if x[0] == 'one':
                        out.append(('one', mk('tuple', *[
                            o if isinstance(p, tuple) else x[1]
                            for p in plans])))
                        off = npmodel.binop(self, 'Add', off, const(1), st)
                    else:
                        _, cnt, idx, fn, cond = x
                        out.append(('sym', cnt, idx, lambda s, fn=fn, o=o,
                                    idx=idx: mk('tuple', *[
                                        npmodel.binop(self, 'Add', o, idx, s)
                                        if isinstance(p, tuple) else fn(s)
                                        for p in plans]), cond))
                        off = npmodel.binop(self, 'Add', off, cnt, st)
                return out
            t = self.opaque('zip')
            cnt = mk('len', t)
            idx = self.idx_for(cnt)
            return [('sym', cnt, idx, lambda s: mk('tuple', *[
                mk('elem', t, idx, const(k)) for k in range(len(plans))]),
                TRUE)]
        syms = [p[0] for p in real]
        if any(x[0] == 'alt' for x in syms):
            i = [k for k, p in enumerate(plans) if not isinstance(p, tuple)
                 and p[0][0] == 'alt'][0]
            _, c, a, b = plans[i][0]
            return [('alt', c, self._zip_plans(
                plans[:i] + [a] + plans[i + 1:], st), self._zip_plans(
                    plans[:i] + [b] + plans[i + 1:], st))]
        if any(x[0] != 'sym' for x in syms):
            t = self.opaque('zip')
            return [('sym', mk('len', t), self.idx_for(mk('len', t)),
                     lambda s: mk('elem', t), TRUE)]
        cnt, idx = syms[0][1], syms[0][2]
        cond = t_and(*[x[4] for x in syms])

        def fn(s):
            vals = []
            for p in plans:
                if isinstance(p, tuple):
                    vals.append(npmodel.binop(self, 'Add', p[1], idx, s)
                                if p[1] is not const(0) else idx)
                else:
                    x = p[0]
                    v = x[3](s)
                    if x[2] is not idx:
                        v = self.respec(subst_value(v, x[2], idx))
                    vals.append(v)
            return mk('tuple', *vals)
        return [('sym', cnt, idx, fn, cond)]

    # ------------------------------------------------------------- list ops
    def known_segs(self, segs, st):
        """Segments with the alternatives decided in this state resolved."""
        out = []
        for s in segs:
            if s[0] == 'alt':
                d = decide(s[1], st)
                if d is not None:
                    out += self.known_segs(s[2] if d else s[3], st)
                    continue
            elif s[0] == 'map':
                s = s[:3] + (self.known_segs(s[3], st),) + s[4:]
                if not s[3]:
                    continue
            out.append(s)
        return tuple(out)

    def same_count(self, a, b, st):
        """Two lengths a validated shape comparison found equal."""
        for t, pol in list(st.facts.items()) + list(st.pc):
            if (t.op == 'shapesdiffer' and not pol) or \
                    (t.op == 'eq' and pol):
                ns = [mk('len', x.args[0]) if x.op == 'shape' else
                      x.args[0] if x.op == 'tuple' and len(x.args) == 1
                      else None for x in t.args]
                if a in ns and b in ns:
                    return True
        return False

    def list_item(self, b, o, i, st):
        di = self.den(i, st)
        segs = self.known_segs(o.segs, st)
        if di.op == 'slice':
            lo, hi, stp = di.args
            if all(s[0] == 'one' for s in segs) and all(
                    x is NONE or is_int(x) for x in di.args):
                return self.new_list_segs(
                    segs[slice(*[cval(x) for x in di.args])], st)
            if hi is NONE and stp is NONE and segs:
                # x[-n:] with n the length of the last segment(s)
                for k in range(len(segs) - 1, -1, -1):
                    n = self.segs_len(segs[k:], st)
                    if n is None:
                        break
                    if lo.op == 'neg' or is_int(lo):
                        m = npmodel.unop(self, 'USub', lo, st)
                    else:
                        m = None
                    if lo is npmodel.unop(self, 'USub', n, st) or \
                            m is not None and self.same_count(m, n, st):
                        return self.new_list_segs(segs[k:], st)
                for k in range(0, len(segs) + 1):
                    n = self.segs_len(segs[:k], st)
                    if n is not None and (lo is n or
                                          self.same_count(lo, n, st)):
                        return self.new_list_segs(segs[k:], st)
            if lo is NONE and hi is NONE and stp is NONE:
                return self.new_list_segs(segs, st)
            a = 0 if lo is NONE else cval(lo) if is_int(lo) else None
            z = 0 if hi is NONE else cval(hi) if is_int(hi) else None
            if len(segs) == 1 and segs[0][0] == 'map' and stp in (
                    NONE, const(1)) and a is not None and a >= 0 and \
                    z is not None and z <= 0 and (hi is NONE or z) and \
                    segs[0][4] is TRUE and len(segs[0][3]) == 1 and \
                    segs[0][3][0][0] == 'one':
                _, cnt, idx, inner, cond = segs[0]
                n = npmodel.binop(self, 'Sub', cnt, const(a - z), st)
                i2 = self.idx_for(n)
                v = inner[0][1]
                v2 = self.respec_as(subst_value(v, idx, npmodel.binop(
                    self, 'Add', i2, const(a), st)), v)
                return self.new_list_segs(
                    (('map', n, i2, (('one', v2),), TRUE),), st)
            return self.new_list_segs((('slice', mk(
                'segsof', self.segs_den(segs, st)), di),), st)
        if is_int(di):
            k = cval(di)
            if all(s[0] == 'one' for s in segs):
                if -len(segs) <= k < len(segs):
                    return segs[k][1]
                self.raise_(st, ['IndexError'], 'index')
                raise Dead()
            if k >= 0 and all(s[0] == 'one' for s in segs[:k + 1]) and \
                    len(segs) > k:
                return segs[k][1]
            if k < 0 and all(s[0] == 'one' for s in segs[k:]) and \
                    len(segs) >= -k:
                return segs[k][1]
        if all(s[0] == 'one' for s in segs):
            return self.select([s[1] for s in segs], di, st)
        if segs and di.op == 'add' and segs[-1][0] == 'map' and len(
                segs[-1][3]) == 1 and segs[-1][3][0][0] == 'one' and \
                segs[-1][4] is TRUE:
            # x[len(x) - n + i], i below n, the length of the last segment
            _, n, idx, inner, _ = segs[-1]
            size, di = self.segs_len(segs, st), deep_simp(di, st)
            for i in {t for t in subterms(di) if t.op == 'idx'}:
                if size is not None and self.same_count(i.args[0], n, st):
                    d = diff(npmodel.binop(self, 'Add', di, i.args[0], st),
                             npmodel.binop(self, 'Add', size, i, st))
                    if d is not None and not any(d.values()):
                        v = inner[0][1]
                        if any(i is x for x in self.active_idx):
                            self.own |= {o for o in self.made_by(v)
                                         if idx in self.made.get(o, ())}
                        return self.respec_as(subst_value(v, idx, i), v)
        if len(segs) == 1 and segs[0][0] == 'map' and len(
                segs[0][3]) == 1 and segs[0][3][0][0] == 'one' and \
                segs[0][4] is TRUE:
            v = segs[0][3][0][1]
            if di is segs[0][2]:
                return v
            v2 = subst_value(v, segs[0][2], di)
            return self.respec_as(v2, v)
        return mk('item', self.den(b, st), di)

    def respec_as(self, v2, v):
        if v2.op == 'ref' and v.op == 'ref' and \
                v.args[0] in self.symspec:
            self.symspec.setdefault(v2.args[0], self.symspec[v.args[0]])
        elif v2.op == 'gamma' and v.op == 'gamma':
            self.respec_as(v2.args[1], v.args[1])
            self.respec_as(v2.args[2], v.args[2])
        return v2

    def list_append(self, ref, v, st, quiet=False):
        oid = ref.args[0]
        o = self.obj(oid, st)
        n = o.clone()
        n.segs = o.segs + (('one', v),)
        st.heap[oid] = n
        self.event(st, 'write', (oid, ('append', None), v))

    def list_extend(self, ref, v, st):
        oid = ref.args[0]
        segs = self.seq_segs(v, st)
        o = self.obj(oid, st)
        n = o.clone()
        n.segs = o.segs + tuple(segs)
        st.heap[oid] = n
        self.event(st, 'write', (oid, ('append', None), self.den(v, st)))

    # ----------------------------------------------------------------- calls
    def call_expr(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in st.vars:
            return self.make_super(e, st)
        f = self.eval(e.func, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                v = simp(v, st)
                if any(x is NONE for x in branches(v)):
                    v = self.require(v, st, 'none-iter', '')
                seq = self.exact_seq(v, st)
                if seq is None:
                    args.append(mk('star', v))
                else:
                    args += seq
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st)
                if v.op == 'ref':
                    o = self.obj(v.args[0], st)
                    if o is not None and o.kind == 'dict':
                        it = self.dict_items(o.content)
                        if it is not None:
                            for kk, vv in it:
                                if is_str(kk):
                                    kwargs[cval(kk)] = vv
                            continue
                kwargs['**'] = v
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        self.line = e.lineno
        return self.call(f, args, kwargs, st)

    def make_super(self, e, st):
        fr = self.frames[-1]
        fn = fr.func
        if fn is None or fn.cls is None:
            return self.opaque('super')
        a = fn.node.args.posonlyargs + fn.node.args.args
        selfv = st.vars.get(a[0].arg) if a else None
        cls = fn.cls
        if selfv is not None and selfv.op == 'ref':
            o = self.obj(selfv.args[0], st)
            if o is not None and o.cls is not None:
                cls = o.cls
        elif selfv is not None and selfv.op == 'class':
            cls = self.repo.classes.get(selfv.args[0], cls)
        k = len(self.supers)
        self.supers[k] = (cls, selfv, fn.cls)
        return mk('super', k)

    def call(self, f, args, kwargs, st):
        f = simp(f, st)
        if f.op == 'gamma':
            return self.split(f, st, lambda x, s: self.call(
                x, args, kwargs, s))
        if f.op == 'bound':
            return self.call_func(self.funcs[f.args[1].args[0]],
                                  [f.args[0]] + args, kwargs, st)
        if f.op == 'func':
            return self.call_func(self.funcs[f.args[0]], args, kwargs, st)
        if f.op == 'closure':
            return self.call_closure(f, args, kwargs, st)
        if f.op == 'class':
            return self.construct(f, args, kwargs, st)
        if f.op == 'bmeth':
            return npmodel.method(self, f.args[0], f.args[1], args, kwargs,
                                  st)
        if f.op == 'ext':
            return npmodel.ext_call(self, f.args[0], args, kwargs, st)
        if f.op == 'attrgetter':
            v = args[0]
            for p in cval(f.args[0]).split('.'):
                v = self.getattr(v, p, st)
            return v
        if f.op == 'methodcaller':
            return self.call(self.getattr(args[0], cval(f.args[0]), st),
                             list(f.args[1:]), {}, st)
        if f.op == 'partial':
            kw = {a.args[0]: a.args[1] for a in f.args[2].args}
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1].args) + args, kw, st)
        if f is NONE:
            self.hazard(st, 'none-call', f, '')
            raise Dead()
        if f.op == 'ref':
            o = self.obj(f.args[0], st)
            if o is not None and o.kind == 'inst' and o.cls is not None and \
                    o.cls.find('__call__'):
                return self.call_func(o.cls.find('__call__'), [f] + args,
                                      kwargs, st)
        if f.op == 'attr':
            return npmodel.method(self, f.args[0], f.args[1], args, kwargs,
                                  st)
        self.note('opaque call %s' % show(f, 3))
        self.event(st, 'opaquecall', (f, tuple(args)))
        return self.opaque('call', self.den(f, st))

    def construct(self, f, args, kwargs, st):
        cls = self.repo.classes.get(f.args[0])
        if cls is None:
            return self.opaque('new')
        if cls.is_enum:
            return mk('enumof', cls.name, self.den(args[0], st)
                      if args else NONE)
        mro = self.exc_mro(cls.name) if cls.ext_names() else []
        if 'Exception' in mro or 'BaseException' in mro:
            return mk('exc', cls.name, *[self.den(a, st) for a in args])
        ref = self.new_inst(cls, st)
        init = cls.find('__init__')
        self.event(st, 'new', (ref, cls.name))
        if init is not None:
            self.call_func(init, [ref] + args, kwargs, st)
            self.event(st, 'built', (ref, st.copy()))
        else:
            # dataclass style: annotated class fields in order
            names = [n.target.id for c in reversed(cls.mro())
                     for n in c.node.body if isinstance(n, ast.AnnAssign)
                     and isinstance(n.target, ast.Name)]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for n in names:
                if n in vals:
                    self.write_field(ref, n, vals[n], st)
                else:
                    c, ex = cls.find_attr(n)
                    if ex is not None:
                        self.write_field(ref, n, self.entity(
                            ('gexpr', (c.module, ex, c.name + '.' + n)), st),
                            st)
            post = cls.find('__post_init__')
            if post is not None:
                self.call_func(post, [ref], {}, st)
        return ref

    def bind_args(self, node, args, kwargs, defaults, kwdefaults, st, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if any(x.op == 'star' for x in args):
            k = [i for i, x in enumerate(args) if x.op == 'star'][0]
            v = args[k].args[0]
            need = len(pos) - k - (len(args) - k - 1)
            taken = sum(1 for p in pos[k:] if p in kwargs)
            need -= taken
            d = self.den(v, st)
            if self.io and npmodel.io_tainted(d):
                self.may_raise(st, mk('iofail', 'star', d), ['TypeError'],
                               'argument unpacking')
            vals = [self.getitem(v, const(i), st)
                    for i in range(max(0, need))]
            args = args[:k] + vals + args[k + 1:]
        for p, v in zip(pos, args):
            env[p] = v
        if a.vararg is not None:
            env[a.vararg.arg] = mk('tuple', *args[len(pos):])
        elif len(args) > len(pos):
            self.raise_(st, ['TypeError'], 'too many arguments')
            raise Dead()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            oid = self.fresh('dict')
            c = mk('emptydict')
            for k, v in extra.items():
                c = mk('dstore', c, const(k), v)
            st.heap[oid] = HObj('dict', content=c)
            env[a.kwarg.arg] = mk('ref', oid)
        dpos = pos[len(pos) - len(a.defaults):] if a.defaults else []
        for p, d in zip(dpos, defaults):
            if p not in env:
                env[p] = d() if callable(d) else d
        for p, d in zip(kwonly, kwdefaults):
            if p not in env and d is not None:
                env[p] = d() if callable(d) else d
        for p in pos + kwonly:
            if p not in env:
                if '**' in kwargs:
                    env[p] = self.opaque('arg')
                else:
                    self.raise_(st, ['TypeError'], 'missing argument ' + p)
                    raise Dead()
        return env

    def call_func(self, fn, args, kwargs, st):
        self.stats['calls'] += 1
        self.calls.add((self.cur_func().qual if self.frames and
                        self.cur_func() else None, fn.module.name + ':' +
                        fn.qual))
        hook = self.hooks.get(fn.module.name + ':' + fn.qual) or \
            self.hooks.get(fn.qual)
        if hook is not None:
            r = hook(self, fn, args, kwargs, st)
            if r is not None:
                return r
        if self.prim and fn.module.name.split('.')[-1] == 'validate' and \
                fn.name in CHECKS and fn.cls is None:
            return npmodel.check(self, fn, args, kwargs, st)
        depth = sum(1 for f in self.frames if f.func is fn)
        if depth >= 3 or len(self.frames) > self.max_depth:
            self.note('recursion cut at ' + fn.qual)
            return self.opaque('rec', const(fn.qual))
        node = fn.node
        mod = fn.module

        def dflt(ex):
            return lambda: self.in_module(ex, mod, st)
        env = self.bind_args(node, args, kwargs,
                             [dflt(d) for d in node.args.defaults],
                             [None if d is None else dflt(d)
                              for d in node.args.kw_defaults], st, fn.name)
        for w in node.args.args:
            pass
        return self.run_body(fn, node, env, mod, None, st)

    def in_module(self, ex, mod, st):
        fr = Frame(0, None, mod)
        fr.yields = None
        self.frames.append(fr)
        line = self.line
        saved = st.vars
        try:
            st.vars = {}
            return self.eval(ex, st)
        finally:
            st.vars = saved
            self.frames.pop()
            self.line = line

    def run_body(self, fn, node, env, mod, closure, st):
        self.fids += 1
        fr = Frame(self.fids, fn, mod)
        fr.closure = closure
        nonlocals, globals_, yields = shape_of(node)
        fr.nonlocals |= nonlocals
        fr.globals_ |= globals_
        fr.yields = None
        if yields and not isinstance(node, ast.Lambda):
            fr.yields = self.new_list([], st)
        caller_fid = self.frames[-1].fid if self.frames else 0
        line = self.line
        base_pc = st.pc
        base_len = len(base_pc)
        st.frames = st.frames + ((caller_fid, st.vars),)
        st.vars = dict(env)
        st.touched = {}
        raise0 = len(self.raises)
        self.frames.append(fr)
        body_st = st.copy()
        try:
            if isinstance(node, ast.Lambda):
                try:
                    v = self.eval(node.body, body_st)
                    fr.returns.append(Outcome(body_st, v))
                except Dead:
                    pass
            else:
                end = self.exec_block(node.body, body_st)
                if end is not None:
                    fr.returns.append(Outcome(end, NONE))
        finally:
            self.frames.pop()
            self.line = line
            for o in self.raises[raise0:]:
                if len(o.st.frames) and len(o.st.frames) > len(
                        st.frames) - 1:
                    o.st.vars = dict(
                        o.st.frames[len(st.frames) - 1][1])
                    o.st.frames = o.st.frames[:len(st.frames) - 1]
        nf = len(st.frames) - 1
        if not fr.returns:
            caller_vars = st.frames[nf][1]
            st.vars = dict(caller_vars)
            st.frames = st.frames[:nf]
            raise Dead()
        rst, v = self.merge_outcomes(fr.returns, base_len)
        if len(fr.returns) > 1:
            rst.pc = common_all([o.st.pc for o in fr.returns], base_pc)
        if fr.yields is not None:
            v = fr.yields
        rst.vars = dict(rst.frames[nf][1])
        rst.frames = rst.frames[:nf]
        st.become(rst)
        return v

    def call_closure(self, f, args, kwargs, st):
        node, mod, fid, func = self.closures[f.args[0]]
        if sum(1 for fr in self.frames if getattr(fr, 'cl', None) is f) > 2:
            return self.opaque('rec')
        dfl, kwd = self.closure_defaults[f.args[0]]
        env = self.bind_args(node, args, kwargs, dfl, kwd, st, 'closure')
        nm = getattr(node, 'name', '<lambda>')
        fake = Func.__new__(Func)
        fake.node, fake.module, fake.cls = node, mod, None
        fake.kind, fake.name = 'closure', (func.name + '.' if func else
                                           '') + nm
        if func is not None and func.cls is not None:
            fake.cls = func.cls
        return self.run_body(fake, node, env, mod, fid, st)


def common_all(pcs, base):
    c = pcs[0]
    for p in pcs[1:]:
        c = common(c, p)
    return c if len(c) >= len(base) else base


def subst_value(v, a, b):
    return rewrite(v, lambda t: b if t is a else t)


def shape_of(node):
    """Outer names a function declares, and whether it is a generator."""
    got = getattr(node, '_shape_of', None)
    if got is None:
        names, outer, yields = set(), set(), False
        for x in ast.walk(node):
            if isinstance(x, ast.Nonlocal):
                names |= set(x.names)
            elif isinstance(x, ast.Global):
                outer |= set(x.names)
            elif isinstance(x, (ast.Yield, ast.YieldFrom)):
                yields = True
        got = node._shape_of = (names, outer, yields)
    return got
