"""Fault injection into the abstract file system. A symbolic object is saved
(as for the round trip, C09); then, for every file the save wrote, the file is
taken away, made unreadable, or given content that does not form a valid
object, and the load is executed symbolically. It must end in the load error
on every path."""
from ..common import *
from ..extmodel import ABSENT
from .c09 import Trip, names_of, CUBES, branches

ALLOWED = ('LoadError',)
# content of a file, of unknown kind
GARBAGE = mk('file0', mk('root', 'garbage'))


def check(ctx):
    repo = ctx.repo
    for n in ('GridParameters', 'GridProperty', 'GridGradient',
              'GridDiagnostics', 'ShallotGrid', 'LoadError'):
        ctx.anchor(n in repo.classes, 'class ' + n)
    maps = names_of(ctx, repo)
    Faults(ctx, 'GridParameters').go()
    Faults(ctx, 'GridDiagnostics').go()
    Faults(ctx, 'GridProperty').go()
    Faults(ctx, 'GridGradient', scaled=True).go()
    Faults(ctx, 'ShallotGrid', n=1, scaled=True, eclipse=True, diag=True,
           maps=maps).go()
    Faults(ctx, 'ShallotGrid', n=2, scaled=True, eclipse=True, diag=False,
           maps=maps).go(few=True)
    Faults(ctx, 'ShallotGrid', n=None, scaled=False, eclipse=True, diag=True,
           maps=maps).go(few=True)
    told(ctx, repo)


def base(p):
    """Last component of a path, with symbolic parts shown."""
    t = []
    for x in p.args if p.op == 'str' else (p,):
        t.append(cval(x) if is_str(x) else '*')
    parts = ''.join(t).split('/')
    return parts[-1], parts


def opaque(t):
    return any(x.op == 'opaque' for x in subterms(t))


class Faults(Trip):
    def go(self, few=False):
        ctx, ip, st, cls = self.ctx, self.ip, self.st, self.cls
        self.where = self.name + self.text
        for ref in [self.saved] + [
                self.get(self.saved, f) for f in CUBES
                if self.name == 'ShallotGrid']:
            self.some(ref, 'mask', True)
        save = cls.find('save')
        if self.name == 'GridGradient':
            save = cls.find('save_gradient') or save
        load = cls.find('load')
        ctx.anchor(save is not None and load is not None,
                   self.name + '.save/load')
        self.line, self.load = load.node.lineno, load
        v, raised = call_in(ip, save, [self.saved, self.dir], {}, st)
        place = self.place() if v is not None else None
        if v is None or ip.lost or place is None:
            ctx.open('fails', self.where, ip.lost or 'save not resolved')
            return
        self.args = [mk('class', self.name), place]
        for a in load.node.args.args[2:]:
            x = self.get(self.saved, a.arg) \
                if a.arg in ('name', 'unit') else None
            if x is None:
                break
            self.args.append(x)
        # what may happen when nothing is wrong
        y, out = self.attempt({})
        if y is None:
            ctx.open('fails', self.where, 'load of the save not resolved')
            return
        self.normal = {o.why for o in out}
        files = [p for p, c in st.fs.items()
                 if c is not ABSENT and not self.is_dir(c) and
                 self.below(p, place)]
        ctx.anchor(files, 'files written by %s.save' % self.name)
        for p in files:
            if few and not self.part(p):
                continue
            self.fault(p, 'missing', ABSENT)
            self.fault(p, 'unreadable', mk('broken', p))
            for text, c in self.values(p) if not few else ():
                self.fault(p, text, c)
            if not few:
                self.examined(p)
        self.folders(files, place)
        if self.name == 'ShallotGrid' and not few:
            # of a grid saved while it was built
            p = self.ip.concat([place, const('/y_value.npy')])
            self.fault(p, 'unreadable', mk('broken', p))

    def folders(self, files, place):
        """Whole folders that other files refer to are taken away."""
        low = len(base(place)[1])
        gone = {}
        for p in files:
            b, parts = base(p)
            for k in range(low + 1, len(parts)):
                gone.setdefault(tuple(parts[:k]), []).append(p)
        for d, ps in gone.items():
            if len(d) == low + 1 or len(ps) == len(files):
                continue        # a part the save does not have then
            f = {p: ABSENT for p in ps}
            for p in self.st.fs:
                if tuple(base(p)[1][:len(d)]) == d:
                    f[p] = ABSENT
            self.fault(ps[0], 'missing with its folder', ABSENT, f)

    def part(self, p):
        """Does the file concern a part that depends on the configuration?"""
        b, parts = base(p)
        return len(parts) > 2 or b.startswith('eclipse')

    def is_dir(self, c):
        return any(x.op == 'dir' for x in branches(c))

    def below(self, p, place):
        """Is the file one that a load from there concerns?"""
        b, parts = base(p)
        return len(parts) > len(base(place)[1]) or place.op != 'str'

    def attempt(self, faults):
        ip, s = self.ip, self.st.copy()
        for p, c in faults.items():
            s.fs[p] = c
        ip.lost = None
        y, out = call_in(ip, self.load, list(self.args), {}, s)
        self.state = s
        return y, out

    def optional(self, p):
        """May a save leave out just this file?"""
        b, parts = base(p)
        if b.endswith('_mask.npy') or b.startswith('mask_values') or \
                b.startswith('extended'):
            return True     # the last: older saves do not have it
        return b.startswith('eclipse_parameters') and self.n is None

    def values(self, p):
        """Contents of a wrong length, or with values out of bounds."""
        b, parts = base(p)
        stem = b.rsplit('.', 1)[0]
        num = lambda *v: mk('list', *[const(x) for x in v])
        if stem == 'max_yx':
            yield 'three numbers', num(2, 3, 4)
            yield 'one number', num(2)
            yield 'negative numbers', num(-2, 3)
            yield 'a negative number', num(2, -3)
        elif stem == 'num_fxfy':
            yield 'zero', num(0)
        elif stem == 'eclipse_parameters':
            yield 'two numbers', num(1.0, 2.0)
            yield 'four numbers', num(1.0, 2.0, 0.5, 1.0)
            yield 'a negative duration', num(-1.0, 1.0, 0.5)
            yield 'a negative velocity', num(1.0, -1.0, 0.5)
            yield 'a limb darkening above one', num(1.0, 1.0, 1.5)
        elif stem == 'mask_values':
            yield 'two numbers', num(0.1, 1.0)
            yield 'three numbers', num(0.1, 1.0, 0.5)
            yield 'five numbers', num(0.1, 1.0, 0.5, 0.1, 0.1)
            yield 'a negative gradient', num(-0.1, 1.0, 0.5, 0.1)
            yield 'a negative scale', num(0.1, -1.0, 0.5, 0.1)
            yield 'a transmission change above one', num(0.1, 1.0, 1.5, 0.1)
            yield 'a negative error', num(0.1, 1.0, 0.5, -0.1)

    def required(self, p):
        """What content of unknown kind has to be examined for: text, and
        which conditions do so."""
        b, parts = base(p)
        stem = b.rsplit('.', 1)[0]
        op = lambda *ops: lambda t: t.op in ops and GARBAGE in subterms(
            t.args[0])
        at = lambda i, *ops: lambda t: t.op in ops and any(
            x.op in ('item', 'elem') and (
                x.args[1] is const(i) if x.args[0] is GARBAGE and
                is_int(x.args[1]) else GARBAGE in subterms(x.args[0]))
            for a in t.args if isinstance(a, T) for x in subterms(a))
        dtype = ('another data type', op('notdtype'))
        shape = ('another shape', lambda t: t.op == 'shapesdiffer' and any(
            GARBAGE in subterms(a) for a in t.args))
        own = self.name != 'ShallotGrid'
        if stem in ('fy_dict', 'disk_radius_dict') and own:
            yield 'another type', op('notisa')
        elif stem == 'max_yx' and own:
            for i in (0, 1):
                yield 'entry %d not an integer' % i, lambda t, i=i: (
                    at(i, 'notnum')(t) and t.args[1] is True)
        elif stem == 'num_fxfy':
            yield 'not an integer', lambda t: (
                at(0, 'notnum')(t) and t.args[1] is True)
        elif stem in ('eclipse_parameters', 'mask_values') and (
                own or stem == 'eclipse_parameters'):
            for i in range(3 + (stem == 'mask_values')):
                yield 'entry %d not a number' % i, at(i, 'notnum')
                yield 'entry %d NaN' % i, at(i, 'isnan')
        elif stem == 'position' and own:
            yield 'not a number', at(0, 'notnum')
            yield 'NaN', at(0, 'isnan')
        elif stem.endswith('_mask') and own:
            yield dtype
            yield shape
        elif stem in ('rf', 'rf_array', 'dx', 'dy') and \
                self.name == 'GridParameters':
            yield dtype
            yield ('values out of bounds', op('arrout'))
            if stem.startswith('rf'):
                yield 'another rank', op('notrank')
            if stem == 'rf_array':
                yield ('another rf', lambda t: t.op == 'np.array_equal')
        elif own and ('*_*' in stem or stem.isupper()):
            yield dtype
            yield shape

    def examined(self, p):
        """Is content of unknown kind examined for what it has to be?"""
        ctx, ip = self.ctx, self.ip
        need = list(self.required(p))
        if not need:
            return
        b, parts = base(p)
        rel = '/'.join(parts[1:]) or b
        key = '%s: %s' % (self.name, rel)
        conds, mark, may = [], len(ip.nodes), ip.may_raise

        def noted(st, cond, excs, why):
            conds.append((cond, isinstance(why, tuple) and
                          why[:1] == ('check',)))
            return may(st, cond, excs, why)
        ip.may_raise = noted
        try:
            y, out = self.attempt({p: GARBAGE})
        finally:
            del ip.may_raise
        conds += [(n.data[0], False) for n in ip.nodes[mark:]
                  if n.kind == 'branch']
        about = [(t, c) for t, c in conds if GARBAGE in subterms(t)]
        if ip.lost:
            ctx.open('checked', key, ip.lost)
            return
        for o in out:
            if o.why in self.normal or set(o.excs or ()) <= set(ALLOWED):
                continue
            t = o.st.pc[-1][0] if o.st.pc else TRUE
            if GARBAGE not in subterms(t):
                continue
            if (t, True) in about:
                ctx.bad('leak', key + ' of another kind',
                        '%s: ends in %s' % (self.where, '/'.join(
                            o.excs or ['an exception'])), self.line_of(o))
            else:
                ctx.open('leak', key, 'raise not resolved')
            return
        other = [t for t, c in about if not c and not any(
            x.op in ('iofail', 'exists') for x in subterms(t))]
        other += [t for t, c in conds if opaque(t)]
        for text, match in need:
            k = '%s: %s' % (key, text)
            if any(match(x) for t, c in about for x in subterms(t)):
                ctx.ok('checked', k)
            elif other or y is None or y.op == 'opaque':
                ctx.open('checked', k, 'examined in another way')
            else:
                ctx.bad('checked', k, '%s: this content is taken over '
                        'without a check' % self.where, self.line)

    def fault(self, p, text, content, faults=None):
        ctx = self.ctx
        b, parts = base(p)
        rel = '/'.join(parts[1:]) or b
        key = '%s: %s %s' % (self.name, rel, text)
        mark = len(self.ip.nodes)
        y, out = self.attempt(faults or {p: content})
        murky = any(opaque(n.data[0]) for n in self.ip.nodes[mark:]
                    if n.kind == 'branch')
        if self.ip.lost:
            ctx.open('fails', key, self.ip.lost)
            return
        new = [o for o in out if o.why not in self.normal or
               set(o.excs or ()) <= set(ALLOWED)]
        for o in new:
            bad = [e for e in o.excs or ['Exception'] if e not in ALLOWED]
            if bad and not any(uninterpreted(t) for t, q in o.st.pc) and \
                    self.certain(o, content):
                ctx.bad('leak', key, '%s: ends in %s' % (
                    self.where, '/'.join(bad)), self.line_of(o))
                return
        slow = any(n[-1] == 'time budget' for n in self.ip.notes)
        if y is None:
            if slow:
                ctx.open('fails', key, 'time budget')
            else:
                ctx.ok('fails', key)
            return
        if text == 'missing' and self.optional(p):
            ctx.ok('fails', key)
            return
        if y.op == 'opaque' or slow or murky or any(
                self.about(o, content) for o in new):
            ctx.open('fails', key, 'loaded object not resolved')
            return
        if content.op != 'list' and not self.read(p, y):
            ctx.ok('fails', key)        # nothing depends on that file
            return
        ctx.bad('fails', key, '%s: loading returns an object all the same'
                % self.where, self.line)

    def certain(self, o, content):
        """Is the failure due to the fault, not to an undecided branch?"""
        w = o.why
        if isinstance(w, str) and w.startswith(('read ', 'absent', 'broken')):
            return True
        return self.about(o, content) and not any(
            q and decide(t, self.st) is None for t, q in o.st.pc[-1:])

    def about(self, o, content):
        return any(content in subterms(t) for t, q in o.st.pc) or isinstance(
            o.why, tuple) and any(isinstance(x, T) and content in subterms(x)
                                  for w in o.why for x in (
                                      w if isinstance(w, tuple) else (w,)))

    def line_of(self, o):
        n = o.node
        return n.line if hasattr(n, 'line') else self.line

    def read(self, p, y):
        """Does what the intact save gives depend on this file? (Some files
        are written twice, or for another class to load.)"""
        mark = mk('fld', mk('root', 'marked'), 'content')
        y2, out = self.attempt({p: mark})
        if y2 is None or self.ip.lost:
            return True
        seen, todo = set(), [y2]
        while todo:
            v = todo.pop()
            for x in branches(v):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'ref':
                    o = self.ip.obj(x.args[0], self.state)
                    if o is not None and o.kind == 'inst':
                        todo += [f for f in o.fields.values()
                                 if isinstance(f, T)]
                    els = self.ip.exact_seq(x, self.state)
                    todo += list(els or ())
                d = self.ip.den(x, self.state)
                if mark in subterms(d):
                    return True
        return False


# ------------------------------------------------------------- the error itself
def told(ctx, repo):
    """Reporting must not fail in turn."""
    cls = repo.classes['LoadError']
    f = cls.find('__init__')
    if f is None:
        ctx.ok('told', 'LoadError')
        return
    ip, st = Interp(repo), State()
    me = ip.new_inst(cls, st)
    args = [me]
    for a in f.node.args.args[1:]:
        t = mk('param', a.arg)
        ip.symspec[t] = dict(kind='str')
        args.append(t)
    v, out = call_in(ip, f, args, {}, st)
    ctx.decide(None if ip.lost else v is not None and not out or (
        None if v is not None else False), 'told', 'LoadError.__init__',
        'the error cannot be created', f.node.lineno)
