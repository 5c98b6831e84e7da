"""Round trip over an abstract file system. A symbolic object is saved and the
result loaded within one symbolic execution: the file system is a map from
path terms to stored values, entered with unknown earlier content of every
path. The loaded object is compared field by field with the saved one. What a
load could still pick up of an earlier save shows as a value that depends on
the earlier content."""
import itertools
from ..common import *
from ..pointwise import *
from .c04 import run_new

# what the statement lists, per class
STATE = {
    'GridParameters': ('dx', 'dy', 'rf', 'rf_array'),
    'GridProperty': ('name', 'unit', 'data', 'mask'),
    'GridGradient': ('name', 'unit', 'data', 'mask', 'position',
                     'measured_gradient', 'measured_error', 'orbital_scale',
                     'transmission_change'),
    'GridDiagnostics': ('_fy_dict', '_disk_radius_dict', '_max_x', '_max_y',
                        '_extended'),
    'ShallotGrid': ('num_fxfy', '_eclipse_duration', '_transverse_velocity',
                    '_limb_darkening'),
}
SCALES = ('measured_gradient', 'measured_error', 'orbital_scale',
          'transmission_change')
CUBES = ('disk_radius', 'inclination', 'tilt', 'fx_map', 'fy_map')
# not saved; a loaded map of the grid has what a built one has
SHOWN = {'color_map': {}, 'num_colors': {}}
# one follows from the other
TIED = {'rf', 'rf_array'}
PLAIN = ('truthy', 'tobool', 'tonum', 'tofloat', 'toint', 'np.array',
         'np.asarray', 'np.copy', 'copy', 'np.ascontiguousarray')


def check(ctx):
    repo = ctx.repo
    for n in STATE:
        ctx.anchor(n in repo.classes, 'class ' + n)
        ctx.anchor(repo.classes[n].find('load'), n + '.load')
    Trip(ctx, 'GridParameters').go()
    Trip(ctx, 'GridDiagnostics').go()
    Trip(ctx, 'GridProperty').go()
    for scaled in (True, False):
        Trip(ctx, 'GridGradient', scaled=scaled).go()
    maps = names_of(ctx, repo)
    # a gradient of a grid always has its measurement (C21)
    for n, scaled, eclipse, diag in (
            (None, False, False, False), (None, False, True, True),
            (1, True, True, True), (2, True, True, False),
            (2, True, True, True)):
        Trip(ctx, 'ShallotGrid', n=n, scaled=scaled, eclipse=eclipse,
             diag=diag, maps=maps).go()
    # what is there is saved, also when it is nought
    Trip(ctx, 'GridProperty', zero=True).go()
    Trip(ctx, 'GridGradient', scaled=True, zero=True).go()
    Trip(ctx, 'ShallotGrid', n=1, scaled=True, eclipse=True, diag=True,
         maps=maps, zero=True).go()


def names_of(ctx, repo):
    """The name and unit the constructor gives each map of the grid."""
    r = run_new(repo, repo.classes['ShallotGrid'])
    ctx.analysed(r)
    ctx.anchor(r.st is not None, 'construction of a grid')
    out = {}
    for f in CUBES:
        v = r.ip.get_field(r.self.args[0], f, r.st)
        found = {tuple(r.ip.den(r.ip.get_field(x.args[0], k, r.st), r.st)
                       for k in ('name', 'unit'))
                 for x in branches(v) if x.op == 'ref'} \
            if v is not None else ()
        ctx.anchor(len(found) == 1, 'name and unit of ' + f)
        out[f] = dict(zip(('name', 'unit'), found.pop()))
        for k in SHOWN:
            SHOWN[k][f] = {r.ip.den(r.ip.get_field(x.args[0], k, r.st), r.st)
                           for x in branches(v)
                           if r.ip.get_field(x.args[0], k, r.st) is not None}
    return out


def branches(v):
    if v.op == 'gamma':
        return branches(v.args[1]) + branches(v.args[2])
    return [v]


class Trip:
    def __init__(self, ctx, name, n=None, scaled=None, eclipse=None,
                 diag=None, maps=None, zero=False):
        self.ctx, self.repo, self.name = ctx, ctx.repo, name
        self.cls = self.repo.classes[name]
        self.ip, self.st = Interp(self.repo), State()
        self.dir = mk('param', 'directory')
        self.ip.symspec[self.dir] = dict(kind='str')
        self.saved = self.thing(name, 'saved')
        self.text = ''
        self.n, self.diag, self.zero = n, diag, zero
        if name == 'GridProperty' and zero:
            self.nought(self.saved)
            self.text = ', empty mask'
        if name == 'GridGradient':
            self.gradient(self.saved, scaled)
            self.text = ', scaled' if scaled else ', not scaled'
            self.text += ' to nought' if zero else ''
        if name == 'ShallotGrid':
            self.text = ', %s, eclipse parameters %s, diagnostics %s' % (
                'no gradients' if n is None else '%d gradients%s' % (
                    n, ', scaled' if scaled else ''),
                'set' if eclipse else 'not set',
                'kept' if diag else 'not kept')
            self.text += ', all nought' if zero else ''
            self.whole(n, scaled, eclipse, diag, maps)

    # ------------------------------------------------------------ the object
    def thing(self, name, label):
        return self.ip.sym(dict(kind='inst', cls=self.repo.classes[name]),
                           mk('root', label))

    def get(self, ref, f):
        return self.ip.get_field(ref.args[0], f, self.st)

    def hold(self, ref, **kw):
        o = self.ip.obj(ref.args[0], self.st).clone()
        o.fields.update(kw)
        self.st.heap[ref.args[0]] = o

    def some(self, ref, f, there):
        """The optional field is there, or it is not."""
        v = self.get(ref, f)
        if v is None or v.op != 'gamma':
            return
        if there:
            self.hold(ref, **{f: v.args[2]})
            self.st.assume(v.args[0], False)
        else:
            self.hold(ref, **{f: NONE})

    def gradient(self, ref, scaled):
        enum = lambda k, v: mk('enum', k, v)
        self.hold(ref, name=enum('GridPropertyName', 'GRADIENT'),
                  unit=enum('GridPropertyUnit', 'NONE'))
        for f in SCALES:
            self.some(ref, f, scaled)
        if scaled:
            self.some(ref, 'mask', True)
        if self.zero:
            self.nought(ref)

    def nought(self, ref):
        """A mask that hides nothing, and every number 0."""
        data = self.ip.den(self.get(ref, 'data'), self.st)
        self.some(ref, 'mask', True)
        self.hold(ref, mask=self.ip.new_arr(
            mk('full_like', data, FALSE), self.st))
        for f in SCALES:
            if self.get(ref, f) is not None:
                self.hold(ref, **{f: const(0)})

    def whole(self, n, scaled, eclipse, diag, maps):
        # a save into a directory that exists is refused (C11)
        self.st.assume(mk('exists', self.dir), False)
        me, par = self.saved, self.get(self.saved, 'parameters')
        els = []
        for k in range(n or 0):
            g = self.thing('GridGradient', 'gradient %d' % k)
            self.gradient(g, scaled)
            self.hold(g, grid_parameters=par)
            els.append(g)
        self.hold(me, gradients=NONE if n is None else
                  self.ip.new_list(els, self.st))
        for f in eclipse_fields(self.repo).values():
            self.some(me, f, eclipse)
            if self.zero:
                self.hold(me, **{f: const(0)})
        self.some(me, 'diagnostics', diag)
        for f, kw in maps.items():
            self.some(me, f, True)
            self.hold(self.get(me, f), grid_parameters=par, **kw)
            if self.zero:
                self.nought(self.get(me, f))
        self.settled(par)

    def settled(self, par):
        """The coordinates of a finished grid are not extendable (C08)."""
        ip, st = self.ip, self.st
        for f in self.repo.classes['GridParameters'].methods.values():
            a = f.node.args
            if len(a.args) + len(a.kwonlyargs) != 1 or f.kind != 'method' or \
                    f.name.startswith('__'):
                continue
            s2 = st.copy()
            v, raised = call_in(ip, f, [par], {}, s2)
            if raised or v is None:
                continue
            t = ip.get_field(par.args[0], 'extendable', s2)
            if t is not ip.get_field(par.args[0], 'extendable', st):
                st.assume(ip.den(t, s2), False)
        ip.raises, ip.lost = [], None
        v = ip.get_field(par.args[0], 'extendable', st)
        if v is not None:
            st.assume(ip.den(v, st), False)

    # ------------------------------------------------------------- round trip
    def go(self):
        ctx, ip, st, cls = self.ctx, self.ip, self.st, self.cls
        self.where = self.name + self.text
        save = cls.find('save_gradient') or cls.find('save') \
            if self.name == 'GridGradient' else cls.find('save')
        ctx.anchor(save, self.name + '.save')
        load = cls.find('load')
        self.line = load.node.lineno
        v, raised = call_in(ip, save, [self.saved, self.dir], {}, st)
        if v is None or ip.lost:
            ctx.open('saved', self.where, ip.lost or 'save does not return')
            return
        place = self.place()
        if place is None:
            ctx.open('saved', self.where, 'where the data is saved')
            return
        args = [mk('class', self.name), place]
        for a in load.node.args.args[2:]:
            x = self.get(self.saved, a.arg) \
                if a.arg in ('name', 'unit') else None
            if x is None:
                break
            args.append(x)
        n = len(st.pc)
        y, raised = call_in(ip, load, args, {}, st)
        if y is None and not ip.lost and raised and not any(
                n[-1] == 'time budget' for n in ip.notes):
            ctx.bad('restored', self.name + ': load', self.where +
                    ': what was saved can never be loaded', self.line)
            return
        if y is None or y.op != 'ref' or ip.lost:
            ctx.open('restored', self.where, ip.lost or
                     'the loaded object is not resolved')
            return
        self.again = y
        self.compare(self.saved, y, self.name, '')
        if self.name == 'ShallotGrid':
            self.contents(y)

    def files(self, args=()):
        """What a save with these further arguments leaves on disk."""
        st = self.st.copy()
        for x in args:
            st.assume(mk('isnone', x), False)
        v, raised = call_in(self.ip, self.cls.find('save'), [
            self.saved, self.dir] + list(args), {}, st)
        lost, self.ip.lost = self.ip.lost, None
        return None if v is None or lost else {
            p: deep_simp(c, st) for p, c in st.fs.items()}

    def place(self):
        """The directory the saved files are in."""
        if self.name != 'GridGradient':
            return self.dir
        data = strip_all(self.ip.den(self.get(self.saved, 'data'), self.st))
        for p, c in self.st.fs.items():
            if strip_all(c) is data and p.op == 'str' and is_str(p.args[-1]):
                a = list(p.args)
                while a and is_str(a[-1]) and '/' not in cval(a[-1]):
                    a.pop()
                if a and is_str(a[-1]):
                    a[-1] = const(cval(a[-1]).rsplit('/', 1)[0])
                    return self.ip.concat(a)
        return None

    def contents(self, y):
        par, par2 = self.get(self.saved, 'parameters'), self.get(
            y, 'parameters')
        self.part(par, par2, 'GridParameters', 'parameters')
        for f in CUBES:
            self.part(self.get(self.saved, f), self.get(y, f),
                      'GridProperty', f)
            self.shown(self.get(y, f), f)
        d, d2 = self.get(self.saved, 'diagnostics'), self.get(
            y, 'diagnostics')
        if self.diag:
            self.part(d, d2, 'GridDiagnostics', 'diagnostics')
        else:
            self.absent(d2, 'diagnostics')
        g2 = self.get(y, 'gradients')
        if self.n is None:
            self.absent(g2, 'gradients')
            return
        g2 = simp(g2, self.st) if g2 is not None else None
        els = self.ip.exact_seq(g2, self.st) \
            if g2 is not None and g2 is not NONE else None
        key = 'ShallotGrid.gradients: number'
        if g2 is NONE or els is not None and len(els) != self.n:
            self.ctx.bad('restored', key, '%s: %s restored' % (
                self.where, 'none' if g2 is NONE else len(els)), self.line)
            return
        if els is None:
            self.ctx.open('restored', key, self.where)
            return
        self.ctx.ok('restored', key)
        for k, (a, b) in enumerate(zip(self.ip.exact_seq(
                self.get(self.saved, 'gradients'), self.st), els)):
            self.part(a, b, 'GridGradient', 'gradient %d' % k)
            self.part(par, self.get(b, 'grid_parameters'), 'GridParameters',
                      'parameters of gradient %d' % k)

    def shown(self, v, f):
        v = simp(v, self.st) if v is not None else None
        for k, built in sorted(SHOWN.items()):
            t = None
            if v is not None and v.op == 'ref':
                t = self.get(v, k)
            built = built.get(f, ())
            sure = t is not None and all(map(is_const, built)) and built
            t = deep_simp(self.ip.den(t, self.st), self.st) if sure else None
            self.ctx.decide(None if not sure or not is_const(t) else
                            t in built, 'display', '%s of %s' % (k, f),
                            '%s: %s after loading, %s when built' % (
                                self.where, show(t) if t else 'unknown',
                                ', '.join(map(show, built))), self.line)

    def absent(self, v, what):
        key = 'ShallotGrid.' + what + ': absent'
        r = None
        if v is not None:
            v = simp(v, self.st)
            r = v is NONE
            if not r and uninterpreted(self.ip.den(v, self.st)):
                r = None
        self.ctx.decide(r, 'restored', key, '%s: loaded although none was '
                        'saved' % self.where, self.line)

    def part(self, a, b, name, what):
        b = simp(b, self.st) if b is not None else None
        a = simp(a, self.st)
        if b is None or b.op not in ('ref', 'gamma') and b is not NONE:
            self.ctx.open('restored', '%s (%s)' % (what, self.where),
                          'not resolved')
            return
        for x in branches(b):
            if x is NONE:
                self.ctx.bad('restored', 'ShallotGrid.' + what,
                             '%s: not restored' % self.where, self.line)
                return
        if b.op == 'gamma':
            self.ctx.open('restored', '%s (%s)' % (what, self.where),
                          'not resolved')
            return
        self.compare(a, b, name, what)

    def compare(self, a, b, name, what):
        fields = self.repo.field_specs(self.repo.classes[name])
        own = eclipse_fields(self.repo)
        for f in [own.get(f, f) for f in STATE[name]]:
            key = '%s.%s%s' % (name, f, ': ' + what if what else '')
            if f not in fields:
                self.ctx.open('restored', key, 'no such attribute')
                continue
            x, y = self.get(a, f), self.get(b, f)
            if x is None or y is None:
                r = None if x is None else False
                seen = 'nothing'
            else:
                r = self.equal(x, y)
                seen = show(self.ip.den(simp(y, self.st), self.st), 6)
            self.ctx.decide(r, 'restored', key, '%s: restored as %s' % (
                self.where, seen[:160].replace('|', '/')), self.line)

    # -------------------------------------------------------------- equality
    def equal(self, x, y):
        ip, st = self.ip, self.st
        r = same_value(ip, x, st, y, st)
        if r is not False:
            return r
        a = plain(deep_simp(ip.den(x, st), st))
        b = plain(deep_simp(ip.den(y, st), st))
        if a is b:
            return True
        if b is NONE and a.op in ('full', 'full_like'):
            return False
        atoms = sorted({t for t in subterms(a) if t.op == 'fld'} |
                       {t for t in subterms(b) if t.op == 'fld'}, key=str)
        old = [t for t in subterms(b) if t.op in ('file0', 'exists')]
        if any(uninterpreted(t) for t in old):
            return None
        if old:
            return False        # depends on what was there before
        if len(atoms) > 60 or uninterpreted(b):
            return None
        flags = {t.args[1] for t in subterms(b) if t.op in ('store', 'item')}
        own = [t for t in subterms(a) if t.op == 'fld']
        if not any(t in subterms(b) for t in own):
            # nothing of the saved value is left in it
            return None if TIED & {t.args[1] for t in own} and \
                b.op != 'fld' else False
        same = True
        for k in range(4):
            val = {t: Q(7 * j + 3 * k + 1, 13 + k) for j, t in
                   enumerate(atoms)}
            for j, t in enumerate(atoms):
                if t in flags or k == 3:
                    val[t] = j % 2 == k % 2
                val[mk('isnone', t)] = False
            pt = Point(val)
            try:
                u = pt.ev(a)
            except (Unknown, Raises):
                if k < 3:
                    same = None
                continue
            try:
                w = pt.ev(b)
            except Raises:
                return False
            except Unknown:
                if k < 3:
                    same = None
                continue
            if (u is None) != (w is None):
                return False
            if u is not None and (nan(num(u)) != nan(num(w)) or
                                  not nan(num(u)) and num(u) != num(w)):
                return False
        return same


COUNTS = ('np.sum', 'np.count_nonzero', 'sum', 'np.nansum')
WHOLE = COUNTS + ('np.any', 'np.all', 'any', 'all')
ELEMENTWISE = ('np.round', 'np.around', 'np.rint', 'np.abs', 'astype', 'neg')


def plain(t):
    def go(x):
        if x.op in PLAIN and len(x.args):
            return x.args[0]
        if x.op in ('item', 'npitem') and x.args[0].op in ELEMENTWISE and \
                x.args[0].args[0].op in ('list', 'tuple') and \
                is_int(x.args[1]):
            k, y = cval(x.args[1]), x.args[0]
            if -len(y.args[0].args) <= k < len(y.args[0].args):
                return mk(y.op, y.args[0].args[k], *y.args[1:])
        if x.op in WHOLE and x.args[0].op in ('full', 'full_like') and \
                x.args[0].args[1] is FALSE and len(x.args) == 1:
            return const(0) if x.op in COUNTS else FALSE
        if x.op == 'gamma' and x.args[0] in (TRUE, FALSE):
            return x.args[1 if x.args[0] is TRUE else 2]
        return x
    return strip_all(rewrite(t, go))
