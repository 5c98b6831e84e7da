"""Event sequences of the viewer, evaluated symbolically. The viewer is
constructed on a symbolic property for each axis; then its index and its
markers are replaced by arbitrary ones and one scroll event is executed, so
that the step covers every history. What is handed to the axes (image, title,
markers, labels, extent, tick labels, contrast) is a term in the index and the stored
vectors; it is evaluated position by position for every index, both scroll
directions and coordinates on, near and away from the slice, and compared with
what belongs to the new index."""
import re
from ..common import *
from ..located import *

N = (3, 4, 5)                   # rows, columns, slices of the cube
VECS = ([Q(-3, 10), Q(-2, 10), Q(-1, 10)],
        [Q(6, 10), Q(65, 100), Q(7, 10), Q(75, 100)],
        [Q(3), Q(2), Q(1), Q(2), Q(3)])
NAMES = ('$y$', '$x$', '$R_f$')
ACROSS, UP = (2, 2, 1), (1, 0, 0)       # axes of the image, per cut axis


def check(ctx):
    repo = ctx.repo
    cls = repo.classes.get('GridPropertyViewer')
    ctx.anchor(cls is not None, 'class GridPropertyViewer')
    for f in ('__init__', 'onscroll'):
        ctx.anchor(cls.find(f), 'GridPropertyViewer.' + f)
    for axis in range(3):
        Viewer(ctx, cls, axis, False).go()
        Viewer(ctx, cls, axis, True, 2 if axis else 0).go()
        Viewer(ctx, cls, axis, axis == 1, None).go()
        Viewer(ctx, cls, axis, False, 2, True).go()
        Viewer(ctx, cls, axis, False, 2, small=True).go()
    frozen(ctx, cls)
    opened(ctx, cls)


class View(Located):
    button = 'up'

    def ev0(self, t):
        o, a = t.op, t.args
        if o in ('bmeth', 'attr', 'fld') and len(a) > 1 and \
                a[0] is EVENT:
            if a[1] == 'button':
                return self.button
            if a[1] == 'step':
                return Q(1 if self.button == 'up' else -1)
        if o == 'len' and plotted(a[0]):
            return Q(1)
        if o == 'toint' or o == 'int':
            x = num(self.ev(a[0]))
            return num(math.trunc(x))
        if o in ('max', 'min', 'np.maximum', 'np.minimum') and len(a) > 1:
            vs = [num(self.ev(x)) for x in a]
            return max(vs) if 'ax' in o else min(vs)
        if o in ('np.clip', 'clip') and len(a) == 3:
            return min(max(num(self.ev(a[0])), num(self.ev(a[1]))),
                       num(self.ev(a[2])))
        return Located.ev0(self, t)

    def shape0(self, t):
        o, a = t.op, t.args
        if o == 'np.take' and len(a) == 3:
            s = list(self.shape(a[0]))
            k = self.axis(a[2], len(s))
            return tuple(s[:k]) + self.shape(a[1]) + tuple(s[k + 1:])
        if o in ('np.moveaxis', 'np.rollaxis', 'np.swapaxes') and \
                len(a) == 3:
            s = self.shape(a[0])
            return tuple(s[k] for k in self.order(o, a, len(s)))
        if o == 'np.delete' and len(a) == 2 and len(self.shape(a[0])) == 1:
            return self.shape(mk(o, a[0], a[1], const(0)))
        if o in ('np.char.mod', 'strarr'):
            return self.shape(a[-1])
        return Located.shape0(self, t)

    def order(self, o, a, n):
        """Which axis of the operand each axis of the result is."""
        i, j = self.axis(a[1], n), self.axis(a[2], n)
        ks = list(range(n))
        if o == 'np.swapaxes':
            ks[i], ks[j] = ks[j], ks[i]
        elif o == 'np.moveaxis':
            ks.remove(i)
            ks.insert(j, i)
        else:
            raise Unknown(o)
        return ks

    def at0(self, t, ix):
        o, a = t.op, t.args
        if o == 'np.take' and len(a) == 3:
            s = self.shape(a[0])
            k = self.axis(a[2], len(s))
            m = len(self.shape(a[1]))
            j = num(self.at(a[1], ix[k:k + m]))
            if nan(j) or j != int(j):
                raise Unknown('index')
            j = int(j)
            if not -s[k] <= j < s[k]:
                raise Raises('index out of range')
            return self.at(a[0], ix[:k] + (j % s[k],) + ix[k + m:])
        if o == 'np.delete' and len(a) == 2:
            return self.at(mk(o, a[0], a[1], const(0)), ix)
        if o in ('np.moveaxis', 'np.swapaxes') and len(a) == 3:
            ks = self.order(o, a, len(ix))
            out = [0] * len(ix)
            for p, k in enumerate(ks):
                out[k] = ix[p]
            return self.at(a[0], tuple(out))
        return Located.at0(self, t, ix)

    # ---------------------------------------------------------------- text
    def text(self, t):
        """Fixed text and numbers of a string term, in order."""
        o, a = t.op, t.args
        if is_str(t):
            return [cval(t)]
        if o == 'gamma':
            return self.text(a[1 if truth(self.ev(a[0])) else 2])
        if o in ('str', 'add'):
            return [y for x in a for y in self.text(x)]
        if o == 'fmt%' and is_str(a[0]):
            vals = list(a[1].args if a[1].op == 'tuple' else a[1:])
            out = []
            for x in re.split(r'(%[-+ #0-9.]*[a-zA-Z%])', cval(a[0])):
                if x == '%%' or not x.startswith('%'):
                    out.append(x.replace('%%', '%'))
                elif not vals:
                    return [None]
                else:
                    y = vals.pop(0)
                    spec = x[1:] if x[-1] in 'fgeEG' else ''
                    out += self.text(y) if is_str(y) else self.text(
                        mk('fmt', y, spec))
            return out
        if o in ('fmt', 'tostr'):
            try:
                v = self.ev(a[0])
            except Unknown:
                v = None
            if isinstance(v, str):
                return [v]
            if v is not None and not isinstance(v, (bool, Tag)):
                spec = a[1] if len(a) > 1 else ''
                spec = cval(spec) if isinstance(spec, T) and is_str(
                    spec) else spec
                return [(num(v), spec)]
            return [None]
        return [None]


EVENT = mk('param', 'event')
INDEX = mk('param', 'any index')
COORDS = [[mk('param', 'coordinate %d %d' % (k, j)) for j in range(3)]
          for k in range(2)]
OLD = [mk('fld', mk('root', 'shown'), 'marker %d' % k) for k in range(2)]


class Viewer:
    def __init__(self, ctx, cls, axis, masked, given=2, single=False,
                 small=False):
        self.ctx, self.cls, self.axis, self.masked = ctx, cls, axis, masked
        self.given = given              # number of coordinates, or None
        self.single, self.V, self.N = single, VECS, N
        if single:                      # one slice along the axis
            self.V = tuple([Q(1)] if k == axis else x
                           for k, x in enumerate(VECS))
            self.N = tuple(1 if k == axis else n for k, n in enumerate(N))
        self.small = small              # steps far below one
        if small:
            self.V = tuple([v / 10 ** 7 for v in x] if k < 2 else
                           [1 + (v - 1) / 10 ** 7 for v in x]
                           for k, x in enumerate(VECS))
        self.where = 'axis %d%s%s%s' % (
            axis, ', single slice' if single else ', small steps' if small
            else '', ', masked' if masked else '', '' if given else
            ', no coordinates' if given is None else ', empty coordinates')
        self.seen = {}

    def go(self):
        ctx, axis = self.ctx, self.axis
        init = self.cls.find('__init__')
        self.line = init.node.lineno
        ip = Interp(ctx.repo)
        st = State()
        me = self.me = ip.new_inst(self.cls, st)

        def setup(ip, st, env):
            env['coordinates'] = NONE if self.given is None else ip.new_list(
                [mk('tuple', *c) for c in COORDS[:self.given]], st)
            self.prop = env['grid_property']
            o = ip.obj(self.prop.args[0], st).clone()
            m = ip.get_field(self.prop.args[0], 'mask', st)
            if m is not None and m.op == 'gamma':
                o.fields['mask'] = m.args[2]
                st.assume(m.args[0], False)
            st.heap[self.prop.args[0]] = o
        for c in COORDS:
            for t in c:
                ip.symspec[t] = dict(kind='float')
        ip.symspec[INDEX] = dict(kind='int')
        r = run_in(ip, init, dict(
            axis=const(axis), masked=const(self.masked), index=INDEX,
            frozen=FALSE), me, setup, self.cls, st)
        ctx.analysed(r)
        if r.failed or r.st is None:
            ctx.open('constructed', self.where, r.failed or 'no normal exit')
            return
        self.ip, self.st = ip, r.st
        self.arrays()
        self.still(list(ip.nodes))
        self.finish()
        self.default(init)
        self.scrolled()
        self.finish()

    # ---------------------------------------------------------- the values
    def arrays(self):
        ip, st, p = self.ip, self.st, self.prop.args[0]
        par = ip.get_field(p, 'grid_parameters', st)
        get = lambda r, f: ip.den(ip.get_field(r.args[0], f, st), st)
        rf = self.V[2][len(self.V[2]) // 2:]
        self.known = {
            get(self.prop, 'data'): (self.N, lambda ix: Tag('value', *ix)),
            get(self.prop, 'mask'): (self.N, lambda ix: sum(ix) % 3 == 0),
            get(par, 'dy'): ((self.N[0], 1, 1), lambda ix: self.V[0][ix[0]]),
            get(par, 'dx'): ((1, self.N[1], 1), lambda ix: self.V[1][ix[1]]),
            get(par, 'rf'): ((len(rf),), lambda ix: rf[ix[0]]),
            get(par, 'rf_array'): ((self.N[2],), lambda ix: self.V[2][ix[0]]),
            get(par, 'grid_shape'): ((3,), lambda ix: Q(self.N[ix[0]])),
        }

    def want(self, pos, k):
        """The value the image has to show there, for index k."""
        ix = list(pos)
        ix.insert(self.axis, k)
        if self.masked and sum(ix) % 3 == 0:
            return NAN
        return Tag('value', *ix)

    def view(self, index, button='up', coords=None):
        val = {INDEX: Q(index)}
        for c, x in zip(COORDS, coords or ((Q(50),) * 3,) * 2):
            val.update(zip(c, x))
        v = View(val, self.known)
        v.button = button
        return v

    def happens(self, v, n):
        """Does the event take place in this row?"""
        for t, q in n.pc:
            if self.checks(t):
                continue
            if truth(v.ev(t)) != q:
                return False
        return True

    def checks(self, t):
        """Conditions of argument checks, which pass here."""
        return contains(t, lambda x: x.op in (
            'notisa', 'notnum', 'notrank', 'notdtype', 'arrout',
            'shapesdiffer', 'isnan')) or not any(
                x in self.val0 for x in subterms(t)) and \
            t.op in ('truthy', 'isnone', 'not')

    # --------------------------------------------------------------- report
    def note(self, rule, ok, text, line=None):
        """The first bad row counts, then the first undecided one."""
        cur = self.seen.get(rule)
        if ok is False and (cur is None or cur[0] is not False) or \
                ok is None and (cur is None or cur[0] is True) or cur is None:
            self.seen[rule] = (ok, text, line or self.line)

    def finish(self):
        for rule, (ok, text, line) in self.seen.items():
            self.ctx.decide(ok, rule, self.where, text, line)
        self.seen = {}

    # ------------------------------------------------------- what is drawn
    def events(self, nodes, v):
        return [n for n in nodes if n.kind in ('extmeth', 'extset', 'write')
                and self.happens(v, n)]

    def args(self, n, *names):
        """Arguments of a drawing call by position or keyword."""
        recv, name, args, kw = n.data
        return [args[k] if k < len(args) else kw.get(x)
                for k, x in enumerate(names)]

    def last(self, evs, *names):
        for n in reversed(evs):
            if n.kind == 'extmeth' and n.data[1] in names:
                return n
        return None

    def shown(self, v, evs, k, text):
        """Image and title belong to index k."""
        n = self.last(evs, 'set_data', 'imshow', 'set_array')
        if n is None:
            self.note('image', False, '%s: the image is not set' % text)
        else:
            a = self.args(n, 'data')[0] or n.data[3].get('A') or \
                n.data[3].get('X')
            self.image(v, n, a, k, text)
        n = self.last(evs, 'set_title')
        if n is None:
            self.note('title', False, '%s: the title is not set' % text)
        else:
            self.title(v, n, self.args(n, 'label')[0], k, text)

    def image(self, v, n, a, k, text):
        if a is None:
            self.note('image', None, text)
            return
        d = self.ip.den(a, self.st)
        shape = tuple(m for j, m in enumerate(self.N) if j != self.axis)
        try:
            s = v.shape(d)
            if s != shape:
                self.note('image', False, '%s: the image has shape %s instead'
                          ' of %s' % (text, s, shape), n.line)
                return
            for pos in itertools.product(*map(range, shape)):
                x, w = v.at(d, pos), self.want(pos, k)
                if not (nan(x) and nan(w)) and x != w:
                    self.note('image', False, '%s: the image shows %s where '
                              '%s belongs' % (text, x, w), n.line)
                    return
            self.note('image', True, text)
        except Unknown as e:
            self.note('image', None, '%s: %s' % (text, e))
        except Raises as e:
            self.note('image', False, '%s: %s' % (text, e), n.line)

    def title(self, v, n, a, k, text):
        if self.small:          # the title shows a few decimals only
            return
        if a is None:
            self.note('title', None, text)
            return
        try:
            parts = v.text(self.ip.den(a, self.st))
        except Unknown as e:
            self.note('title', None, '%s: %s' % (text, e))
            return
        except Raises as e:
            self.note('title', False, '%s: %s' % (text, e), n.line)
            return
        value = self.V[self.axis][k]
        numbers = [x for x in parts if isinstance(x, tuple)]
        fixed = ' '.join(x for x in parts if isinstance(x, str))
        vague = None in parts
        step = self.step()

        def close(x, spec):
            try:
                y = float(format(float(x), spec or ''))
            except (ValueError, TypeError):
                y = float(x)
            return abs(y - float(value)) < float(step) / 3
        if not any(close(*x) for x in numbers):
            # a number of its own is there, or all of the text is known
            ok = False if numbers or not vague else None
            self.note('title', ok, '%s: the title says %s, the slice is at %s'
                      % (text, ', '.join(str(float(x)) for x, s in numbers)
                         or 'nothing', float(value)), n.line)
            return
        named = [x for x in NAMES if x in fixed]
        if len(named) == 1 and named[0] != NAMES[self.axis]:
            self.note('title', False, '%s: the title names %s' % (
                text, named[0]), n.line)
            return
        words = [w for w in ('horizontal', 'vertical') if w in fixed.lower()]
        mid = self.N[2] // 2
        want = [] if self.axis != 2 or k == mid else [
            'horizontal' if k < mid else 'vertical']
        if words != want:
            ok = None if vague and not words and not any(
                isinstance(x, str) for x in parts) else False
            self.note('title', ok, '%s: the direction in the title is %s '
                      'instead of %s' % (text, words or 'missing', want or
                                         'none'), n.line)
            return
        self.note('title', True, text)

    def marked(self, v, evs, k, coords, text, old):
        """Exactly the coordinates at index k have a marker."""
        drawn = []
        after = self.ip.get_field(self.me.args[0], self.field, self.st) \
            if self.field else None
        gone, other = set(), False
        for n in evs:
            if n.kind == 'extmeth' and n.data[1] in ('plot', 'scatter'):
                x, y = self.args(n, 'x', 'y')
                drawn.append((n, x, y))
            elif n.kind == 'extmeth' and n.data[1] in (
                    'set_visible', 'set_offsets', 'cla', 'clear',
                    'set_xdata', 'set_ydata', 'remove'):
                if n.data[0] in OLD and n.data[1] == 'remove':
                    gone.add(n.data[0])
                else:
                    other = True
            elif n.kind == 'extset':
                other = True
            elif n.kind == 'write' and n.data[1][:1] == ('meth',):
                if n.data[0] in OLD and n.data[1][1] == 'remove':
                    gone.add(n.data[0])
                elif n.data[1][1] == 'remove':
                    other = True
        got = []
        for n, x, y in drawn:
            try:
                got.append(self.points(v, x, y))
            except (Unknown, Raises) as e:
                self.note('markers', None, '%s: %s' % (text, e))
                return
        h, w = ACROSS[self.axis], UP[self.axis]
        value = self.V[self.axis][k]
        step = self.step()
        need = [c for c in coords
                if abs(c[self.axis] - value) < step * Q(1, 4)]
        if other:
            self.note('markers', None, text + ': other ways of showing')
            return
        if len(got) != len(need):
            self.note('markers', False, '%s: %d markers are shown for %d '
                      'coordinates of the slice' % (text, len(got),
                                                    len(need)),
                      drawn[0][0].line if drawn else None)
            return
        for pts, c in zip(got, need):
            for x, y in pts:
                if x not in self.drawn_at(h, c) or y not in self.drawn_at(
                        w, c):
                    self.note('markers', False, '%s: the coordinate %s is '
                              'marked at (%s, %s)' % (
                                  text, tuple(map(float, c)), float(x),
                                  float(y)), drawn[0][0].line)
                    return
        if old and not self.field:
            was = self.V[self.axis][self.before]
            if any(abs(c[self.axis] - was) < step * Q(1, 4) for c in coords):
                self.note('markers', False, '%s: a marker of the slice '
                          'before stays' % text)
            return
        if old:
            for m in OLD:
                if m not in gone:
                    self.note('markers', False, '%s: a marker of the slice '
                              'before stays' % text)
                    return
        self.note('markers', True, text)
        # and they are kept to be removed later
        if after is None:
            return
        try:
            kept = self.contents(v, self.ip.den(after, self.st))
        except (Unknown, Raises):
            self.note('kept', None, text)
            return
        if old and any(m in kept for m in OLD):
            self.note('kept', False, '%s: removed markers are kept, they '
                      'would be removed again' % text)
        elif sum(1 for x in kept if contains(x, plotted)) < len(drawn):
            self.note('kept', False, '%s: a marker that is shown is not '
                      'recorded, so it stays' % text,
                      drawn[0][0].line)
        else:
            self.note('kept', True, text)

    def contents(self, v, d):
        if d.op in ('list', 'tuple'):
            return list(d.args)
        if d.op == 'gamma':
            return self.contents(v, d.args[1 if truth(v.ev(d.args[0]))
                                           else 2])
        if d.op in ('one', 'segs', 'seq', 'add', 'segsof', 'list'):
            return [y for x in d.args for y in self.contents(v, x)] \
                if d.op != 'one' else [d.args[0]]
        if d.op == 'map' and d.args[0].op == 'len' and \
                plotted(d.args[0].args[0]):
            return [d.args[2]]          # all that was plotted
        if contains(d, plotted) and d.op in ('item', 'opaque') or d in OLD:
            return [d]
        raise Unknown('contents')

    def drawn_at(self, axis, c):
        """Where the image shows this component of a coordinate: the radius
        factor is drawn from its largest value down to one and up again."""
        if axis != 2:
            return (c[axis],)
        rf = self.V[2]
        mid = rf[len(rf) // 2]
        return rf[0] - mid - (c[2] - mid), rf[0] - mid + (c[2] - mid)

    def points(self, v, x, y):
        if x is None or y is None:
            raise Unknown('argument')
        both = []
        for t in (x, y):
            d = self.ip.den(t, self.st)
            s = v.shape(d)
            if s == ():
                both.append([num(v.at(d, ()) if d.op == 'item' else
                                 v.ev(d))])
            elif len(s) == 1:
                both.append([num(v.at(d, (k,))) for k in range(s[0])])
            else:
                raise Unknown('more than a row of points')
        n = max(map(len, both))
        both = [b * n if len(b) == 1 else b for b in both]
        if not n or len(both[0]) != len(both[1]):
            raise Unknown('no or unequal points')
        return list(zip(*both))

    # ------------------------------------------------------------ the start
    def still(self, nodes):
        """What the constructor leaves for every initial index."""
        self.val0 = set(COORDS[0] + COORDS[1] + [INDEX, EVENT])
        self.field = self.marker_field()
        n = self.N[self.axis]
        self.computed()
        for k in range(n):
            for coords in self.placed(k):
                v = self.view(k, 'up', coords)
                text = 'after construction at index %d' % k
                try:
                    evs = self.events(nodes, v)
                except (Unknown, Raises) as e:
                    self.note('image', None, '%s: %s' % (text, e))
                    continue
                self.shown(v, evs, k, text)
                self.marked(v, evs, k, coords, text, False)
                if coords is not None:
                    self.frame(v, evs)

    def step(self):
        v = self.V[self.axis]
        return abs(v[1] - v[0]) if len(v) > 1 else Q(1)

    def computed(self):
        """The numbers the viewer keeps exist for this cube."""
        o = self.ip.obj(self.me.args[0], self.st)
        for f, x in sorted(o.fields.items()):
            if not isinstance(x, T) or x.op in ('ref', 'root'):
                continue
            v = self.view(0)
            try:
                d = self.ip.den(x, self.st)
                if not v.shape(d):
                    v.ev(d)
            except Unknown:
                continue
            except Raises as e:
                self.note('computed', False, '%s of the viewer cannot be '
                          'computed (%s)' % (f, e))
                return
        self.note('computed', True, '')

    def placed(self, k):
        """Pairs of coordinates on, near and away from the slice k."""
        V, a, step = self.V, self.axis, self.step()
        if self.single:                 # only what lies exactly on it
            yield tuple((Q(100), Q(200), Q(300))[:a] + (V[a][0],) +
                        (Q(100), Q(200), Q(300))[a + 1:] for x in range(2))
            return
        j = k - 1 if k else k + 1

        def c(i, off, h):
            x = [Q(100 + h), Q(200 + h), Q(300 + h)]
            x[a] = V[a][i] + off * step
            return tuple(x)
        if not self.given:
            yield c(k, 10, 1), c(k, 10, 2)
            return
        for off in (0, Q(1, 5), Q(-1, 5)):
            yield c(k, off, 1), c(j, 0, 2)
            yield c(j, Q(1, 5), 1), c(k, off, 2)
        yield c(k, 0, 1), c(k, Q(1, 5), 2)
        yield c(k, 10, 1), c(k, -10, 2)

    def frame(self, v, evs):
        """Labels, extent and tick labels belong to the other two axes."""
        h, w = ACROSS[self.axis], UP[self.axis]
        for f, ax in (('set_xlabel', h), ('set_ylabel', w)):
            n = self.last(evs, f)
            if n is None:
                self.note('labels', False, f + ' is not called')
                continue
            try:
                p = v.text(self.ip.den(self.args(n, 'label')[0], self.st))
            except (Unknown, Raises):
                self.note('labels', None, f)
                continue
            named = [x for x in NAMES if any(
                isinstance(y, str) and x in y for y in p)]
            ok = None if not named else named == [NAMES[ax]]
            self.note('labels', ok, '%s is %s, the image has %s there' % (
                f[4:], ', '.join(named), NAMES[ax]), n.line)
        n = self.last(evs, 'imshow')
        if n is None:
            self.note('extent', None, 'no image')
            return
        kw = n.data[3]
        self.style(v, evs, n, kw)
        e = kw.get('extent')
        ticks = self.last(evs, 'set_xticklabels')
        if e is None:
            self.note('extent', False, 'the image has no extent', n.line)
            return
        try:
            d = self.ip.den(e, self.st)
            got = [num(v.at(d, (j,))) for j in range(v.shape(d)[0])]
        except (Unknown, Raises) as x:
            self.note('extent', None, str(x))
            return
        o = kw.get('origin')
        if o is not None and not is_str(o):
            self.note('extent', None, 'origin')
            return
        if o is None or cval(o) != 'lower':
            self.note('extent', False, 'the first row of the image is drawn '
                      'at the upper end of the extent', n.line)
            return
        rf = self.V[2]
        ends = []
        for ax in (h, w):
            ends += [self.V[ax][0], self.V[ax][-1]] if ax < 2 else [
                Q(0), 2 * (rf[0] - rf[len(rf) // 2])]
        names = 'left right bottom top'.split()
        bad = [names[j] for j in range(4) if got[j] != ends[j] and
               (h if j < 2 else w) < 2]
        if bad:
            self.note('extent', False, 'the extent is %s instead of %s' % (
                list(map(float, got)), list(map(float, ends))), n.line)
            return
        self.note('extent', True, '')
        if h != 2:
            self.note('ticks', ticks is None, 'radius tick labels on the %s '
                      'axis' % NAMES[h])
        elif ticks is None:
            self.note('ticks', False, 'the radius axis has no tick labels: '
                      'the extent is not the radius')
        else:
            self.ticks(v, ticks, got[0], got[1])

    def style(self, v, evs, n, kw):
        """The image is drawn with the contrast settings of the property."""
        ip, st, p = self.ip, self.st, self.prop.args[0]
        own = {}
        for f in ('vmin', 'vmax', 'color_map', 'num_colors'):
            x = ip.get_field(p, f, st)
            if x is None:
                raise AnalysisError('anchor vanished: setting ' + f)
            own[f] = x.args[2] if x.op == 'gamma' else x
        later = any(x.kind == 'extset' or x.kind == 'extmeth' and x.data[1] in
                    ('set_clim', 'set_cmap', 'autoscale', 'set_norm')
                    for x in evs) or 'norm' in kw
        for pair in ((Q(-7), Q(9)), (Q(0), Q(9)), (Q(-7), Q(0)),
                     (None, None)):
            for f, want in zip(('vmin', 'vmax'), pair):
                t = kw.get(f)
                u = self.view(0)
                for g, z in zip(('vmin', 'vmax'), pair):
                    u.val[own[g]] = z
                    u.val[mk('isnone', own[g])] = z is None
                u.val[own['num_colors']] = Q(7)
                u.val[own['color_map']] = 'magma'
                try:
                    got = None if t is None else u.ev(ip.den(t, st))
                except (Unknown, Raises) as e:
                    self.note('style', None, '%s: %s' % (f, e))
                    continue
                ok = got == want
                self.note('style', ok or (None if later else False),
                          'the image is drawn with %s %s where the property '
                          'has %s' % (f, got, want), n.line)
        t = kw.get('cmap')
        d = mk('list') if t is None else ip.den(t, st)
        for f in ('color_map', 'num_colors'):
            if contains(d, lambda x: x is own[f]):
                self.note('style', True, f)
            else:
                self.note('style', None if later or contains(
                    d, lambda x: x.op in ('opaque', 'havoc', 'unknown'))
                    else False, 'the colours of the image do not depend on '
                    'the %s of the property' % f, n.line)

    def ticks(self, v, n, lo, hi):
        """The tick labels say the radius that is drawn there."""
        a = self.args(n, 'labels')[0]
        d = self.ip.den(a, self.st) if a is not None else mk('opaque', 't')
        if d.op not in ('strarr', 'np.char.mod'):
            self.note('ticks', None, 'tick labels')
            return
        x = d.args[-1]
        at = {t for t in subterms(x) if t.op == 'opaque'}
        if len(at) != 1 or 'tick' not in str(list(at)[0].args[0]):
            self.note('ticks', None, 'tick labels')
            return
        for loc, want in ((lo, self.V[2][0]), (
                (lo + hi) / 2, self.V[2][len(self.V[2]) // 2]), (hi, self.V[2][-1])):
            u = self.view(0)
            u.val[at.copy().pop()] = loc
            try:
                got = num(u.ev(x))
            except (Unknown, Raises) as e:
                self.note('ticks', None, str(e))
                return
            if got != want:
                self.note('ticks', False, 'the tick label at %s is %s where '
                          'radius %s is drawn' % (float(loc), float(got),
                                                  float(want)), n.line)
                return
        self.note('ticks', True, '')

    def default(self, init):
        """Without an index the viewer starts inside the cube."""
        f = 'index'
        ip, st = Interp(self.ctx.repo), State()
        me = ip.new_inst(self.cls, st)
        r = run_in(ip, init, dict(axis=const(self.axis),
                                  masked=const(self.masked), index=NONE,
                                  coordinates=NONE, frozen=FALSE), me, None,
                   self.cls, st)
        x = ip.get_field(me.args[0], f, r.st) if r.st is not None else None
        if r.failed or x is None:
            self.note('index', None, 'start without an index')
            return
        try:
            k = num(View({}, self.known).ev(ip.den(x, r.st)))
        except (Unknown, Raises) as e:
            self.note('index', None, 'start without an index: %s' % e)
            return
        self.note('index', 0 <= k < self.N[self.axis] and k == int(k),
                  'the viewer starts at index %s of %d' % (
                      float(k), self.N[self.axis]))

    # --------------------------------------------------------------- a step
    def marker_field(self):
        o = self.ip.obj(self.me.args[0], self.st)
        full, empty = [], []
        for f, x in o.fields.items():
            for y in branches(x) if isinstance(x, T) else ():
                h = self.ip.obj(y.args[0], self.st) if y.op == 'ref' else None
                if h is None or h.kind != 'list':
                    continue
                d = self.ip.den(y, self.st)
                if contains(d, plotted):
                    full.append(f)
                elif not any(c in subterms(d) for c in COORDS[0]):
                    empty.append(f)
        out = sorted(set(full or empty))
        return out[0] if len(out) == 1 else None

    def scrolled(self):
        ctx, ip, st, me = self.ctx, self.ip, self.st, self.me
        step = self.cls.find('onscroll')
        self.line = step.node.lineno
        ctx.anchor(ip.get_field(me.args[0], 'index', st) is not None,
                   'GridPropertyViewer.index')
        base, base_pc = st, st.pc

        def havoc(fields):
            s = base.copy()
            o = ip.obj(me.args[0], s).clone()
            o.fields['index'] = INDEX
            for f in fields:
                o.fields[f] = mk('opaque', 'earlier ' + f)
            if self.field:
                o.fields[self.field] = ip.new_list(
                    OLD if self.given else [], s)
            s.heap[me.args[0]] = o
            s.node = base.node
            return s
        s = havoc(())
        mark = len(ip.nodes)
        call_in(ip, step, [me, EVENT], {}, s)
        changed = {n.data[1][1] for n in ip.nodes[mark:]
                   if n.kind == 'write' and n.data[0] == me and
                   n.data[1][0] == 'field'} - {'index', self.field}
        s = havoc(changed)
        mark = len(ip.nodes)
        v0, out = call_in(ip, step, [me, EVENT], {}, s)
        if v0 is None or ip.lost:
            ctx.open('image', self.where, ip.lost or 'scrolling not resolved')
            return
        self.st = s
        nodes = ip.nodes[mark:]
        n = self.N[self.axis]
        for o in out:
            self.note('fails', None, '%s: scrolling may raise %s' % (
                self.where, '/'.join(o.excs or ['?'])), self.line)
        new = ip.get_field(me.args[0], 'index', s)
        for k in range(n):
            for button in ('up', 'down'):
                text = 'scrolling %s from index %d of %d' % (button, k, n)
                v = self.view(k, button)
                try:
                    j = num(v.ev(ip.den(new, s)))
                except (Unknown, Raises) as e:
                    self.note('index', None, '%s: %s' % (text, e))
                    continue
                if not 0 <= j < n or j != int(j):
                    self.note('index', False, '%s: the index becomes %s' % (
                        text, float(j)))
                    continue
                self.note('index', True, text)
                self.after(nodes, int(j), k, button, text)

    def after(self, nodes, j, k, button, text):
        self.before = k
        rows = list(self.placed(j))
        if self.given and j != k:
            c = [[Q(100), Q(200), Q(300)] for x in range(3)]
            for x, i in zip(c, (j, k, k)):
                x[self.axis] = self.V[self.axis][i]
            rows += [(c[0], c[1]), (c[1], c[2])]
        for coords in rows:
            v = self.view(k, button, coords)
            try:
                evs = self.events(nodes, v)
            except (Unknown, Raises) as e:
                self.note('image', None, '%s: %s' % (text, e))
                return
            if j == k and not any(n.kind == 'extmeth' for n in evs):
                continue                # nothing changes, nothing is drawn
            self.shown(v, evs, j, text)
            self.marked(v, evs, j, coords, text,
                        bool(self.given) and j != k)
            draws = [i for i, n in enumerate(evs) if n.kind == 'extmeth' and
                     n.data[1] in ('draw', 'draw_idle')]
            late = [n for i, n in enumerate(evs) if draws and i > draws[-1]
                    and n.kind == 'extmeth' and n.data[1] in (
                        'set_data', 'set_title', 'plot', 'scatter')]
            if any(e.data[1] == 'draw_idle' for e in evs
                   if e.kind == 'extmeth'):
                late = []
            self.note('drawn', bool(draws) and not late, '%s: %s' % (
                text, 'what changes after the canvas was drawn is not seen'
                if draws else 'the canvas is not drawn'),
                late[0].line if late else None)


def branches(v):
    if v.op == 'gamma':
        return branches(v.args[1]) + branches(v.args[2])
    return [v]


def plotted(x):
    return x.op == 'opaque' and x.args and x.args[0] in ('m.plot',
                                                         'm.scatter')


def frozen(ctx, cls):
    """Scrolling does nothing on a frozen viewer."""
    step = cls.find('onscroll')
    ip, st = Interp(ctx.repo), State()
    me = ip.sym(dict(kind='inst', cls=cls), mk('root', 'viewer'))
    o = ip.obj(me.args[0], st).clone()
    ctx.anchor(ip.get_field(me.args[0], 'frozen', st) is not None,
               'GridPropertyViewer.frozen')
    o.fields['frozen'] = TRUE
    st.heap[me.args[0]] = o
    mark = len(ip.nodes)
    v, out = call_in(ip, step, [me, EVENT], {}, st)
    if v is None or ip.lost:
        ctx.open('frozen', 'onscroll', ip.lost or 'not resolved')
        return
    does = [n for n in ip.nodes[mark:] if n.kind in ('write', 'extset') or
            n.kind == 'extmeth' and n.data[1] in (
                'set_data', 'set_title', 'plot', 'imshow', 'draw', 'scatter',
                'set_array', 'draw_idle')]
    ctx.decide(not does, 'frozen', 'onscroll', 'a frozen viewer changes',
               does[0].line if does else step.node.lineno)
    # and it is frozen when asked for
    for asked in (TRUE, FALSE):
        ip, st = Interp(ctx.repo), State()
        me = ip.new_inst(cls, st)
        init = cls.find('__init__')
        r = run_in(ip, init, dict(axis=const(0), coordinates=NONE,
                                  frozen=asked), me, None, cls, st)
        x = ip.get_field(me.args[0], 'frozen', r.st) if r.st is not None \
            else None
        ctx.decide(None if r.failed or x is None or x not in (TRUE, FALSE)
                   else x is asked, 'frozen', 'constructed with frozen=%s'
                   % cval(asked), 'the viewer is %sfrozen' % (
                       '' if x is TRUE else 'not '), init.node.lineno)


def opened(ctx, cls):
    """The plotting methods open the viewer they are asked for."""
    prop = ctx.repo.classes.get('GridProperty')
    for name, fixed in (('plot_cube', False), ('plot_slice', True)):
        f = prop and prop.find(name)
        if not f:
            continue
        axis, index = const(1), mk('param', 'index')
        coords = []

        def setup(ip, st, env):
            if 'coordinates' in env:
                env['coordinates'] = ip.new_list(
                    [mk('tuple', *c) for c in COORDS], st)
                coords.append(env['coordinates'])
        r = run(ctx.repo, f, dict(axis=axis, masked=TRUE), None, setup, prop)
        ctx.analysed(r)
        if r.failed or r.st is None:
            ctx.open('opened', name, r.failed or 'no normal exit')
            continue
        ip = r.ip
        made = [mk('ref', k) for k, o in r.st.heap.items()
                if o.kind == 'inst' and o.cls is cls and not pre_existing(k)]
        if len(made) != 1:
            ctx.decide(None, 'opened', name, 'viewers made: %d' % len(made))
            continue
        get = lambda f: ip.get_field(made[0].args[0], f, r.st)
        line = f.node.lineno
        want = [('axis', axis), ('frozen', const(fixed))]
        if fixed:
            want.append(('index', index))
        for k, w in want:
            x = get(k)
            if k == 'index' and x is not None and index in branches(x):
                try:
                    v = View({index: Q(1, 7)}, {})      # not None
                    x = index if v.ev(ip.den(x, r.st)) == Q(1, 7) else x
                except (Unknown, Raises):
                    pass
            ctx.decide(None if x is None or x is not w and not (
                x.op in ('const', 'param')) else x is w, 'opened',
                '%s: %s' % (name, k), 'the viewer has %s %s' % (
                    k, show(x, 3) if x is not None else '?'), line)
        if fixed:
            continue
        x = get('coordinates')
        if x is not None and coords:
            xs = set(branches(x))
            ctx.decide(True if xs == {coords[0]} else
                       False if xs == {NONE} else None, 'opened',
                       name + ': coordinates',
                       'the coordinates are not passed on', line)
        links = [n for n in ip.nodes if n.kind == 'extmeth' and
                 n.data[1] == 'mpl_connect']
        ok, why = False, 'scroll events are not connected'
        for n in links:
            a = list(n.data[2]) + list(n.data[3].values())
            if any(is_str(x) and cval(x) == 'scroll_event' for x in a):
                to = [x for x in a if isinstance(x, T) and not is_str(x)]
                hit = any(made[0] in subterms(x) and 'onscroll' in str(x.args)
                          for x in to)
                ok = True if hit else None
                why = 'what scroll events are connected to'
        ctx.decide(ok, 'opened', name + ': scrolling', why, line)
