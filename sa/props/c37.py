"""What the printed summaries report, evaluated. The __str__ and __repr__ of
every class are interpreted; the returned text is a value-flow term made of
literal pieces, formatted numbers, padding and joins. It is written out for
many objects (ordinary values, zeros, limits, undefined data, masks, any
number of rings and gradients) and each reported number is compared, at the
printed precision, with the value the object holds. A number that cannot be
evaluated is left out of the judgement."""
import math
import os
import re
import statistics
from ..common import *
from ..ledger import *
from ..pointwise import NAN
from .c03 import Table
from .c13 import field, raw, with_gradients
from .c16 import read
from .c17 import PARTS
from .c35 import Stored, RING, THIRD, FINE, TINY, HUGE, bind
from .c36 import Rings, arrangements

HOLE = '\ufffd'         # a piece of text that is not determined
NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)', re.I)
PAD = {'rjust': str.rjust, 'ljust': str.ljust, 'center': str.center,
       'zfill': str.zfill}
PLAIN = {n: getattr(str, n) for n in (
    'upper', 'lower', 'capitalize', 'title', 'strip', 'lstrip', 'rstrip',
    'replace', 'split', 'rsplit', 'splitlines', 'swapcase', 'casefold',
    'removeprefix', 'removesuffix', 'expandtabs', 'startswith', 'endswith')}


TEXTS = ('strm', 'segsof', 'set', 'ins')


class Texts:
    """Evaluation of terms that are texts; mixed into an evaluator of
    numbers."""

    def ev0(self, t):
        o, a = t.op, t.args
        if o == 'str':
            return ''.join(self.text(x) for x in a)
        if o == 'tostr':
            return self.plain_text(a[0])
        if o == 'fmt':
            return self.formatted(a[0], a[1])
        if o == 'strm':
            return self.method(a[0], a[1:])
        if o in ('mul', 'add') and len(a) == 2:
            vs = []
            for x in a:
                if x.op in ('str', 'strm', 'tostr', 'fmt') or is_str(x):
                    vs.append(self.ev(x))
                elif o == 'mul' and is_int(x):
                    vs.append(cval(x))
            if len(vs) == 2 and any(isinstance(v, str) for v in vs):
                return vs[0] * vs[1] if o == 'mul' else vs[0] + vs[1]
        if o == 'item' and a[1].op == 'slice' and any(
                x.op in TEXTS for x in subterms(a[0])):
            return sliced(self.listing(a[0]), a[1])
        if o in ('elem', 'item') and (
                a[0].op in TEXTS or a[0].op == 'item' and
                a[0].args[1].op == 'slice') and a[1].op != 'slice':
            v = self.listing(a[0]) if a[0].op != 'strm' else self.ev(a[0])
            k = int(num(self.ev(a[1])))
            if not isinstance(v, list):
                raise Unknown('item')
            if not -len(v) <= k < len(v):
                raise Raises('IndexError')
            return v[k]
        if o == 'len' and (a[0].op in ('strm', 'str', 'tostr', 'fmt') or
                           a[0].op == 'item' and
                           a[0].args[1].op == 'slice' and any(
                               x.op in TEXTS for x in subterms(a[0]))):
            return Q(len(self.ev(a[0])))
        return super().ev0(t)

    def text(self, x):
        """A piece of a text; a hole where it is not determined."""
        if is_str(x):
            return cval(x)
        try:
            v = self.ev(x)
        except Unknown as e:
            if os.environ.get('VERIF_DEBUG'):
                print('hole:', e, show(x, 4)[:300])
            return HOLE
        if isinstance(v, str):
            return v
        return self.written(v)

    def written(self, v):
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int) or isinstance(v, Q) and v.denominator == 1:
            return str(int(v))
        return HOLE

    def plain_text(self, x):
        if x.op == 'tuple':
            vs = [self.plain_text(y) for y in x.args]
            return '(%s%s)' % (', '.join(vs), ',' * (len(vs) == 1))
        if x.op == 'list':
            return '[%s]' % ', '.join(map(self.plain_text, x.args))
        return self.text(x)

    def formatted(self, x, spec):
        if not is_str(spec):
            raise Unknown('format')
        if is_str(x):
            return format(cval(x), cval(spec))
        try:
            v = self.ev(x)
        except Unknown as e:
            if os.environ.get('VERIF_DEBUG'):
                print('hole:', e, show(x, 4)[:300])
            return HOLE
        if isinstance(v, str):
            return format(v, cval(spec))
        if v is None:
            raise Raises('TypeError')
        v = num(v)
        try:
            if isinstance(v, Q) and v.denominator == 1 and \
                    cval(spec)[-1:] in 'dxXb':
                return format(int(v), cval(spec))
            return format(float('nan') if nan(v) else float(v), cval(spec))
        except ValueError:
            raise Raises('ValueError')

    def method(self, name, args):
        if name == 'join':
            parts = []
            for x in self.listing(args[1]):
                if not isinstance(x, str):
                    raise Unknown('join')
                parts.append(x)
            return self.text(args[0]).join(parts)
        s = self.text(args[0])
        rest = [self.ev(x) if not is_str(x) else cval(x) for x in args[1:]
                if x.op != 'kw']
        if any(x.op == 'kw' for x in args):
            raise Unknown('strm')
        if name in PAD:
            n = rest[0]
            fill = rest[1:] if all(isinstance(x, str) for x in rest[1:]) \
                else ()
            return PAD[name](s, int(n), *fill)
        if name in PLAIN:
            return PLAIN[name](s, *[int(x) if isinstance(x, Q) else x
                                    for x in rest])
        raise Unknown('strm ' + str(name))


class Lines(Texts, Stored):
    """Texts over arrays, and the short lists they are joined from."""

    def ev0(self, t):
        o, a = t.op, t.args
        if o == 'item' and a[0].op == 'seq' and a[1].op != 'slice' and any(
                x.op in TEXTS for x in subterms(a[0])):
            v, k = self.parts(a[0]), int(num(self.ev(a[1])))
            if not -len(v) <= k < len(v):
                raise Raises('IndexError')
            return v[k]
        if o == 'fld' and os.environ.get('VERIF_DEBUG') and t not in self.val:
            print('no value:', show(t, 6))
        if o in ('np.nanmean', 'np.nanmedian', 'np.mean', 'np.median',
                 'np.count_nonzero', 'np.nansum', 'np.nanstd', 'np.std') \
                and len(a) == 1:
            vs = [num(self.at(a[0], i))
                  for i in self.indices(self.shape(a[0]))]
            return statistic(o[3:], vs)
        if o == 'len' and a[0] in self.val:
            v = self.val[a[0]]
            if isinstance(v, list):
                return Q(len(v))
        return super().ev0(t)

    def listing(self, t):
        return self.parts(t)

    def parts(self, t):
        o, a = t.op, t.args
        if o in ('list', 'tuple'):
            return [self.text(x) for x in a]
        if o in ('seq', 'segs', 'multi'):
            return [y for x in a for y in self.parts(x)]
        if o == 'one':
            return [self.text(a[0])]
        if o == 'slice' and len(a) == 2:
            return sliced(self.parts(a[0]), a[1])
        if o == 'gamma':
            return self.parts(a[1] if truth(self.ev(a[0])) else a[2])
        if o == 'opaque' and len(a) == 1 and isinstance(a[0], T):
            return self.parts(a[0])
        if o == 'segsof':
            return [y for x in a[1:] for y in self.parts(x)]
        if o in EDITS:
            v = self.parts(a[0])
            if o == 'rev':
                return v[::-1]
            if a[1].op == 'slice':
                raise Unknown('slice')
            k = int(num(self.ev(a[1])))
            if o == 'ins':
                v.insert(k, self.text(a[2]))
                return v
            if not -len(v) <= k < len(v):
                raise Raises('IndexError')
            if o == 'set':
                v[k] = self.text(a[2])
            elif o == 'del':
                del v[k]
            else:
                raise Unknown(o)
            return v
        if o == 'map':
            n, idx, body, cond = a
            out = []
            for k in range(int(num(self.ev(n)))):
                sub = type(self)({**self.val, idx: Q(k)}, self.arrays)
                if truth(sub.ev(cond)):
                    out += sub.parts(body) if body.op == 'multi' else [
                        sub.text(body)]
            return out
        v = self.ev(t)
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            return v
        raise Unknown('list of texts: ' + o)

    def at(self, t, ix):
        return super().at(t, ix)


class Rows(Texts, Ledger):
    def listing(self, t):
        v = self.ev(t)
        if not isinstance(v, list):
            raise Unknown('join')
        return v


def sliced(v, t):
    ks = [cval(x) if is_int(x) else None for x in t.args]
    if any(k is None and x is not NONE for k, x in zip(ks, t.args)):
        raise Unknown('slice')
    return v[slice(*ks)]


def statistic(o, vs):
    if 'nan' in o:
        vs = [v for v in vs if not nan(v)]
        if not vs:
            return Q(0) if 'sum' in o else NAN
    elif any(map(nan, vs)):
        return NAN
    if o == 'count_nonzero':
        return Q(sum(1 for v in vs if v))
    if 'sum' in o:
        return sum(vs, Q(0))
    if 'std' in o:
        return statistics.pstdev(vs)
    if 'median' in o:
        return statistics.median(vs)
    return sum(vs, Q(0)) / len(vs)


# ------------------------------------------------------------------ judging
def same_number(text, want):
    """A printed number against the value it stands for."""
    got = float(text)
    if want is None or nan(want):
        return math.isnan(got)
    if math.isnan(got):
        return False
    want = Q(want) if not isinstance(want, float) else want
    mant, _, exp = text.lower().partition('e')
    digits = len(mant.partition('.')[2]) - (int(exp) if exp else 0)
    if isinstance(want, Q) and want.denominator == 1 and '.' not in text:
        return Q(text) == want if not exp else got == float(want)
    if digits < 2 and not (exp and len(mant) > 3):
        return None if abs(got - float(want)) <= 10.0 ** -digits else False
    slack = 0.5 * 10.0 ** -digits * (1 + 1e-6) + 1e-9 * abs(float(want)) \
        * 1e-3
    return abs(got - float(want)) <= slack


def judge(tab, lines, label, want, text):
    """The numbers behind a label."""
    hits = []
    for line in lines:
        m = re.search(label, line, re.I)
        if m:
            hits.append(line[m.end():])
    if not hits:
        tab.row(None if any(HOLE in x for x in lines) else False,
                '%s: not reported' % text)
        return
    if len(hits) > 1:
        tab.row(None, '%s: reported twice' % text)
        return
    if HOLE in hits[0]:
        tab.row(None, text + ': not determined')
        return
    got = NUMBER.findall(hits[0])
    if len(got) < len(want):
        tab.row(False, '%s: %r does not report %s' % (
            text, hits[0].strip(), ', '.join(map(word, want))))
        return
    oks = [same_number(g, w) for g, w in zip(got, want)]
    tab.row(False if False in oks else None if None in oks else True,
            '%s: %s instead of %s' % (text, ', '.join(got[:len(want)]),
                                      ', '.join(map(word, want))))


def word(v):
    return 'nan' if v is None or nan(v) else '%.9g' % float(v)


class Report:
    def __init__(self, ctx, where, line):
        self.ctx, self.where, self.line, self.tabs = ctx, where, line, {}

    def tab(self, what):
        if what not in self.tabs:
            self.tabs[what] = Table(self.ctx, '%s, %s' % (self.where, what),
                                    self.line)
        return self.tabs[what]

    def write(self, pt, t, what):
        """The lines of the text, or None."""
        try:
            return pt.text(t) if is_str(t) else pt.ev(t)
        except Raises as e:
            self.tab('printing').row(False, '%s: raises (%s)' % (what, e))
        except (Unknown, RecursionError, TypeError) as e:
            if os.environ.get('VERIF_DEBUG'):
                print('unknown:', self.where, e)
            self.tab('printing').row(None, '%s: %s' % (what, e))
        return None

    def lines(self, pt, t, what):
        s = self.write(pt, t, what)
        if s is None:
            return None
        if not isinstance(s, str):
            self.tab('printing').row(None, 'no text')
            return None
        self.tab('printing').row(True, '')
        return s.split('\n')

    def check(self, lines, what, label, want, text):
        judge(self.tab(what), lines, label, want, text)

    def done(self):
        for t in self.tabs.values():
            t.done('reported')


def printed(ctx, cls, setup=None):
    """(run, term of the text) of each printing method of a class."""
    for name in ('__str__', '__repr__'):
        f = cls.find(name)
        if f is None:
            continue
        r = run(ctx.repo, f, cls=cls, setup=setup)
        where = '%s.%s' % (cls.name, name)
        if r.failed or r.st is None:
            ctx.open('reported', where, r.failed or 'no normal exit')
            continue
        ctx.analysed(r)
        yield r, r.ip.den(r.value, r.st), Report(ctx, where, f.node.lineno)


def check(ctx):
    repo = ctx.repo
    C = {n: repo.classes.get(n) for n in (
        'Ring', 'RingSystem', 'GridParameters', 'GridProperty',
        'GridGradient', 'GridDiagnostics', 'ShallotGrid')}
    for n, c in C.items():
        ctx.anchor(c is not None, 'class ' + n)
    one_ring(ctx, C['Ring'])
    ring_system(ctx, C['RingSystem'], C['Ring'])
    parameters(ctx, C['GridParameters'])
    for n in ('GridProperty', 'GridGradient'):
        grid_property(ctx, C[n])
    diagnostics(ctx, C['GridDiagnostics'])
    shallot(ctx, C['ShallotGrid'], C['GridGradient'])
    for n in ('GridPropertyName', 'GridPropertyUnit'):
        c = repo.classes.get(n)
        if c is not None:
            members(ctx, c)


def members(ctx, cls):
    """A name is printed as the words of the member."""
    f = cls.find('__str__')
    if f is None:
        return
    where = cls.name + '.__str__'
    r = run(ctx.repo, f, cls=cls)
    if r.failed or r.st is None:
        ctx.open('reported', where, r.failed or 'no normal exit')
        return
    ctx.analysed(r)
    me, t = r.env['self'], r.ip.den(r.value, r.st)
    rep = Report(ctx, where, f.node.lineno)
    for nm in cls.attrs:
        if nm.startswith('_'):
            continue
        val = {mk('attr', x, 'name'): nm for x in (me, r.ip.den(me, r.st0))}
        lines = rep.lines(Lines(val, {}), t, nm)
        if lines is None:
            continue
        want = ' '.join(w.capitalize() for w in nm.split('_'))
        rep.tab('words').row(None if HOLE in lines[0] else lines == [want],
                             '%s is printed as %r' % (nm, lines[0]))
    rep.done()


ROUNDED = (Q(996, 1000), Q(123456, 10 ** 4), 0, Q(99999, 10 ** 5),
           Q(1, 200) + TINY, 12 + THIRD)


def one_ring(ctx, cls):
    for r, t, rep in printed(ctx, cls):
        me = r.env['self']
        was = {q: strip_all(read(r.ip, me, q, r.st0)) for q in RING[0]}
        rows = [v for v in RING if v['inner_radius'] < 10 ** 6] + [dict(zip(
            RING[0], (x, x + 4, min(x / 13, Q(1)), x, x - 40)))
            for x in ROUNDED]
        for row in rows:
            val = {}
            for q, v in row.items():
                bind(val, was[q], v)
            text = 'ring with ' + ', '.join(map(word, row.values()))
            lines = rep.lines(Lines(val, {}), t, text)
            if lines is None:
                continue
            for q in row:
                rep.check(lines, q, label(q), [row[q]], text)
        rep.done()


def label(q):
    return r'\b%s[^\w\n]*?[:=]' % q.replace('_', r'[ _]')


def ring_system(ctx, cls, ring):
    for r, t, rep in printed(ctx, cls):
        rs = Rings(r, ring)
        me = r.env['self']
        was = {q: strip_all(read(r.ip, me, q, r.st0))
               for q in ('planet_radius', 'inclination', 'tilt')}
        for k, rows in enumerate(arrangements()):
            more = {}
            own = (ROUNDED[k % 6], Q(k) * THIRD * 7,
                   Q(k % 9 - 4) * 44 + THIRD)
            for (q, x), v in zip(was.items(), own):
                bind(more, x, v)
            text = '%d rings' % len(rows)
            pt = Rows(rs.ip, r.st, {**{rs.before: rs.things(rows),
                                      mk('ref', rs.before): rs.things(rows)},
                                    **more}, {})
            lines = rep.lines(pt, t, text)
            if lines is None:
                continue
            for q, v in zip(was, own):
                rep.check(lines, q, label(q), [v], text)
            table(rep, lines, rows, text)
        rep.done()


def table(rep, lines, rows, text):
    """One line per ring: its number and the values of its parts."""
    head = [k for k, x in enumerate(lines) if re.search(
        'inner.*outer.*transm', x, re.I)]
    if not head:
        rep.tab('table of rings').row(None, 'no table')
        return
    body = [x for x in lines[head[-1] + 1:] if re.search(r'\d|nan', x) or
            HOLE in x]
    if any(HOLE in x for x in body):
        rep.tab('table of rings').row(None, text + ': not determined')
        return
    if len(body) != len(rows):
        rep.tab('table of rings').row(False, '%s: %d lines' % (
            text, len(body)))
        return
    for k, (line, row) in enumerate(zip(body, rows)):
        got = NUMBER.findall(line)
        want = (Q(k + 1),) + row
        oks = [same_number(g, w) for g, w in zip(got, want)]
        rep.tab('table of rings').row(
            False if len(got) < 4 or False in oks else None if None in oks
            else True, '%s: line %r for ring %d with %s' % (
                text, line.strip(), k + 1, ', '.join(map(word, row))))


def axes(n):
    """dy, dx and radius factors of small grids."""
    return [((0, Q(1, 2), 1), (0, THIRD), (FINE / 1000, 3, 1, 3, FINE / 1000)),
            ((Q(-5, 3), 7), (Q(996, 1000), 2, 5), (2, 1, 2)),
            ((Q(1, 200),), (Q(-7, 8),), (1,)),
            ((0, 1, 2, Q(31, 10)), (0, HUGE), (Q(7, 2), 2, 1, 2, Q(7, 2)))][n]


def arrays_of(ip, me, k, st):
    dy, dx, rf = axes(k)
    out = {}
    for nm, vs, s in (('dy', dy, (len(dy), 1)), ('dx', dx, (1, len(dx))),
                      ('rf_array', rf, (len(rf),))):
        for b in branches(field(ip, me, nm, st)):
            if b is not NONE:
                out[b] = (s, lambda ix, vs=vs, nm=nm: vs[
                    ix[1] if nm == 'dx' else ix[0]])
    return out, dict(dy=dy, dx=dx, rf_array=rf)


def parameters(ctx, cls):
    for r, t, rep in printed(ctx, cls):
        for k in range(4):
            arrays, v = arrays_of(r.ip, r.env['self'], k, r.st0)
            pt = Lines({}, arrays)
            pt.before = v
            text = 'grid %d' % k
            lines = rep.lines(pt, t, text)
            if lines is not None:
                axes_reported(rep, lines, v, text)
        rep.done()


def axes_reported(rep, lines, v, text):
    for nm in ('dx', 'dy'):
        vs = v[nm]
        rep.check(lines, nm, label(nm), [vs[0], vs[-1], len(vs)], text)
    rf = v['rf_array']
    rep.check(lines, 'rf', label('rf'), [rf[0], 1, rf[-1], len(rf)], text)
    rep.check(lines, 'grid_shape', label('grid_shape'), [
        len(v['dy']), len(v['dx']), len(rf)], text)


def data_cases():
    s = (2, 3, 1)
    cells = [(THIRD, FINE, NAN, -THIRD, Q(996, 1000), 0),
             (NAN,) * 6, (5, 5, 5, 5, 5, 6), (NAN, NAN, 2, NAN, 9, 4),
             (-7, -8, -Q(996, 1000), -3, -2, -11)]
    masks = [None, (1, 0, 0, 0, 0, 0), (0,) * 6, (1,) * 6,
             (1, 0, 1, 0, 1, 0), (0, 1, 1, 1, 1, 1)]
    for k, c in enumerate(cells):
        for m in (masks if k == 0 else (masks[0], masks[k])):
            yield s, c, m


def cube(s, vs):
    return s, lambda ix: vs[ix[0] * s[1] + ix[1]]


def grid_property(ctx, cls):
    for r, t, rep in printed(ctx, cls):
        ip, me, st = r.ip, r.env['self'], r.st0
        pars = ip.get_field(me.args[0], 'grid_parameters', st)
        for k, (s, cells, mask) in enumerate(data_cases()):
            vs = [c for c in cells if not nan(c)]
            own = dict(vmin=min(vs) - k % 2 if vs else None,
                       vmax=max(vs) + THIRD * (k % 3) if vs else None)
            if vs and k % 4 == 3:
                own['vmin' if k % 8 == 3 else 'vmax'] = Q(0)
            extra = dict(position=-THIRD * k)
            n = ('measured_gradient', 'measured_error', 'orbital_scale',
                 'transmission_change')
            if k % 2:
                extra.update(zip(n, (
                    [Q(0), Q(0), Q(996, 1000), TINY],
                    [ROUNDED[1], ROUNDED[3], ROUNDED[4], ROUNDED[0]])[
                        k % 4 == 1]))
            else:
                extra.update(dict.fromkeys(n))
            val, arrays = {}, {}
            for b in branches(field(ip, me, 'data', st)):
                arrays[b] = cube(s, cells)
            put_mask(ip, me, st, val, arrays, s, mask)
            for q, v in list(own.items()) + (list(extra.items()) if
                                             cls.find('determine_mask')
                                             else []):
                optional(ip, me, q, st, val, v)
            nm, unit = NAMES[k % len(NAMES)]
            named(ip, me, st, val, nm, unit)
            pt = Lines(val, arrays)
            if pars is not None and pars.op == 'ref':
                more, pv = arrays_of(ip, pars, k % 4, st)
                pt.arrays.update(more)
                pt.before = pv
            text = 'example %d' % k
            lines = rep.lines(pt, t, text)
            if lines is None:
                continue
            if pars is not None and any(re.search(label('grid_shape'), x)
                                        for x in lines):
                axes_reported(rep, lines, pv, text)
            head = heading(rep, lines, nm, unit, text)
            section(rep, lines, own, cells, mask, text)
            if cls.find('determine_mask'):
                if head is not None:
                    rep.check([head], 'position', r'pos\w*\s*[=:]',
                              [extra['position']], text)
                for q in n:
                    if extra[q] is not None:
                        rep.check(lines, q, label(q), [extra[q]], text)
        rep.done()


NAMES = (('DISK_RADIUS', '$t_{ecl}$'), ('TILT', '$^o$'), ('GRADIENT', '-'),
         ('FX_MAP', '-'), ('DIAGNOSTIC_MAP', '-'))


def heading(rep, lines, nm, unit, text):
    """The line with the name and the unit."""
    words = ' '.join(nm.split('_')).lower()
    tab = rep.tab('name and unit')
    for x in lines:
        if x.lower().startswith(words) and '[%s]' % unit in x:
            tab.row(True, '')
            return x
    tab.row(None if any(HOLE in x for x in lines) else False,
            '%s: %s [%s] is not reported' % (text, words, unit))
    return None


def section(rep, lines, own, cells, mask, text, who=''):
    vs = [c for c in cells if not nan(c)]
    for q, v in (('min value', own['vmin']), ('max value', own['vmax']),
                 ('mean value', statistic('nanmean', list(cells))),
                 ('median value', statistic('nanmedian', list(cells)))):
        rep.check(lines, who + q, label(q), [v], text)
    found = [x for x in lines if re.match(r'\s*mask', x, re.I)]
    if mask is not None:
        rep.check(lines, who + 'masked percentage', r'^\s*mask[^:]*:',
                  [Q(100 * sum(mask), len(mask))], text)
    elif not any(HOLE in x for x in lines):
        rep.tab(who + 'masked percentage').row(
            not found, '%s: %r without a mask' % (text, found))


def optional(ip, me, q, st, val, v):
    """A field that may be None."""
    x = ip.get_field(me.args[0], q, st)
    if x is None:
        return
    for b in branches(x):
        if b is NONE:
            continue
        b = strip_all(ip.den(b, st))
        val[mk('isnone', b)] = v is None
        val[b] = Q(v) if v is not None else None


def put_mask(ip, me, st, val, arrays, s, mask):
    term, absent = raw(ip, me, 'mask', st)
    if absent is not None:
        val[mk('isnone', absent)] = mask is None
    val[mk('isnone', term)] = mask is None
    if mask is not None:
        arrays[term] = cube(s, [bool(x) for x in mask])


def named(ip, me, st, val, nm, unit):
    for q, attr, v in (('name', 'name', nm), ('unit', 'value', unit)):
        x = ip.get_field(me.args[0], q, st)
        for y in {x, ip.den(x, st)}:
            val[mk('attr', y, attr)] = v


def diagnostics(ctx, cls):
    for r, t, rep in printed(ctx, cls):
        oid = r.env['self'].args[0]
        lens = {x for x in subterms(t) if x.op == 'len' and
                x.args[0].op in ('fld', 'ref')}
        for n in (0, 1, 7, 25):
            val = {x: Q(n) for x in lens}
            text = '%d diagnostics' % n
            lines = rep.lines(Lines(val, {}), t, text)
            if lines is not None:
                rep.check(lines, 'number saved', r'saved\s*[:=]', [n], text)
        rep.done()


def shallot(ctx, cls, gradient):
    for n in (0, 2):
        hold = {}
        base = with_gradients(ctx.repo, cls, gradient, n, hold)
        for r, t, rep in printed(ctx, cls, base):
            rep.where += ', %d gradients' % n
            grid(ctx, r, t, rep, hold, n)
            rep.done()


def grid(ctx, r, t, rep, hold, n):
    ip, st = r.ip, r.st0
    me = r.env['self']
    pars = ip.get_field(me.args[0], 'parameters', st)
    own = [(nm, ip.get_field(me.args[0], nm, st)) for nm in (
        'disk_radius', 'inclination', 'tilt')] + [
        ('gradient %d' % k, e) for k, e in enumerate(hold['els'])]
    diag = ip.get_field(me.args[0], 'diagnostic_map', st)
    diag = next((b for b in branches(diag) if b.op == 'ref'), None) \
        if diag is not None else None
    s = (2, 3, 1)
    dy, dx, rf = (0, Q(1, 2)), (0, THIRD, 1), (1,)
    for k in range(6):
        val, arrays, masks, text = {}, {}, [], 'example %d' % k
        more, v = arrays_of(ip, pars, 0, st)
        v = dict(dy=dy, dx=dx, rf_array=rf)
        for nm, x in (('dy', (2, 1)), ('dx', (1, 3)), ('rf_array', (1,))):
            for b in branches(field(ip, pars, nm, st)):
                arrays[b] = (x, lambda ix, nm=nm: v[nm][
                    ix[1] if nm == 'dx' else ix[0]])
        rows = {}
        for j, (nm, ref) in enumerate(own):
            cells = [NAN if (i + j + k) % 5 == 0 else
                     Q((i * 7 + j * 3 + k) % 11) + THIRD * j - 4
                     for i in range(6)]
            for b in branches(field(ip, ref, 'data', st)):
                arrays[b] = cube(s, cells)
            mask = None if (k + j) % 3 == 0 else [
                (i + j * k) % (2 + j) == 0 for i in range(6)]
            if k == 5:
                mask = None
            put_mask(ip, ref, st, val, arrays, s, mask)
            lim = dict(vmin=Q(j - 40), vmax=Q(j + 30) + THIRD)
            for q, x in lim.items():
                optional(ip, ref, q, st, val, x)
            if nm.startswith('gradient'):
                for q in ('position', 'measured_gradient', 'measured_error',
                          'orbital_scale', 'transmission_change'):
                    optional(ip, ref, q, st, val, Q(len(q)) + THIRD * j)
            key = nm.split(' ')[0].upper()
            named(ip, ref, st, val, key, 'unit')
            rows[nm] = (key, lim, cells, mask)
            if mask is not None:
                masks.append(mask)
        if diag is not None and diag.op == 'ref':
            cells = [(NAN, -THIRD, Q(1, 7), -Q(123456789, 10 ** 11), 0,
                      Q(1, 9))[(i + k) % 6] for i in range(6)]
            if k == 2:
                cells = [NAN, Q(1, 8), NAN, -Q(1, 1000), 0, NAN]
            for b in branches(field(ip, diag, 'data', st)):
                arrays[b] = cube(s, cells)
            put_mask(ip, diag, st, val, arrays, s, None)
        number = (None, 3, 0, None, 12, 1)[k]
        saved(r, me, t, val, number)
        pt = Lines(val, arrays)
        pt.before = v
        lines = rep.lines(pt, t, text)
        if lines is None:
            continue
        axes_reported(rep, lines, v, text)
        total = [any(m[i] for m in masks) for i in range(6)]
        rep.check(lines, 'percentage masked', r'percentage masked\s*[:=]',
                  [Q(100 * sum(total), 6)], text)
        worst = max(abs(c) for c in cells if not nan(c))
        rep.check(lines, 'worst fit', r'interpolation fit\s*[:=]', [worst],
                  text)
        parts(rep, lines, rows, text)
        if number is not None:
            rep.check(lines, 'diagnostics', r'saved\s*[:=]', [number], text)


def saved(r, me, t, val, n):
    """The diagnostics: absent, or a number of them."""
    o = r.ip.get_field(me.args[0], 'diagnostics', r.st0)
    for b in branches(o) if o is not None else ():
        if b is not NONE:
            b = b.args[0] if b.op == 'ref' else b
            val[mk('isnone', b)] = n is None
            for x in subterms(t):
                if x.op == 'len' and x.args[0].op == 'fld' and \
                        x.args[0].args[0] is b:
                    val[x] = Q(n or 0)


def parts(rep, lines, rows, text):
    """The sections of the properties, each under its heading."""
    heads = []
    for key, *_ in {v[0]: v for v in rows.values()}.values():
        words = ' '.join(key.split('_')).lower()
        heads += [(k, key) for k, x in enumerate(lines)
                  if x.lower().startswith(words + ' [')]
    heads.sort()
    for key in {v[0] for v in rows.values()}:
        want = [v for v in rows.values() if v[0] == key]
        at = [k for k, x in heads if x == key]
        who = ' '.join(key.split('_')).lower() + ', '
        if len(at) != len(want):
            rep.tab(who + 'part').row(
                None if any(HOLE in x for x in lines) else False,
                '%s: %d parts %s instead of %d' % (
                    text, len(at), who.strip(', '), len(want)))
            continue
        for k, (_, lim, cells, mask) in zip(at, want):
            end = min([h for h, _ in heads if h > k] + [
                j for j, x in enumerate(lines) if j > k and re.match(
                    'grid information|=====', x, re.I)] + [len(lines)])
            section(rep, lines[k:end], lim, cells, mask, text, who)
