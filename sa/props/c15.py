"""Decision-table extraction. The operations that add or replace a ring are
interpreted for systems of 0 to 3 rings at every position, once per order type
of the radii involved (which radius is smaller than, equal to or larger than
which): the order is assumed as facts, so every comparison in the code is
decided by the abstract interpreter. Comparisons that are not pure order (for
instance with a tolerance) are evaluated on representatives of the order type
at several scales. The outcome - refused with a value error, or stored at the
position asked for - must be the one the property prescribes in every row of
the table. The radii stay symbolic; nothing of the code is run."""
from fractions import Fraction as Q
from ..common import *
from ..pointwise import Point, Unknown, Raises, truth
from .c16 import read


def check(ctx):
    repo = ctx.repo
    system, ring = repo.classes.get('RingSystem'), repo.classes.get('Ring')
    ctx.anchor(system is not None and ring is not None,
               'classes RingSystem and Ring')
    ops = [(n, system.find(n)) for n in ('add_ring', 'replace_ring')]
    for n, f in ops:
        ctx.anchor(f, 'RingSystem.' + n)
    for name, f in ops:
        table(ctx, repo, system, ring, f, name == 'replace_ring')


def radii(n, touching):
    """Edges of n existing rings."""
    out, x = [], Q(2)
    for k in range(n):
        out.append((x, x + 2))
        x += 2 if touching else 4
    return out


def placements(n, touching):
    pts = sorted({e for r in radii(n, touching) for e in r})
    vals = [pts[0] - 1] if pts else []
    for a, b in zip(pts, pts[1:] + [None]):
        vals += [a, (a + b) / 2 if b is not None else a + 1]
    if not pts:
        vals = [Q(1), Q(2)]
    out = []
    for i, a in enumerate(vals):
        for b in vals[i + 1:]:
            out.append((a, b))
        if a not in pts:
            out.append((a, a + Q(1, 4)))
    return out


def expected(rs, i, a, b, replace):
    prev = rs[i - 1][1] if i > 0 else None
    j = i + 1 if replace else i
    nxt = rs[j][0] if j < len(rs) else None
    if prev is not None and a < prev:
        return False
    if nxt is not None and b > nxt:
        return False
    return True


def table(ctx, repo, system, ring, f, replace):
    where = 'RingSystem.' + f.name
    rows = 0
    bad, opn = {}, {}
    memo = {}
    for n in range(4):
        for touching in (False, True)[:1 + (n > 1)]:
            rs = radii(n, touching)
            for i in range(n if replace else n + 1):
                if n == 3 and (i != 1 or touching and not replace):
                    continue
                for a, b in placements(n, touching):
                    if n == 3 and not near(rs, i, a, b):
                        continue
                    rows += 1
                    row(ctx, repo, system, ring, f, rs, i, a, b, replace,
                        where, bad, opn, n)
    for k, (d, line) in sorted(bad.items()):
        ctx.bad(k[0], k[1], d, line)
    for k, d in sorted(opn.items()):
        ctx.open(k[0], k[1], d)
    if not bad and not opn:
        ctx.ok('table', where, '%d order types agree' % rows)
    ctx.anchor(rows > 50, 'order types')


def near(rs, i, a, b):
    lo, hi = rs[max(i - 1, 0)][0], rs[min(i + 1, len(rs) - 1)][1]
    return lo <= a and b <= hi


def row(ctx, repo, system, ring, f, rs, i, a, b, replace, where, bad, opn,
        n):
    hold = {}

    def setup(ip, st, env):
        me = env['self']
        els = []
        for k in range(n):
            els.append(ip.sym(dict(kind='inst', cls=ring),
                              mk('root', 'ring %d' % k)))
        arr = ip.new_arr(mk('list', *els), st)
        o = ip.obj(me.args[0], st).clone()
        o.fields['rings'] = arr
        st.heap[me.args[0]] = o
        ao = ip.obj(arr.args[0], st)
        if ao is not None:
            ao = ao.clone()
            ao.elem = dict(kind='inst', cls=ring)
            st.heap[arr.args[0]] = ao
        names = list(env)
        new = [k for k, v in env.items() if k != 'self' and v.op == 'ref' and
               getattr(ip.obj(v.args[0], st), 'cls', None) is ring]
        idx = [k for k in env if k not in new and k != 'self']
        if len(new) != 1 or not idx:
            raise AnalysisError('anchor vanished: %s(index, ring)' % where)
        env[idx[0]] = const(i)
        val = {}
        for e, (lo, hi) in list(zip(els, rs)) + [(env[new[0]], (a, b))]:
            for nm, x in (('inner_radius', lo), ('outer_radius', hi)):
                t = read(ip, e, nm, st)
                if t is None:
                    raise AnalysisError('anchor vanished: ' + nm)
                val[t] = x
        for x in val:
            st.facts[mk('isnan', x)] = False
            st.facts[mk('notnum', x, False)] = False
        for x, p in val.items():
            for y, q in val.items():
                if x is y:
                    continue
                st.assume(mk('lt', x, y), p < q)
                st.assume(mk('le', x, y), p <= q)
                st.assume(mk('eq', x, y), p == q)
        hold.update(val=val, els=els, new=env[new[0]], me=me)
    r = run(repo, f, setup=setup, cls=system)
    if len(hold) < 4 or r.failed:
        opn[('table', where)] = r.failed or 'not interpreted'
        return
    if i == 0 and n == 0:
        ctx.analysed(r)
    good = expected(rs, i, a, b, replace)
    pos = 'first' if i == 0 else 'last' if i == (n - 1 if replace else n) \
        else 'middle'
    if n == 0:
        pos = 'only'
    for st, what, o in exits(r):
        verdict = feasible(r, st, hold['val'])
        if verdict is False:
            continue
        normal = o is None
        if normal:
            placed = stored(r, st, hold, i, replace)
        if not normal and not refusal(r, o, hold):
            continue
        if good and normal and placed is not True:
            key = ('position', where)
            if placed is False and verdict is True:
                bad[key] = ('the ring is not stored at the position asked '
                            'for: %s' % show(strip_all(r.ip.den(
                                r.ip.get_field(hold['me'].args[0], 'rings',
                                               st), st)), 4), None)
            else:
                opn.setdefault(key, 'position not determined')
        elif good != normal:
            key = ('refuses-valid' if good else 'accepts-overlap',
                   '%s at the %s position' % (where, pos))
            d = '%s although the ring [%s] %s its neighbours' % (
                'refused (%s)' % what if good else 'stored',
                describe(rs, i, a, b, replace),
                'fits between' if good else 'overlaps')
            if verdict is True:
                bad[key] = (d, o.node.line if o is not None and o.node
                            else None)
            else:
                opn.setdefault(key, d)


def describe(rs, i, a, b, replace):
    j = i + 1 if replace else i
    out = []
    if i > 0:
        p = rs[i - 1][1]
        out.append('inner %s previous outer' % rel(a, p))
    if j < len(rs):
        out.append('outer %s next inner' % rel(b, rs[j][0]))
    return ', '.join(out)


def rel(a, b):
    return '<' if a < b else '=' if a == b else '>'


def refusal(r, o, hold):
    """Raised because of the radii (not of a type or of another value)?"""
    if isinstance(o.why, tuple) and o.why and o.why[0] == 'check':
        return any(isinstance(x, T) and touches(x, hold['val'])
                   for x in flat(o.why[1:]))
    for e in o.excs or []:
        if 'ValueError' in r.ip.exc_mro(e):
            return True
    return False


def flat(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        yield from flat(list(x.values()))
    else:
        yield x


def pure(t, val):
    return len(t.args) == 2 and all(x in val for x in t.args)


def touches(t, val):
    return contains(t, lambda x: x in val)


def feasible(r, st, val):
    """Can this exit be reached for the order type? True / None / False."""
    rel = [(t, p) for t, p in st.facts.items() if touches(t, val) and
           not pure(t, val)]
    if not rel:
        return True
    any_unknown = False
    for scale in (Q(1), Q(1, 100), Q(1, 10**5), Q(1, 10**9), Q(1, 10**12)):
        ok = True
        for t, p in rel:
            v = ev(t, val, scale)
            if v is None:
                v = at(t, val, scale)
            if v is None:
                any_unknown = True
                ok = None
            elif bool(v) != p:
                ok = False
                break
        if ok is True:
            return True
    return None if any_unknown else False


def spread(x, scale):
    """Around the middle, so that differences have the scale."""
    return Q(10) + (x - 5) * scale


def at(t, val, scale):
    pt = Point({x: spread(v, scale) for x, v in val.items()} |
               {mk('isnone', x): False for x in val})
    try:
        return truth(pt.ev(t))
    except (Unknown, Raises):
        return None


def ev(t, val, scale):
    """Exact value of a term over the radii, or None."""
    if t in val:
        return spread(val[t], scale)
    if t is TRUE or t is FALSE:
        return t is TRUE
    if is_num(t):
        x = cval(t)
        if isinstance(x, float) and (x != x or abs(x) == float('inf')):
            return x
        return Q(x) if not isinstance(x, bool) else x
    o = t.op
    if o == 'gamma':
        c = ev(t.args[0], val, scale)
        return None if c is None else ev(t.args[1 if c else 2], val, scale)
    a = [ev(x, val, scale) if isinstance(x, T) else x for x in t.args]
    if o == 'and':
        return False if any(x is False for x in a) else None if \
            None in a else all(a)
    if o == 'or':
        return True if any(x is True for x in a) else None if None in a \
            else any(a)
    if any(x is None for x in a):
        return None
    if o == 'not':
        return not a[0]
    if o in ('lt', 'le', 'eq', 'ne'):
        x, y = a
        return {'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}[o]
    if o == 'add':
        return sum(a)
    if o == 'sub':
        return a[0] - a[1]
    if o == 'neg':
        return -a[0]
    if o == 'mul':
        x = Q(1)
        for y in a:
            x = x * y
        return x
    if o == 'div':
        return a[0] / a[1] if a[1] else None
    if o in ('abs', 'np.abs', 'np.absolute'):
        return abs(a[0])
    if o in ('min', 'np.minimum'):
        return min(a)
    if o in ('max', 'np.maximum'):
        return max(a)
    if o in ('isnan', 'notnum', 'notisa'):
        return False
    if o == 'isnone':
        return False
    if o in ('tonum', 'tofloat'):
        return a[0]
    return None


def stored(r, st, hold, i, replace):
    """Is the new ring stored at position i, all others kept?"""
    ip = r.ip
    v = ip.get_field(hold['me'].args[0], 'rings', st)
    t = strip_all(ip.den(v, st))
    els = list(hold['els'])
    want = els[:i] + [hold['new']] + els[i + (1 if replace else 0):]
    if t.op == 'list' and len(t.args) == len(want) and all(
            x is y for x, y in zip(t.args, want)):
        return True
    base = mk('list', *els)
    if t.op == 'np.insert' and not replace and t.args[0] is base:
        return True if t.args[1] is const(i) and t.args[2] is \
            hold['new'] else False if is_int(t.args[1]) else None
    if t.op == 'store' and replace and t.args[0] is base:
        return True if t.args[1] is const(i) and t.args[2] is \
            hold['new'] else False if is_int(t.args[1]) else None
    if t.op == 'list' and all(x in els or x is hold['new'] for x in t.args):
        return False
    if t is base:
        return False
    if t.op == 'np.append' and t.args[0] is base and not replace:
        return t.args[1] is hold['new'] and i == len(els)
    return None
