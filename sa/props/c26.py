"""Termination analysis of the loops of grid construction. Every loop reached
while a grid is built, resumed, loaded or extended is summarised by the
abstract interpreter, which keeps the states at its back edges with the loop
test evaluated there. Loops over finite collections end. For every other loop
each feasible path around the loop must advance some counter by a constant
while a comparison that holds on that path bounds the counter by a value the
loop does not change (linear normal form); comparisons with data computed in
the loop do not count. Leaving such a loop normally must be decided by the
condition that keeps it going, not by the counter, so that giving up is an
explicit error."""
from ..common import *
from ..poly import *


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    ctx.anchor(grid is not None, 'class ShallotGrid')
    seen = {}
    finite = 0
    for nm in ('__init__', 'load'):
        f = grid.find(nm)
        ctx.anchor(f, 'ShallotGrid.' + nm)
        r = run(repo, f)
        ctx.analysed(r)
        if r.failed:
            ctx.open('analysed', 'ShallotGrid.' + nm, r.failed)
        for l in r.ip.loop_recs:
            where = '%s loop over %s' % (
                l.func.qual if l.func else '?', 'a condition' if l.is_while
                else 'a collection')
            if endless(l):
                v, why = judge(r.ip, l)
                seen.setdefault(where, []).append((v, why, l.line))
                v, why = complete(r.ip, l)
                if v is not True or why:
                    seen.setdefault(where + ' (exit)', []).append(
                        (v, why, l.line))
            else:
                finite += 1
                g = grows(r.ip, l)
                if g:
                    seen.setdefault(where, []).append((g[0], g[1], l.line))
    ctx.anchor(seen or finite, 'loops of the grid construction')
    for where, vs in seen.items():
        rule = 'complete' if where.endswith('(exit)') else 'bounded'
        bad = [x for x in vs if x[0] is False]
        opn = [x for x in vs if x[0] is None]
        if bad:
            ctx.bad(rule, where, bad[0][1], bad[0][2])
        elif opn:
            ctx.open(rule, where, opn[0][1])
        else:
            ctx.ok(rule, where, vs[0][1])
    ctx.ok('finite', 'loops over finite collections', '%d' % finite)


def endless(l):
    if l.is_while:
        return True
    v = l.over
    if v is None:
        return False
    if v.op == 'icount':
        return True
    return v.op == 'enumerate' and v.args[0].op == 'icount'


def grows(ip, l):
    """Is the list that is iterated extended by the body?"""
    v = l.over
    if v is None or v.op != 'ref':
        return None
    if ('list', v.args[0]) in l.changed:
        return None, 'the list that is iterated is changed by the body'
    return None


def cases(ip, l, s, c, limit=48):
    """Feasible paths: states with the guards of scalar variables decided."""
    if not s.assume(c, True):
        return []
    out, todo = [], [s]
    while todo:
        s = todo.pop()
        g = None
        for k in l.mus:
            if k[0] not in ('var', 'field', 'fvar'):
                continue
            v = ip.key_value(k, s)
            if not isinstance(v, T):
                continue
            v = simp(v, s)
            if v.op == 'gamma':
                g = v.args[0]
                break
        if g is None or len(out) + len(todo) > limit:
            out.append(s)
            continue
        for pol in (True, False):
            t = s.copy()
            if t.assume(g, pol) and consistent(t, c):
                todo.append(t)
    return out


def consistent(s, c):
    return decide(simp(c, s), s) is not False


def carried(l):
    m = set(l.mus.values())
    return m, (lambda t: contains(t, lambda x: x in m or x is l.idx))


def arithmetic(t, ms):
    """Is t built from loop variables by arithmetic only?"""
    if t in ms:
        return True
    if t.op in ('add', 'sub', 'mul', 'div', 'neg', 'floordiv', 'mod', 'abs',
                'min', 'max', 'pow', 'gamma', 'tonum', 'int', 'len'):
        return all(arithmetic(x, ms) for x in t.args if isinstance(x, T)
                   and contains(x, lambda y: y in ms))
    return False


def judge(ip, l):
    mus, dep = carried(l)
    n = 0
    if not l.backs and not l.breaks and l.exit_st is None:
        return None, 'no path around the loop was interpreted'
    for s0, c in l.backs:
        for s in cases(ip, l, s0.copy(), c):
            n += 1
            v, why = advances(ip, l, s, mus, dep)
            if v is not True:
                return v, why
    return True, '%d paths around the loop, each advances a bounded ' \
        'counter' % n


def advances(ip, l, s, mus, dep):
    if stands(ip, l, s, mus, dep):
        return False, 'the loop can repeat with its counter standing still'
    step, odd = {}, False
    for k, m in l.mus.items():
        if k[0] not in ('var', 'field', 'fvar', 'cont'):
            if k[0] == 'list':
                odd = True
            continue
        v = ip.key_value(k, s)
        if not isinstance(v, T) or v.op == 'ref':
            continue
        v = deep_simp(v, s)
        d = const_diff(v, m)
        if d:
            step[m] = d
        elif d is None and arithmetic(v, mus) and contains(
                v, lambda x: x in mus):
            odd = True
    if not l.is_while:
        step[l.idx] = 1
    vague = False
    for f, pol in list(s.facts.items()):
        if f.op not in ('lt', 'le'):
            continue
        f = mk(f.op, *[deep_simp(x, s) for x in f.args])
        if f.op not in ('lt', 'le') or not dep(f):
            continue
        x, y = f.args if pol else f.args[::-1]
        d = diff(x, y)                       # known: x - y < / <= 0
        if d is None:
            vague = True
            continue
        hit = [(m, v) for m, v in d.items()
               if any(t in step for t, e in m)]
        rest = [m for m in d if not any(t in step for t, e in m)]
        if not hit:
            if any(arithmetic(t, mus) for m in d for t, e in m if dep(t)):
                vague = True
            continue
        if any(dep(t) for m in rest for t, e in m):
            continue
        if any(len(m) != 1 or m[0][1] != 1 for m, v in hit) or len(hit) > 1:
            vague = True
            continue
        (m, co), = hit
        if any(t.op == 'const' and is_num(t) for q in rest for t, e in q):
            continue                          # infinite or NaN bound
        if co * step[m[0][0]] > 0:
            return True, ''
    if odd or vague:
        return None, 'the loop may end for a reason not modelled'
    if not step:
        return False, 'the loop can repeat without any counter advancing'
    return False, 'the loop can repeat without its counter being bounded'


def stands(ip, l, s, mus, dep):
    """Does this path leave every counter at a fixed value, where the path
    can be taken again as far as the counters are concerned?"""
    to = {}
    for k, m in l.mus.items():
        if k[0] not in ('var', 'field', 'fvar'):
            continue
        v = ip.key_value(k, s)
        if not isinstance(v, T) or v.op == 'ref':
            continue
        v = deep_simp(v, s)
        if v is not m:
            if v.op == 'gamma' or dep(v) or uninterpreted_but(v, mus):
                return False
            if not is_const(v):
                to[m] = v
    if not to or not l.is_while:
        return False
    seen = False
    for f, pol in list(s.facts.items()):
        f = deep_simp(f, s) if f.op not in ('lt', 'le') else mk(
            f.op, *[deep_simp(x, s) for x in f.args])
        if not contains(f, lambda x: x in to) or f.op == 'isdtype' or \
                data_atom(f, dep, mus):
            continue
        if f.op not in ('lt', 'le') or not all(
                arithmetic(x, mus) or not dep(x) for x in f.args):
            return False
        g = mk(f.op, *[rewrite(x, lambda t: to.get(t, t)) for x in f.args])
        d = diff(*g.args)
        if d is None or any(m for m in d):
            return False
        d = d.get((), 0)
        if (d < 0 if f.op == 'lt' else d <= 0) is not pol:
            return False
        seen = True
    return seen


def complete(ip, l):
    """Every normal way out is decided by the continuing condition."""
    mus, dep = carried(l)
    keep = None
    for s0, c in l.backs:
        for s in cases(ip, l, s0.copy(), c):
            d = {(f, p) for f, p in s.facts.items() if data_atom(
                f, dep, mus)}
            keep = d if keep is None else keep & d
    if not keep:
        return True, ''
    outs = [(s, None) for s in l.breaks] + list(l.backs)
    n = 0
    for s, c in outs:
        n += 1
        t = s.copy()
        if not all(t.assume(f, p) for f, p in keep):
            continue
        if c is not None and not t.assume(deep_simp(c, t), False):
            continue
        if excluded(t):
            continue
        if raised_after(ip, l):
            return None, 'an error after the loop may cover this exit'
        f, p = sorted(keep, key=lambda x: x[0].id)[0]
        return False, 'the loop can be left without an error while ' \
            'the condition that repeats it still holds: %s%s' % (
                '' if p else 'not ', show(f, 4))
    return True, '%d normal exits are decided by the repeating ' \
        'condition' % n


def excluded(t):
    """Neither a <= b nor b < a: impossible for numbers."""
    no = {}
    for f, p in t.facts.items():
        if f.op in ('le', 'lt') and not p:
            no[mk(f.op, *[deep_simp(x, t) for x in f.args])] = 1
    return any(f.op == 'le' and mk('lt', f.args[1], f.args[0]) in no
               for f in no)


def raised_after(ip, l):
    return any(n.kind == 'raise' and n.func is l.func and n.line > l.line and
               not any(x[0] == l.lid for x in n.loops) for n in ip.nodes)


def data_atom(f, dep, mus):
    """A comparison with data computed in the loop."""
    if f.op not in ('lt', 'le', 'eq', 'ne') or len(f.args) != 2:
        return False
    if any(uninterpreted_but(x, mus) for x in f.args):
        return False
    d = [x for x in f.args if dep(x)]
    return len(d) == 1 and not arithmetic(d[0], mus) and d[0].op != 'gamma'


def uninterpreted_but(t, mus):
    return contains(t, lambda x: x.op in UNINTERPRETED and x not in mus and
                    x.op != 'mu')

