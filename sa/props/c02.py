"""Ownership / frame analysis of caller-supplied objects. Every function of
the library that takes parameters is interpreted with each object parameter as
an unknown caller-owned object; at every exit (normal or raising) no such
object may differ from its entry state. Objects a class keeps a reference to
(fields whose final value is a caller object, a view of one, or a container
holding one) are computed for every class, and no operation of that class may
later write in place to such an object. Exempt, as documented: inclination and
tilt of a ring handed to add/replace, and drawing on matplotlib axes."""
import re
from ..common import *

EXEMPT = {('RingSystem', 'ring', '._inclination'),
          ('RingSystem', 'ring', '._tilt')}


def kept_paths(r):
    """Paths (from self) of objects owned by the caller after the call."""
    ip, st = r.ip, r.st
    out = {}
    if st is None:
        return out
    roots = {'param'}

    def own(v):
        if v.op == 'ref':
            oid = v.args[0]
            o = ip.obj(oid, st)
            if o is not None and o.kind == 'arr':
                oid = ip.root_arr(oid, st)
            k, t, p = root_of(oid)
            if k == 'param':
                return str(t.args[0]) + p
        return None

    def walk(v, path, depth, seen):
        for x in branches(v):
            w = own(x)
            if w is not None:
                out.setdefault(path, w)
                continue
            if x.op == 'tuple':
                for a in x.args:
                    walk(a, path + '[*]', depth, seen)
            if x.op != 'ref' or x in seen:
                continue
            seen = seen | {x}
            o = ip.obj(x.args[0], st)
            if o is None:
                continue
            if o.kind == 'inst' and depth < 4:
                for f, y in o.fields.items():
                    walk(y, path + '.' + f, depth + 1, seen)
            elif o.kind == 'list':
                for s in o.segs:
                    for t in seg_values(s):
                        walk(t, path + '[*]', depth + 1, seen)
            elif o.content is not None:
                for t in subterms(o.content):
                    if t.op == 'ref' and own(t):
                        out.setdefault(path + '[*]', own(t))
    for oid, o in st.heap.items():
        if oid.op == 'root' and o.kind == 'inst':
            for f, v in o.fields.items():
                walk(v, '.' + f, 0, frozenset())
    if r.value is not None and r.fn.kind == 'classmethod':
        pass
    return out


def seg_values(s):
    if s[0] == 'one':
        return [s[1]]
    if s[0] == 'map':
        return [v for x in s[3] for v in seg_values(x)]
    if s[0] == 'alt':
        return [v for part in s[2:4] for x in part for v in seg_values(x)]
    return [x for x in s[1:] if isinstance(x, T)]


def path_of(oid):
    return root_of(oid)[2]


def check(ctx):
    repo = ctx.repo
    ops = [(c, f) for c, f in public_methods(
        repo, lambda c, n, f: True)]
    ops += [(None, f) for f in repo.funcs if f.cls is None]
    for c in repo.classes.values():
        for f in c.setters.values():
            ops.append((c, f))
    nparam = 0
    runs = {}
    for cls, f in ops:
        if cls is not None and cls.is_enum:
            continue
        r = run(repo, f, cls=cls)
        runs[(cls, f)] = r
        ctx.analysed(r)
        if r.failed:
            continue        # noted as unresolved
        where = '%s.%s' % (cls.name, f.name) if cls else '%s.%s' % (
            f.module.name, f.name)
        objs = [k for k, v in r.env.items() if any(
            b.op == 'ref' and root_of(b.args[0])[0] == 'param'
            for b in branches(v))]
        if not objs:
            continue
        nparam += len(objs)
        hit = False
        for st, how, o in exits(r):
            for ch, e in changes(r, st):
                k, t, p = root_of(ch.oid)
                if k != 'param':
                    continue
                if cls and (cls.name, str(t.args[0]), p + ch.what) in EXEMPT:
                    continue
                # private helpers may fill arrays their callers own
                if f.name.startswith('_') and f.name != '__init__' and \
                        not called_with_caller_objects(repo, cls, f):
                    continue
                hit = True
                ctx.decide(False if e is False else None, 'argument-frame',
                           '%s -> %s' % (where, ch.name),
                           'on %s: %s' % (how, ch), f.node.lineno)
        if not hit:
            ctx.ok('argument-frame', where, 'object parameters %s are left '
                   'as they were at all %d exits' % (
                       ', '.join(objs), len(exits(r))))
    ctx.anchor(nparam >= 30, 'object parameters (%d found)' % nparam)
    # composition: kept references x in-place writes, also through the
    # objects an object holds
    kept = {}
    for (cls, f), r in runs.items():
        if cls is None or cls.is_enum or (
                f.name.startswith('_') and f.name != '__init__'):
            continue
        for p, w in kept_paths(r).items():
            kept.setdefault(cls, {}).setdefault(p, '%s(%s)' % (f.name, w))
    for (cls, f), r in runs.items():
        if cls is None or f.name == '__init__' or (
                f.name.startswith('_') and not f.name.startswith('__')):
            continue
        for st, how, o in exits(r):
            for ch, e in changes(r, st):
                k, t, p = root_of(ch.oid)
                if k != 'root':
                    continue
                for c, kp, w in holders(repo, cls, p, kept):
                    if kp == '.ax':
                        continue
                    ctx.decide(
                        False if e is False else None,
                        'kept-argument', '%s.%s -> %s' % (
                            cls.name, f.name, ch.name),
                        'object kept from %s%s is modified in place '
                        'on %s: %s' % ('' if c is cls else c.name + '.', w,
                                       how, ch), f.node.lineno)
    for c, ps in kept.items():
        for kp, w in ps.items():
            ctx.ok('kept-argument', '%s%s' % (c.name, kp),
                   'kept from %s; no operation writes to it' % w)


def holders(repo, cls, path, kept):
    """Kept arguments the object at this path (from cls) belongs to."""
    spec, rest = dict(kind='inst', cls=cls), path
    while True:
        c = spec.get('cls') if spec.get('kind') == 'inst' else None
        for k, ps in kept.items():
            if c is not None and (c is k or c.is_sub(k)):
                for kp, w in ps.items():
                    if rest == kp or rest.startswith((kp + '.', kp + '[')):
                        yield k, kp, w
        m = re.match(r'\.(\w+)|\[\*\]', rest)
        if not m:
            return
        rest = rest[m.end():]
        spec = (repo.field_specs(c).get(m.group(1)) if c is not None
                else None) if m.group(1) else spec.get('elem')
        if not spec:
            return


def called_with_caller_objects(repo, cls, f):
    """Private helpers are judged through their public callers."""
    return False
