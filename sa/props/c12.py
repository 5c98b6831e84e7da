"""Ordering and typestate analysis of the checkpoint. The builder is
interpreted over a virtual file system with every file operation also failing.
In the row loop the offset between the recorded row and the row being stored
is computed from the value-flow terms (polynomial normal form) and related to
the program order of the marker and data writes and to the first row that a
resumed build recomputes; deletions of the checkpoint are located relative to
the loop; at every exceptional exit from inside the loop the checkpoint must
still exist; a resumed build must start from the rows loaded."""
from ..common import *
from ..poly import *
from ..pointwise import Point, Unknown, Raises, Q
from . import c09, c11


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    ctx.anchor(grid is not None, 'class ShallotGrid')
    temp = c11.temp_folder(ctx, repo, grid)
    if temp is None:
        return
    ctor = grid.find('__init__')
    load = grid.find('load')
    ctx.anchor(ctor and load, 'constructor and load')
    rb = run(repo, ctor)
    ctx.analysed(rb)
    rl = run(repo, load)
    ctx.analysed(rl)
    everything(ctx, repo, grid)
    names = marker_rules(ctx, rb, rl, temp)
    for r, nm in ((rb, 'ShallotGrid.__init__'), (rl, 'ShallotGrid.load')):
        deletions(ctx, r, nm, temp)
    for f, nm in ((ctor, 'ShallotGrid.__init__'), (load,
                                                   'ShallotGrid.load')):
        r = run(repo, f, io=True)
        ctx.analysed(r)
        survives(ctx, r, nm, temp)
    if names:
        resume(ctx, repo, load, temp, names)


def everything(ctx, repo, grid):
    """A checkpoint has all that a save of the grid has."""
    save = grid.find('save')
    ctx.anchor(save, 'ShallotGrid.save')
    if len(save.node.args.args) < 3:
        ctx.open('complete', 'ShallotGrid.save', 'no row to save at')
        return
    maps = c09.names_of(ctx, repo)
    for n, some in ((None, False), (1, True)):
        t = c09.Trip(ctx, 'ShallotGrid', n=n, scaled=some, eclipse=some,
                     diag=some, maps=maps)
        row = mk('param', 'row')
        t.ip.symspec[row] = dict(kind='int')
        text = 'a grid with%s gradients, eclipse parameters and ' \
            'diagnostics' % ('' if some else ' no')
        a, b = t.files(), t.files([row])
        if a is None or b is None:
            ctx.open('complete', text, 'the save is not resolved')
            continue
        for p, c in sorted(a.items(), key=lambda x: show(x[0], 6)):
            d = b.get(p)
            r = True if c is d else None if uninterpreted(p) or any(
                uninterpreted(x) for x in (c, d) if x is not None) else \
                False if d in (None, ABSENT) else None
            ctx.decide(r, 'complete', '%s of %s' % (show(p, 6), text),
                       'saved with the grid, not with its checkpoint',
                       save.node.lineno)


def in_temp(t, temp):
    return any(c11.below(q, temp) is True for q in c11.leaves(t))


def row_stores(r):
    """(node, row index term) of stores of a whole column result."""
    out = []
    for n in r.ip.nodes:
        if n.kind != 'write' or len(n.loops) < 2:
            continue
        b, how, v = n.data
        if how[0] != 'store' or not isinstance(how[1], T):
            continue
        k = how[1]
        if k.op == 'tuple' and len(k.args) >= 2 and not any(
                x.op in BOOL_OPS or x.op == 'slice' for x in k.args[:2]):
            out.append((n, k.args[0]))
    return out


def saved_rows(r, temp):
    """Row stores of loops that write the checkpoint."""
    lp = {n.loops[0] for n in r.ip.nodes if n.kind == 'fs_write' and
          n.loops and in_temp(n.data[0], temp)}
    return [n.id for n, _ in row_stores(r) if n.loops[0] in lp]


def row_index(ctx, r, nm):
    """The row stores and the row term, identified by the outermost loop."""
    s = row_stores(r)
    rows = {t for _, t in s}
    if not s:
        return None, None
    if len(rows) != 1:
        return s, None
    return s, rows.pop()


def scalar_of(v):
    while v.op in ('list', 'array', 'tuple') and len(v.args) == 1 and \
            isinstance(v.args[0], T):
        v = v.args[0]
    return v


def is_data(v, idxs=()):
    return contains(v, lambda x: x.op in ('fold', 'ofold', 'store', 'dstore',
                                          'mu') and x not in idxs)


def marker_rules(ctx, rb, rl, temp):
    stores, row = row_index(ctx, rb, 'build')
    ctx.anchor(stores, 'stores of computed rows')
    if row is None:
        ctx.open('marker', 'ShallotGrid.__init__', 'rows are not stored at '
                 'one common index')
        return
    idxs = {x for x in subterms(row) if x.op in ('idx', 'mu')}
    writes = [n for n in rb.ip.nodes if n.kind == 'fs_write' and
              in_temp(n.data[0], temp) and n.loops]
    if not writes:
        late = [n for n in rb.ip.nodes if n.kind == 'fs_write' and
                in_temp(n.data[0], temp)]
        ctx.decide(False if not late else None, 'saves-rows',
                   'ShallotGrid.__init__', 'no checkpoint is written while '
                   'the rows are computed')
        return
    marks = [n for n in writes if not is_data(n.data[1], idxs) and any(
        x in idxs for x in subterms(n.data[1]))]
    data = [n for n in writes if is_data(n.data[1], idxs)]
    if not marks:
        vague = [n for n in writes if uninterpreted(n.data[1]) and
                 not is_data(n.data[1], idxs)]
        ctx.decide(None if vague else False, 'marker',
                   'ShallotGrid.__init__', 'the checkpoint does not record '
                   'the row it was written at', writes[0].line)
        return
    if not data:
        ctx.open('marker', 'ShallotGrid.__init__', 'no data writes found')
        return
    after_rows = min(n.id for n, _ in stores)
    for m in marks:
        v = scalar_of(m.data[1])
        a = const_diff(v, row)
        early = m.id < max(n.id for n in data)
        before = m.id < after_rows and m.id < min(n.id for n in data)
        if a is None:
            b = resume_offset(rl, c11.leaves(m.data[0]), temp)
            far = ahead(v, row, (b or 0) - (0 if early else 1))
            if far:
                ctx.bad('marker', 'ShallotGrid.__init__', 'the recorded row '
                        'is %d when row %d of %d is written %s its data, so '
                        'that a resumed build skips an unfinished row' % (
                            far + ('before' if early else 'after',)), m.line)
                continue
            ctx.open('marker', 'ShallotGrid.__init__',
                     'recorded row %s vs stored row %s' % (show(v, 5),
                                                          show(row, 4)))
            continue
        # resume offset
        b = resume_offset(rl, c11.leaves(m.data[0]), temp)
        limit = 0 if early else 1
        tot = a + (b if b is not None else 0)
        if tot > limit:
            ctx.bad('marker', 'ShallotGrid.__init__',
                    'the recorded row is %s past the row being written '
                    '%s data, so that a resumed build skips an unfinished '
                    'row' % (tot, 'before its' if early else 'after its'),
                    m.line)
        elif b is None and a > limit:
            ctx.bad('marker', 'ShallotGrid.__init__', 'recorded row too '
                    'far ahead', m.line)
        else:
            ctx.ok('marker', 'ShallotGrid.__init__', 'recorded row = row '
                   '%+d, written %s the data, resumed at marker %s' % (
                       a, 'before' if early else 'after',
                       '?' if b is None else '%+d' % b))
        if b is None:
            ctx.open('resume-offset', 'ShallotGrid.load', 'first '
                     'recomputed row not expressible from the marker')
        else:
            ctx.ok('resume-offset', 'ShallotGrid.load', 'first recomputed '
                   'row = marker %+d' % b)
    return {base_name(p) for m in marks for p in c11.leaves(
        m.data[0])} - {None}


def ahead(v, row, offset):
    """(recorded, written, rows) of a row at which the recorded one is too
    far ahead, by instantiating the row index and the number of rows."""
    if row.op != 'idx' or not isinstance(row.args[0], T):
        return None
    for n in (3, 4, 1, 2):
        for i in range(n):
            try:
                k = Point({row: Q(i), row.args[0]: Q(n)}).ev(v)
            except (Unknown, Raises):
                continue
            if isinstance(k, (int, Q)) and k + offset > i:
                return k, i, n
    return None


def base_name(p):
    t = p.args[-1] if p.op == 'str' else p
    return cval(t).rsplit('/', 1)[-1] if is_str(t) else None


def marker_content(x, names):
    """Is x the number stored in the marker file of the loaded folder?"""
    return x.op == 'item' and x.args[0].op == 'file0' and \
        base_name(x.args[0].args[0]) in names or \
        x.op == 'file0' and base_name(x.args[0]) in names


def resume_offset(rl, paths, temp):
    names = {base_name(p) for p in paths} - {None}
    best = None
    for n, row in row_stores(rl):
        if not any(marker_content(x, names) for x in subterms(row)):
            continue
        m = [x for x in subterms(row) if x.op == 'item' and
             marker_content(x, names)]
        m = m or [x for x in subterms(row) if marker_content(x, names)]
        r0 = row
        for i in {x for x in subterms(row) if x.op == 'idx'}:
            r0 = subst(r0, i, const(0))
        c = const_diff(r0, m[0])
        if c is None:
            return None
        best = c if best is None else max(best, c)
    return best


def deletions(ctx, r, nm, temp):
    rows = saved_rows(r, temp)
    n_del = 0
    for n in r.ip.nodes:
        if n.kind not in ('fs_rmtree', 'fs_remove', 'fs_move'):
            continue
        if n.kind == 'fs_move' and n.data[2] not in ('rename', 'replace',
                                                      'move'):
            continue
        if not any(q is temp or c11.below(temp, q) is True
                   for q in c11.leaves(n.data[0])):
            continue
        n_del += 1
        site = '%s: %s' % (nm, 'clear' if not any(
            i < n.id for i in rows) else 'delete')
        if n.loops:
            ctx.bad('delete-after-last-row', site, 'the checkpoint is '
                    'deleted while rows are still being computed', n.line)
            continue
        g = c11.asked(r, n)
        if g is not True:
            ctx.decide(g, 'owner', site, 'the checkpoint is deleted by a '
                       'build that it does not belong to', n.line)
            continue
        if any(i < n.id for i in rows):
            ctx.ok('delete-after-last-row', site, 'after the row loop')
            continue
        # cleared before any row was computed: a new build; judged for
        # resumed builds in resume()
        ctx.ok('clear-on-restart', site, 'before the row loop')
    ctx.ok('deletions', nm, '%d deletions of the checkpoint' % n_del)


def survives(ctx, r, nm, temp):
    seen = 0
    if r.failed:
        ctx.open('crash', nm, r.failed)
    for o in r.raises:
        if o.node is None:
            continue
        node = o.node if not isinstance(o.node, int) else r.ip.nodes[o.node]
        if not node.loops:
            continue
        wrote = o.st.fs.get(temp)
        seen += 1
        if wrote is ABSENT:
            ctx.bad('crash', nm, 'when the build fails inside the row loop '
                    '(%s) the checkpoint is deleted' % '/'.join(
                        o.excs or ['?']), node.line)
    if seen:
        ctx.ok('crash', nm, '%d exceptional exits from inside the loop' %
               seen)


def resume(ctx, repo, load, temp, names):
    """With a positive recorded row the rows loaded are the base."""
    def assume(ip, st, env):
        d = env['directory']
        for nm in sorted(names):
            p = ip.concat([d, const('/' + nm)])
            x = mk('item', mk('file0', p), const(0))
            st.assume(mk('exists', p), True)
            st.assume(mk('lt', const(0), x), True)
    r = run(repo, load, setup=assume)
    ctx.analysed(r)
    if r.st is None:
        ctx.open('resume-base', 'ShallotGrid.load', 'no normal return')
        return
    first = min(saved_rows(r, temp) or [0])
    for n in r.ip.nodes:
        if n.kind in ('fs_rmtree', 'fs_remove') and n.id < first and any(
                q is temp or c11.below(temp, q) is True
                for q in c11.leaves(n.data[0])):
            ctx.bad('clear-on-restart', 'ShallotGrid.load', 'a resumed '
                    'build deletes the checkpoint it resumes from', n.line)
    ctx.ok('clear-on-restart', 'ShallotGrid.load', 'resumed with a '
           'positive recorded row')
    heads = [n for n in r.ip.nodes if n.kind == 'fs_write' and n.loops and
             in_temp(n.data[0], temp) and is_data(n.data[1])]
    if not heads:
        ctx.open('resume-base', 'ShallotGrid.load', 'no checkpoint writes '
                 'while resuming')
        return
    for n in heads:
        nm = base_name(n.data[0])
        b = bases(n.data[1], r, n)
        if any(x.op in ('full', 'full_like', 'np.zeros', 'np.ones', 'dict')
               for x in b):
            ctx.bad('resume-base', '%s' % nm, 'a resumed build starts from '
                    'an empty cube: the rows on disk are lost', n.line)
        elif b and all(x.op in ('file0', 'npitem') and contains(
                x, lambda y: y.op == 'file0') for x in b):
            ctx.ok('resume-base', '%s' % nm, 'continues the loaded values')
        else:
            ctx.open('resume-base', '%s' % nm, ' '.join(
                show(x, 3) for x in b))


def bases(t, r, n, depth=0):
    st = c11._st(n)
    t = simp(t, st)
    if depth > 12:
        return [t]
    if t.op == 'gamma':
        return bases(t.args[1], r, n, depth + 1) + bases(
            t.args[2], r, n, depth + 1)
    if t.op in ('fold', 'ofold'):
        i = t.args[2]
        if i.op == 'mu':
            return sum([bases(x, r, n, depth + 1)
                        for x in mu_init(r, i)], []) or [i]
        return bases(i, r, n, depth + 1)
    if t.op in ('store', 'dstore', 'dcopy'):
        return bases(t.args[1 if t.op == 'dcopy' else 0], r, n, depth + 1)
    return [t]


def mu_init(r, m):
    """Value with which the loop variable m enters its loop."""
    out = []
    if r.st is None:
        return out
    return [x for x in getattr(r.ip, 'mu_init', {}).get(m, [])]
