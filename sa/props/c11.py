"""File-system effect analysis. Every public entry point is interpreted over a
virtual file system; every creating, changing or deleting effect it can reach
carries a path term whose provenance is checked: saving stays below the
directory parameter, a build touches only the library's own checkpoint folder
and only when intermittent saving is on (or a checkpoint is being resumed),
everything else has no such effect. A grid save is interpreted a second time
under the assumption that the directory exists: it may not write then.
Deletions are limited to the checkpoint folder and to files which the same
save would have written had the optional part been present."""
import os.path as osp
from ..common import *

WRITERS = {'savefig': 0, 'imsave': 0, 'tofile': 0, 'write_text': None,
           'write_bytes': None, 'touch': None, 'symlink_to': None,
           'rename': None, 'unlink': None, 'rmdir': None, 'to_csv': 0,
           'savez_compressed': 0, 'dump': 0, 'mkdir': None, 'rmtree': 0,
           'truncate': 0, 'symlink': 1, 'link': 1, 'chmod': 0, 'utime': 0,
           'mkstemp': None, 'mkdtemp': None, 'NamedTemporaryFile': None,
           'TemporaryDirectory': None, 'memmap': 0, 'make_archive': 0,
           'system': None, 'popen': None, 'run': None, 'call': None,
           'check_call': None, 'Popen': None, 'FileHandler': 0,
           'RotatingFileHandler': 0}
EXT_TOP = ('os', 'shutil', 'tempfile', 'subprocess', 'pathlib', 'numpy',
           'matplotlib', 'pickle', 'json', 'logging', 'io')


def effects(r):
    """(node, verb, path term) of everything that changes the file system."""
    out = []
    for n in r.ip.nodes:
        k = n.kind
        if k in ('fs_write', 'fs_mkdir', 'fs_remove', 'fs_rmtree',
                 'fs_open'):
            verb = {'fs_write': 'writes', 'fs_open': 'opens',
                    'fs_mkdir': 'creates'}.get(k, 'deletes')
            if k == 'fs_rmtree':
                verb = 'deletes tree'
            out.append((n, verb, n.data[0]))
        elif k == 'fs_move':
            a, b, last = n.data
            if last in ('rename', 'replace', 'move'):
                out.append((n, 'moves away', a))
            out.append((n, 'writes', b))
        elif k == 'extcall':
            dotted, args, kw = n.data[:3]
            last = dotted.split('.')[-1]
            if last in WRITERS and dotted.split('.')[0] in EXT_TOP:
                i = WRITERS[last]
                p = args[i] if i is not None and len(args) > i else None
                out.append((n, 'calls %s on' % dotted, p))
        elif k == 'extmeth':
            recv, name, args = n.data[:3]
            if name in WRITERS:
                i = WRITERS[name]
                p = args[i] if i is not None and len(args) > i else None
                if name in ('savefig', 'tofile', 'write_text',
                            'write_bytes'):
                    out.append((n, 'calls %s on' % name, p))
    return out


def leaves(p):
    out = []
    for x in branches(p):
        out.append(x)
    return out


def literal(p):
    """The constant text a path starts with ('' if it starts with data)."""
    if is_str(p):
        return cval(p)
    if p.op == 'str' and p.args and is_str(p.args[0]):
        return cval(p.args[0])
    return ''


def below(p, root):
    """Is path p root itself or below it? True / False / None."""
    if p is root:
        return True
    rest = None
    if root.op == 'const':
        t, r = literal(p), osp.normpath(cval(root))
        if not t:
            return None if not is_dirlike(p) else False
        n = osp.normpath(t)
        if is_str(p):
            return n == r or n.startswith(r + '/')
        cut = t.rsplit('/', 1)[0] if '/' in t else ''
        ok = cut and (osp.normpath(cut) == r or osp.normpath(
            cut).startswith(r + '/'))
        rest = list(p.args[1:])
        if not ok:
            return False
        return climbs(rest)
    if p.op == 'str' and p.args and p.args[0] is root:
        rest = list(p.args[1:])
        if not rest:
            return True
        if not is_str(rest[0]):
            return None
        if not cval(rest[0]).startswith('/'):
            return False
        return climbs(rest)
    if is_str(p) or (p.op == 'str' and p.args and is_str(p.args[0])):
        return False
    if p.op == 'param':
        return False
    if uninterpreted(p) or p.op == 'gamma':
        return None
    if contains(p, lambda x: x is root):
        if p.op in ('os.path.dirname', 'os.path.split', 'os.path.basename'):
            return False
        return None
    if p.op == 'str' and p.args and p.args[0].op == 'param':
        return False
    return None


def is_dirlike(p):
    return p.op == 'param' or (p.op == 'str' and p.args and
                               p.args[0].op == 'param')


def climbs(parts):
    depth = 0
    for x in parts:
        if is_str(x):
            for seg in cval(x).split('/'):
                if seg == '..':
                    return False
    return True


def own_folder(t):
    """A constant that may serve as the library's own scratch folder."""
    s = osp.normpath(cval(t))
    return bool(s) and not osp.isabs(s) and s not in ('.', '..') and \
        '..' not in s.split('/') and '~' not in s


def entries(repo):
    out = []
    for f in repo.funcs:
        n = f.qual.split('.')[-1]
        if f.kind in ('getter', 'setter'):
            n = f.qual.split('.')[1] if f.qual.count('.') else n
        if n.startswith('_') and not (n.startswith('__') and
                                      n.endswith('__')):
            continue
        out.append(f)
    return out


def check(ctx):
    repo = ctx.repo
    grid = repo.classes.get('ShallotGrid')
    ctx.anchor(grid is not None, 'class ShallotGrid')
    temp = temp_folder(ctx, repo, grid)
    nsave = 0
    for f in entries(repo):
        nm = f.qual.split('.')[-1]
        params = [a.arg for a in f.node.args.args]
        saver = nm.startswith('save') and 'directory' in params
        r = run(repo, f)
        ctx.analysed(r)
        if r.failed:
            ctx.open('effects', f.qual, r.failed)
            continue
        eff = effects(r)
        where = f.qual
        building = f.cls is grid and nm in ('__init__', 'load')
        written = set()
        for n, v, p in eff:
            if v in ('writes', 'opens') and p is not None:
                written |= set(leaves(p))
        if saver:
            nsave += 1
            ctx.anchor(any(v == 'writes' for _, v, _ in eff),
                       'writes of ' + where)
        if not eff:
            ctx.ok('no-effect', where, 'reaches no file-changing call')
        for n, verb, p in eff:
            site = '%s: %s %s' % (where, verb, '?' if p is None else
                                  show(strip_data(p), 4))
            if p is None:
                ctx.bad('confined', site, 'touches a file that nobody asked '
                        'for', n.line)
                continue
            for q in leaves(p):
                one(ctx, r, f, n, verb, q, site, saver, building, temp,
                    written)
    ctx.anchor(nsave >= 4, 'save functions (%d found)' % nsave)
    refuse_existing(ctx, repo, grid, temp)


def strip_data(p):
    return p


def one(ctx, r, f, n, verb, p, site, saver, building, temp, written):
    p = simp(p, r.st) if r.st is not None else p
    if saver:
        root = r.env.get('directory')
        b = below(p, root)
        if b is False and temp is not None and under_eq(n, root, temp) and \
                below(p, temp):
            b = True
        if b is not True:
            ctx.decide(b, 'confined', site, 'path %s is not inside the '
                       'directory given' % show(p, 6), n.line)
            return
        if verb in ('deletes', 'moves away'):
            if p in written:
                ctx.ok('superseded', site, 'an optional file of the object')
            elif uninterpreted(p):
                ctx.open('superseded', site, show(p, 6))
            else:
                ctx.bad('superseded', site, 'deletes a file that this save '
                        'would never write', n.line)
        elif verb == 'deletes tree':
            ctx.bad('superseded', site, 'deletes a whole folder of the '
                    'caller', n.line)
        else:
            ctx.ok('confined', site, 'inside the directory given')
        return
    if building and temp is not None:
        b = below(p, temp)
        if b is True:
            g = asked(r, n)
            if g is True:
                ctx.ok('checkpoint', site, 'inside the checkpoint folder')
            else:
                ctx.decide(g, 'checkpoint', site, 'touches the checkpoint '
                           'folder although no intermittent saving was '
                           'asked for', n.line)
            return
        if b is None:
            ctx.open('checkpoint', site, show(p, 6))
            return
    if uninterpreted(p) and not is_str(p):
        ctx.open('no-effect', site, show(p, 6))
        return
    ctx.bad('no-effect', site, '%s %s' % (verb, show(p, 6)), n.line)


def under_eq(n, root, temp):
    for a, b in ((root, temp), (temp, root)):
        if n.facts.get(mk('eq', a, b)) is True:
            return True
    return False


def asked(r, n):
    """Was the checkpoint asked for at this point?"""
    e = r.env
    for k, v in e.items():
        if 'intermittent' in k:
            s = _st(n)
            no = t_not(mk('truthy', v))
            if not s.assume(no) or not s.assume(v, False):
                return True
            for t, pol in n.pc:
                if not s.assume(t, pol):
                    return True
            return None if any(t.op != 'notisa' and contains(
                t, lambda x: x is v) and uninterpreted(t)
                for t, _ in n.pc) else False
    # resuming: a marker below the directory was found
    d = e.get('directory')
    for t, pol in n.facts.items():
        if t.op == 'exists' and pol and below(t.args[0], d):
            return True
    if any(contains(t, lambda x: x.op in ('exists', 'file0') and below(
            x.args[0], d)) and t.op not in DATA_CHECKS for t, pol in n.pc):
        return True
    return False


DATA_CHECKS = ('notisa', 'notnum', 'notrank', 'notdtype', 'shapesdiffer')


def _st(n):
    s = State()
    s.facts = dict(n.facts)
    return s


def temp_folder(ctx, repo, grid):
    f = grid.find('__init__')
    ctx.anchor(f is not None, 'ShallotGrid.__init__')
    r = run(repo, f)
    ctx.analysed(r)
    lits = set()
    trees = set()
    for n, v, p in effects(r):
        if p is None:
            continue
        for q in leaves(p):
            if v in ('deletes tree', 'deletes') and is_str(q):
                trees.add(q)
            if v == 'creates' and is_str(q):
                lits.add(q)
    roots = [t for t in lits if not any(
        o is not t and below(t, o) for o in lits)]
    if not roots:
        ctx.open('checkpoint-folder', 'ShallotGrid.__init__',
                 'no constant checkpoint folder')
        return None
    roots.sort(key=lambda t: len(cval(t)))
    t = roots[0]
    ctx.decide(own_folder(t), 'checkpoint-folder', 'ShallotGrid.__init__',
               'checkpoint folder %s is not a folder of the library\'s own'
               % show(t))
    return t


def refuse_existing(ctx, repo, grid, temp):
    f = grid.find('save')
    ctx.anchor(f is not None, 'ShallotGrid.save')
    hold = {}

    def setup(ip, st, env):
        d = env['directory']
        hold['d'] = d
        st.assume(mk('exists', d), True)
    r = run(repo, f, setup=setup)
    ctx.analysed(r)
    d = hold['d']
    bad = ok = 0
    for n, verb, p in effects(r):
        if verb == 'creates' and p is d:
            continue
        if temp is not None and under_eq(n, d, temp):
            ok += 1
            continue
        if any(t.op == 'eq' and d in t.args and pol and any(
                a.op == 'const' for a in t.args) for t, pol in
                n.facts.items()):
            ctx.bad('refuse-existing', 'ShallotGrid.save', 'an existing '
                    'directory other than the checkpoint folder is '
                    'written', n.line)
            continue
        bad += 1
        ctx.bad('refuse-existing', 'ShallotGrid.save',
                '%s %s although the directory already exists' % (
                    verb, show(p, 5)), n.line)
        break
    if not bad:
        ctx.ok('refuse-existing', 'ShallotGrid.save', 'every write is behind '
               'the refusal of an existing directory (%d checkpoint writes)'
               % ok)
