"""Frame analysis. Every read-only public operation (get_*, plot*, save*,
__str__/__repr__/__lt__, closest-point search, solution extraction, every
method of names and units) and every computing operation with a documented
single effect is interpreted abstractly from an unknown initial object. At
every exit - normal or raising - each object that existed before the call must
hold, field by field and array by array, the value it had at entry (identity
of value-flow terms after resolving guards). Aliases are tracked through the
abstract heap, so a write through a returned or re-bound array, a view, a
list or an out= argument counts as a write to its owner."""
import ast
from ..common import *

READ = ('get_', 'plot', 'save', '__str__', '__repr__', '__lt__', '__eq__',
        '__len__', 'determine_closest', 'extract_', 'find_', 'load', 'print')
NOT_READ = ('save_diagnostic', 'plot_coordinates')
# computing operations: what each one is documented to set
EFFECT = {
    ('ShallotGrid', 'determine_gradient_fit'): {'self.gradient_fit'},
    ('ShallotGrid', 'generate_hill_radius_mask'): {'self.disk_radius.mask'},
    ('ShallotGrid', 'diagnose_fxfy_resolution'): {'self.diagnostic_map'},
    ('ShallotGrid', 'get_combined_mask'): set(),
    ('GridProperty', 'set_mask'): {'self.mask'},
    ('GridProperty', 'set_contrast_parameters'): {
        'self.vmin', 'self.vmax', 'self.color_map', 'self.num_colors'},
    ('GridGradient', 'set_mask'): {'self.mask'},
    ('GridGradient', 'set_contrast_parameters'): {
        'self.vmin', 'self.vmax', 'self.color_map', 'self.num_colors'},
    ('GridGradient', 'determine_mask'): {
        'self.mask', 'self.measured_gradient', 'self.measured_error',
        'self.orbital_scale', 'self.transmission_change'},
}


def is_read(n):
    return n.startswith(READ) and n not in NOT_READ


def cache_field(repo, cls, name):
    """A private memo field: never given a caller's or loaded value."""
    if not name.startswith('_'):
        return False
    for c in cls.mro():
        fs = list(c.methods.values()) + list(c.getters.values()) + \
            list(c.setters.values())
        for f in fs:
            a = f.node.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            for n in ast.walk(f.node):
                if not isinstance(n, (ast.Assign, ast.AnnAssign)):
                    continue
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, ast.Attribute) and t.attr == name:
                        if not is_read(f.name) and not (
                                isinstance(n.value, ast.Constant) and
                                n.value.value is None) and not f.name \
                                .startswith('_'):
                            return False
                        if any(isinstance(x, ast.Name) and x.id in params -
                               {'self', 'cls'} for x in ast.walk(n.value)
                               if n.value is not None):
                            return False
    return True


def check(ctx):
    repo = ctx.repo
    n = 0
    for cls, f in public_methods(repo, lambda c, n, f: f.kind == 'method'):
        key = (cls.name, f.name)
        viewer = cls.name.endswith('Viewer')
        if f.kind != 'method':
            continue
        if f.name.startswith('_') and not f.name.startswith('__'):
            continue
        if cls.is_enum or is_read(f.name):
            allowed = set()
        elif key in EFFECT:
            allowed = EFFECT[key]
        elif viewer:
            allowed = None
        else:
            continue
        n += 1
        r = run(repo, f, cls=cls)
        ctx.analysed(r)
        if r.failed:
            continue
        where = '%s.%s' % (cls.name, f.name)
        hit = False
        for st, how, o in exits(r):
            for ch, e in changes(r, st):
                if viewer and root_of(ch.oid)[0] == 'root' and (
                        ch.oid.op == 'root' or label(ch.oid) ==
                        'self.markers'):
                    continue
                if root_of(ch.oid)[0] == 'param' and ch.what != '[]' and \
                        label(ch.oid) in ('ax',):
                    continue
                if allowed and ch.name in allowed:
                    continue
                if ch.what.startswith('.'):
                    ob = r.ip.obj(ch.oid, st)
                    if cache_field(repo, ob.cls, ch.what[1:]):
                        continue
                hit = True
                ctx.decide(
                    False if e is False else None, 'frame',
                    '%s -> %s' % (where, ch.name),
                    'on %s: %s' % (how, ch), f.node.lineno)
        if not hit:
            ctx.ok('frame', where, '%d exits leave every object as it was'
                   % len(exits(r)))
    ctx.anchor(n >= 30, 'read-only operations (%d found)' % n)
    for name in ('GridProperty.get_data', 'ShallotGrid.get_combined_mask',
                 'ShallotGrid.extract_solutions',
                 'ShallotGrid.determine_closest_grid_point',
                 'ShallotGrid.save', 'ShallotGrid.get_gradients'):
        find_func(repo, name)
