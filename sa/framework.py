"""Obligations, reports, known findings, evidence."""
import importlib
import json
import os
import sys
import time
import traceback
from .repo import Repo, AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('VERIF_REPO', '/repo')


class Ctx:
    def __init__(self, prop, repo, tier):
        self.prop, self.repo, self.tier = prop, repo, tier
        self.obligations = []       # (rule, construct, status, detail)
        self.violations = []
        self.opens = []
        self.functions = set()
        self.stats = {}
        self.runs = 0
        self.seen = set()

    def analysed(self, run):
        self.runs += 1
        self.functions.add(run.fn.module.name + '.' + run.fn.qual)
        for _, b in run.ip.calls:
            self.functions.add(b.replace(':', '.'))
        for k, v in run.ip.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.stats['nodes'] = self.stats.get('nodes', 0) + len(run.ip.nodes)
        for n in run.ip.notes:
            self.opens.append(('engine', '%s:%s' % (n[0], n[1]), n[2]))

    def ok(self, rule, where, detail=''):
        self.obligations.append((rule, str(where), 'discharged', detail))

    def open(self, rule, where, detail=''):
        self.obligations.append((rule, str(where), 'unresolved', detail))
        self.opens.append((rule, str(where), detail))

    def bad(self, rule, where, detail, line=None):
        key = (rule, str(where))
        if key in self.seen:
            return
        self.seen.add(key)
        self.obligations.append((rule, str(where), 'violated', detail))
        self.violations.append((rule, str(where), detail, line))

    def decide(self, verdict, rule, where, detail='', line=None):
        """verdict: True / False / None."""
        if verdict is True:
            self.ok(rule, where, detail)
        elif verdict is False:
            self.bad(rule, where, detail, line)
        else:
            self.open(rule, where, detail)

    def anchor(self, cond, what):
        if not cond:
            raise AnalysisError('anchor vanished: ' + what)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                parts = [x.strip() for x in l[9:].split('|')]
                out.append((parts[0].split('=', 1)[1], parts[1], parts[2],
                            parts[3] if len(parts) > 3 else ''))
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = os.environ.get('VERIF_SEED', '0')
    seed = int(seed) if seed.lstrip('-').isdigit() else 0
    t0 = time.time()
    err = None
    ctx = None
    CURRENT[:] = []
    try:
        mod = importlib.import_module('sa.props.' + prop.lower())
        repo = Repo(ROOT)
        ctx = Ctx(prop, repo, tier)
        CURRENT[:] = [ctx, prop, tier, seed, t0]
        ctx.explanation = mod.__doc__ or ''
        mod.check(ctx)
        if not ctx.obligations:
            raise AnalysisError('no obligations generated')
        if not any(o[2] != 'unresolved' for o in ctx.obligations):
            raise AnalysisError('nothing could be decided')
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    return report(ctx, prop, tier, seed, t0, err)


CURRENT = []


def timed_out(argv):
    """Report what was established before the time budget ran out."""
    if not CURRENT:
        print('ANALYSIS-ERROR property=%s time budget' % argv[0])
        return 2
    ctx, prop, tier, seed, t0 = CURRENT
    ctx.open('time', prop, 'time budget used up; later entry points were '
             'not analysed')
    return report(ctx, prop, tier, seed, t0, None)


def report(ctx, prop, tier, seed, t0, err):
    wall = time.time() - t0
    known = [k for k in known_findings() if k[0] == prop]
    unknown, listed = [], []
    if ctx is not None:
        for v in ctx.violations:
            hit = [k for k in known if k[1] == v[0] and k[2] == v[1]]
            (listed if hit else unknown).append(v)
        write_evidence(ctx, prop, tier, seed, wall, unknown, listed, err)
    for v in listed:
        print('KNOWN-FINDING: property=%s [%s] %s: %s' % (
            prop, v[0], v[1], v[2]))
    if unknown:
        rp = os.path.join(HERE, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as f:
            for v in unknown:
                f.write('rule %s\nat   %s%s\nwhy  %s\n\n' % (
                    v[0], v[1], '' if v[3] is None else ' (line %s)' % v[3],
                    v[2]))
        for v in unknown[:20]:
            print('  [%s] %s: %s' % (v[0], v[1], v[2][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        if err:
            print('also: ' + err, file=sys.stderr)
        return 1
    if err:
        print('ANALYSIS-ERROR property=%s %s' % (prop, err))
        return 2
    d = sum(1 for o in ctx.obligations if o[2] == 'discharged')
    print('%s: %d obligations, %d discharged, %d unresolved, %d known '
          'findings, %.1f s' % (prop, len(ctx.obligations), d, sum(
              1 for o in ctx.obligations if o[2] == 'unresolved'),
              len(listed), wall))
    return 0


def write_evidence(ctx, prop, tier, seed, wall, unknown, listed, err):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    by = {}
    for r, w, s, d in ctx.obligations:
        by.setdefault(r, {}).setdefault(s, 0)
        by[r][s] += 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': ' '.join((getattr(ctx, 'explanation', '') or
                                     prop).split()),
            'obligations': len(ctx.obligations),
            'discharged': sum(1 for o in ctx.obligations
                              if o[2] == 'discharged'),
            'unresolved': [list(o) for o in ctx.opens][:80],
            'rules': by,
            'functions_analysed': sorted(ctx.functions),
            'entry_points_interpreted': ctx.runs,
            'analysis_counts': ctx.stats,
            'samples': [' | '.join((o[0], o[1], o[2], o[3][:200]))
                        for o in ctx.obligations[:25]],
        },
        'wall_s': round(wall, 3),
        'violations': len(unknown),
    }
    cov = ev['coverage']
    cov['violated'] = [{'rule': v[0], 'construct': v[1], 'detail': v[2],
                        'line': v[3]} for v in unknown]
    cov['known_findings'] = [{'rule': v[0], 'construct': v[1],
                              'detail': v[2]} for v in listed]
    if err:
        cov['error'] = err
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
