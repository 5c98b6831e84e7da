"""Run the existing tests, then every check, on each rewrite of refactor.py: a check that speaks is a false alarm.

    quiet.py [REWRITE ...] [--props C01,C02]
"""
import os, re, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import refactor
VERIF = os.path.dirname(HERE)
args = [a for a in sys.argv[1:] if not a.startswith('--')]
props = next((a.split('=')[1].split(',') for a in sys.argv[1:] if a.startswith('--props=')), None) or \
    sorted(re.sub(r'c(\d+)\.py', r'C\1', f) for f in os.listdir(VERIF + '/sa/props') if re.match(r'c\d+\.py$', f))
names = args or list(refactor.TR)


def tests(k):
    d = '/tmp/quiet/%s-t' % k
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(refactor.REPO, d, ignore=shutil.ignore_patterns('.git', 'figures', 'data', '__pycache__'))
    refactor.apply(k, d)
    r = subprocess.run(['timeout', '600', '/opt/venv/bin/python3', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider'],
                       cwd=d, env=dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
    shutil.rmtree(d, ignore_errors=True)
    l = r.stdout.strip().split('\n')
    return l[-1] + ('' if r.returncode == 0 else ' '.join(x for x in l if x.startswith(('E ', 'FAILED')))[:300])


def check(job):
    k, p = job
    d = '/tmp/quiet/%s' % k
    r = subprocess.run(['timeout', '900', 'python3', VERIF + '/check.py', p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/quiet/ev-' + k),
                       capture_output=True, text=True)
    l = r.stdout.strip().split('\n') + r.stderr.strip().split('\n')[-1:]
    m = re.search(r'(\d+) obligations, (\d+) discharged, (\d+) unresolved', r.stdout)
    note = '' if r.returncode == 0 else '\n'.join('      ' + x[:260] for x in l[:4])
    return k, p, r.returncode, int(m.group(3)) if m else -1, note


with cf.ThreadPoolExecutor(7) as ex:
    for k in names:
        d = '/tmp/quiet/' + k
        shutil.rmtree(d, ignore_errors=True)
        n = refactor.apply(k, d)
    ts = list(ex.map(tests, names))
    for k, t in zip(names, ts): print('%-14s %s' % (k, t), flush=True)
    res = ex.map(check, [(k, p) for k in names for p in props])
    cur, unr = None, []
    for k, p, rc, u, note in res:
        if k != cur: print('\n%s:' % k, end=' ', flush=True); cur = k
        if rc: print('\n   %s rc=%d\n%s' % (p, rc, note), flush=True)
        elif u: print('%s(%d)' % (p, u), end=' ', flush=True)
print()
for k in names: shutil.rmtree('/tmp/quiet/' + k, ignore_errors=True)
