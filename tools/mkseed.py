#!/usr/bin/env python3
"""Build and confirm planted bugs.  usage: mkseed.py SPEC.py

SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old,
new)], demo=python source)].  Works on a scratch copy only; writes
/verif/seeded/<id>/ when the change builds, passes the stable tests and the
demonstration tells the two trees apart."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, tempfile, shutil, logging, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
REPO = os.getcwd()
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')
SCRATCH = tempfile.mkdtemp()
os.environ['MPLCONFIGDIR'] = SCRATCH
os.chdir(SCRATCH)
import numpy as np
np.seterr(all='ignore')
def main():
'''
POST = '''
try:
    bad = main()
finally:
    os.chdir('/')
    shutil.rmtree(SCRATCH, ignore_errors=True)
if bad:
    print('BROKEN:', bad)
sys.exit(1 if bad else 0)
'''
SH = '''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py" 2>/dev/null
'''


def edit(src, old, new):
    """Replace one run of lines; blank and comment lines are skipped."""
    ls = src.split('\n')
    idx = [i for i, l in enumerate(ls) if l.strip() and
           not l.strip().startswith('#')]
    want = [l.rstrip() for l in old.split('\n') if l.strip() and
            not l.strip().startswith('#')]
    hits = []
    for k in range(len(idx) - len(want) + 1 if want else 0):
        if all(ls[idx[k + j]].rstrip() == want[j] for j in range(len(want))):
            hits.append((idx[k], idx[k + len(want) - 1]))
    if len(hits) != 1:
        if src.count(old) == 1:
            return src.replace(old, new)
        return len(hits)
    a, b = hits[0]
    return '\n'.join(ls[:a] + new.rstrip('\n').split('\n') + ls[b + 1:])


def stable():
    return json.load(open('/opt/vp/BASELINE.json'))


def main():
    only = sys.argv[2:]
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if only and s['id'] not in only:
            continue
        one(s)


def one(s):
    d = tempfile.mkdtemp(prefix='seed')
    t = d + '/repo'
    try:
        shutil.copytree('/repo', t, symlinks=True)
        for f, old, new in s['edits']:
            src = open(t + '/' + f).read()
            res = edit(src, old, new)
            if not isinstance(res, str):
                print(s['id'], 'EDIT MATCHES', res, f, old[:60])
                return
            open(t + '/' + f, 'w').write(res)
        patch = subprocess.run(['git', '-C', t, 'diff'], capture_output=True,
                               text=True).stdout
        out = HERE + '/seeded/' + s['id']
        tmp = d + '/seed'
        os.makedirs(tmp)
        body = '\n'.join('    ' + l for l in s['demo'].strip('\n').split(
            '\n'))
        open(tmp + '/demo.py', 'w').write(PRE + body + '\n' + POST)
        open(tmp + '/demo.sh', 'w').write(SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(tmp + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', tmp + '/demo.sh'], cwd='/repo').returncode
        b = subprocess.run(['bash', tmp + '/demo.sh'], cwd=t).returncode
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0', MPLBACKEND='Agg')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q',
                            '-p', 'no:cacheprovider', '-W', 'ignore',
                            '--tb=line'], cwd=t, env=env,
                           capture_output=True, text=True)
        last = r.stdout.strip().split('\n')[-1]
        good = a == 0 and b not in (0,) and r.returncode == 0
        fires = []
        e = dict(os.environ, VERIF_REPO=t)
        c = subprocess.run(['python3', HERE + '/check.py', s['property']],
                           env=e, capture_output=True, text=True)
        if c.returncode == 1:
            fires.append(s['property'])
        print('%-28s %s demo clean=%d patched=%d tests=[%s] check=%d' % (
            s['id'], 'OK ' if good else 'BAD', a, b, last, c.returncode))
        if not good:
            print(r.stdout[-600:])
        if c.returncode != 1:
            print('   ', c.stdout.strip()[-300:])
        if good:
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
