#!/usr/bin/env python3
"""plant.py BUGS.py [ID ...]: turn bug definitions into seeded/<id>/, after
confirming each in a scratch copy of /repo, and run its property's check.

BUGS.py defines B = [dict(id, prop, edits=[(file, old, new)], needs, breaks,
demo)].  Nothing in /repo is touched.
plant.py --recheck [ID ...]: run the check of every seeded bug again."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HEAD = '''import os
import sys
import tempfile
os.environ['OPENMDAO_REPORTS'] = '0'
os.environ['OPENMDAO_WORKDIR'] = tempfile.mkdtemp()
import warnings
warnings.simplefilter('ignore')
import numpy as np
import openmdao.api as om
import omtools.api as ot
np.seterr(all='ignore')


def problem(setup, mode='auto', group=None, outer=None):
    class G(ot.Group):
        def setup(self):
            setup(self)
    p = om.Problem(G() if group is None else group)
    p.setup(mode=mode)
    return p


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.allclose(a, b, rtol=tol, atol=tol), (a, b)


'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def tests(tree):
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', OPENMDAO_REPORTS='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1',
               OPENMDAO_WORKDIR=tree + '.out')
    os.makedirs(tree + '.out', exist_ok=True)
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:dash', '-p',
            'no:cacheprovider', '--timeout=300', 'omtools'], cwd=tree,
           env=env)
    shutil.rmtree(tree + '.out')
    return r.returncode == 0, r.stdout[-1500:]


def demo(tree, d):
    env = dict(os.environ, PYTHONPATH=tree)
    env.pop('VERIF_SEED', None)
    try:
        r = sh(['bash', d + '/demo.sh'], cwd=tree, env=env, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout[-700:]


def check(tree, pid, nproc=4):
    env = dict(os.environ, OMTV_REPO=tree, VERIF_SEED='1')
    r = sh([PY, HERE + '/check.py', pid, '--tier', 'quick', '--nproc',
            str(nproc)], cwd=HERE, env=env, timeout=1200)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION property=' + pid in
         l or 'mechanism:' in l]
    return r.returncode, v[:4] or r.stdout[-600:].splitlines()


def copy(i):
    t = '/tmp/w/pl/' + i
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', t, symlinks=True)
    return t


def one(b):
    i = b['id']
    out = []
    t = copy(i)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) < 1:
                return i, 'NO MATCH in %s: %r' % (f, old[:80])
            n = b.get('nth', {}).get(f)
            if s.count(old) > 1 and n is None:
                return i, 'AMBIGUOUS in %s: %r' % (f, old[:80])
            if n is None:
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, 'w').write(s)
        d = os.path.join(HERE, 'seeded', i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = sh(['git', 'diff'], cwd=t).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(HEAD + textwrap.dedent(
            b['demo']).strip() + '\n')
        open(d + '/demo.sh', 'w').write(SH)
        json.dump({'property': b['prop'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        # removed lines must be lines of the original repository
        orig = ''
        for f, _, _ in b['edits']:
            orig += sh(['git', 'show', '24067a4:' + f], cwd='/repo').stdout
        gone = [l[1:] for l in diff.splitlines()
                if l.startswith('-') and not l.startswith('---')]
        if not any(l.strip() and l in orig.splitlines() for l in gone):
            out.append('NOT-ORIGINAL-LINES')
        ok, log = tests(t)
        if not ok:
            out.append('TESTS FAIL\n' + log[-600:])
        a = demo('/repo', d)
        c = demo(t, d)
        if a[0] != 0:
            out.append('DEMO FAILS UNPATCHED\n' + a[1])
        if c[0] == 0:
            out.append('DEMO PASSES PATCHED')
        if not out:
            out.append('valid')
        rc, v = check(t, b['prop'])
        out.append(('CAUGHT ' if rc == 1 else 'MISSED rc=%d ' % rc) +
                   ' | '.join(v)[:500])
        if out[0] != 'valid':
            shutil.rmtree(d)
        return i, b['prop'] + ' ' + '\n   '.join(out)
    finally:
        shutil.rmtree(t, ignore_errors=True)


DEMOS = False


def recheck(i):
    d = os.path.join(HERE, 'seeded', i)
    t = copy(i)
    try:
        r = sh(['git', 'apply', d + '/patch.diff'], cwd=t)
        if r.returncode:
            return i, 'DOES NOT APPLY ' + r.stdout
        pid = json.load(open(d + '/meta.json'))['property']
        a, c = demo('/repo', d), demo(t, d)
        if a[0] or not c[0]:
            return i, 'DEMO exits %d, with the patch %d' % (a[0], c[0])
        if DEMOS:
            return i, 'demo ok'
        rc, v = check(t, pid)
        return i, pid + (' CAUGHT ' if rc == 1 else ' MISSED rc=%d ' % rc) + \
            ' | '.join(v)[:160]
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    global DEMOS
    a = sys.argv[1:]
    if a[0] == '--demos':       # only whether patches and demos still work
        DEMOS, a[0] = True, '--recheck'
    if a[0] == '--recheck':
        ids = a[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        f, todo = recheck, ids
    else:
        ns = {}
        exec(open(a[0]).read(), ns)
        todo = [b for b in ns['B'] if not a[1:] or b['id'] in a[1:]]
        f = one
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(f, todo):
            print(i, r, flush=True)


if __name__ == '__main__':
    main()
