#!/usr/bin/env python3
"""Develop planted bugs: seed.py ID [--check] ; works on a scratch copy of /repo in /tmp/mut_<ID>.

Verifies: the patch applies, the demo passes without and fails with it, the stable tests pass with it,
and reports whether the property's quick check catches it."""
import sys, os, subprocess, json, shutil, time
V = '/verif'


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main(i):
    d = '%s/seeded/%s' % (V, i)
    m = '/tmp/mut_' + i
    shutil.rmtree(m, ignore_errors=True)
    shutil.copytree('/repo', m, symlinks=True)
    shutil.rmtree('/tmp/demo_' + i, ignore_errors=True)
    shutil.copytree(d, '/tmp/demo_' + i)
    env = dict(os.environ, PYTHONPATH=m, PYTHONDONTWRITEBYTECODE='1')
    demo = ['bash', '/tmp/demo_%s/demo.sh' % i]
    r0, o0 = sh(demo, m, env, 300)
    rc, out = sh(['git', 'apply', d + '/patch.diff'], m)
    if rc:
        return print(i, 'PATCH DOES NOT APPLY', out)
    r1, o1 = sh(demo, m, env, 300)
    print(i, 'demo unchanged', r0, 'patched', r1, 'OK' if r0 == 0 and r1 else 'BAD', o0[-300:] if r0 else '', flush=True)
    if r1 and '--v' in sys.argv: print(o1[-600:])
    if '--notest' not in sys.argv:
        base = json.load(open('/opt/vp/BASELINE.json'))
        rc, out = sh(['/opt/venv/bin/python', '-B', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=test*.py', 'tests', '-n', '4'] if '--n' in sys.argv else
                     ['/opt/venv/bin/python', '-B', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'python_files=test*.py', 'tests'], m, env)
        print(i, 'tests rc', rc, out.strip().splitlines()[-1][:150], flush=True)
        if rc: print('\n'.join(l for l in out.splitlines() if l.startswith(('FAILED','ERROR','SUB'))))
    p = json.load(open(d + '/meta.json'))['property']
    t = time.time()
    env = dict(os.environ, PYZX_REPO=m)
    rc, out = sh(['python3', V + '/run.py', p], V, env)
    print(i, p, 'check rc', rc, 'CAUGHT' if rc == 1 and 'VIOLATION property=' + p in out else 'MISSED', '%.0fs' % (time.time() - t), flush=True)
    if '--v' in sys.argv: print(out[-1500:])
    shutil.rmtree(m)
    shutil.rmtree('/tmp/demo_' + i)


for a in sys.argv[1:]:
    if not a.startswith('--'):
        main(a)
