#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a spec file: a Python file with calls bug(id, property, edits, needs, breaks, demo)."""
import sys, os, json, shutil, subprocess, tempfile
made = []
root = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()


def bug(i, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + i
    tmp = tempfile.mkdtemp(prefix='mkseed_')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
        for f, old, new in edits:
            src = open('/repo/' + f).read()
            n = src.count(old)
            if n != 1:
                print(i, 'text occurs', n, 'times in', f)
                return
            orig = subprocess.run(['git', '-C', '/repo', 'show', root + ':' + f], capture_output=True, text=True).stdout.splitlines()
            import difflib
            new_src = src.replace(old, new)
            for l in difflib.ndiff(src.splitlines(), new_src.splitlines()):
                if l.startswith('- ') and l[2:] not in orig:
                    print(i, 'NOT AN ORIGINAL LINE:', l[2:])
            for side, txt in (('a', src), ('b', new_src)):
                p = os.path.join(tmp, side, f)
                if side == 'b' and os.path.exists(p):
                    txt = open(p).read().replace(old, new)
                elif side == 'a' and os.path.exists(p):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(txt)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=tmp, capture_output=True, text=True).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(r)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\n'
                                        'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec $PY -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        made.append(i)
    finally:
        shutil.rmtree(tmp)


exec(open(sys.argv[1]).read())
print(' '.join(made))
