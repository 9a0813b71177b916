"""Makes /verif/seeded/<id>/ from a description and confirms it in a scratch worktree.

usage: plant.py FILE.py     FILE.py defines SEEDS, a list of dicts with
  id, property, needs, breaks, edits [(file, old, new)], demo (text of demo.py)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def plant(s, wt):
    d = os.path.join(SEEDED, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh('git checkout -q -- . && git clean -fdq', wt)
    for f, old, new in s['edits']:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit('%s: %d matches in %s' % (s['id'], t.count(old), f))
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', wt).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'],
               'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'),
              indent=1)
    open(d + '/demo.py', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexec /usr/bin/python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    if 'iwyubuild' in s['demo']:
        for f in ('iwyubuild.py', 'shim.cc'):
            shutil.copy(HERE + '/demo/' + f, d)
    bad = sh([d + '/demo.sh'], wt)
    sh('git checkout -q -- .', wt)
    good = sh([d + '/demo.sh'], wt)
    ok = good.returncode == 0 and bad.returncode == 1
    print('%-28s %s' % (s['id'], 'ok' if ok else 'FAIL good=%d bad=%d' %
                        (good.returncode, bad.returncode)))
    if not ok:
        print('--- good:', good.stdout[-1500:], '--- bad:', bad.stdout[-1500:])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    wt = tempfile.mkdtemp(prefix='wt-') + '/repo'
    sh(['git', 'worktree', 'add', '-q', '--detach', wt], '/repo')
    try:
        only = sys.argv[2:]
        for s in ns['SEEDS']:
            if not only or s['id'] in only:
                plant(s, wt)
    finally:
        sh(['git', 'worktree', 'remove', '--force', wt], '/repo')


if __name__ == '__main__':
    main()
