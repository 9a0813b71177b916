"""Runs the claimed check of each planted change (or of those named) against it, in a
scratch worktree; prints which are caught."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    m = json.load(open(VERIF + '/MANIFEST.json'))
    cmd = {c['property']: c for c in m['checks']}
    top = tempfile.mkdtemp(prefix='hunt-')
    wt = top + '/repo'
    subprocess.run(['git', 'worktree', 'add', '-q', '--detach', wt], cwd='/repo')
    try:
        for s in sorted(os.listdir(VERIF + '/seeded')):
            if sys.argv[1:] and s not in sys.argv[1:]:
                continue
            d = '%s/seeded/%s' % (VERIF, s)
            prop = json.load(open(d + '/meta.json'))['property']
            if prop not in cmd:
                print('%-28s %s not claimed' % (s, prop))
                continue
            subprocess.run('git checkout -q -- . && git apply %s/patch.diff' % d,
                           shell=True, cwd=wt, check=True)
            p = subprocess.run(
                cmd[prop]['quick_cmd'], shell=True,
                cwd=VERIF, text=True, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=wt))
            n = p.stdout.count('VIOLATION property=' + prop)
            print('%-28s %s exit %d, %d violations %s' % (
                s, prop, p.returncode, n,
                'CAUGHT' if p.returncode == 1 and n else 'MISSED'))
            if p.returncode not in (0, 1):
                print(p.stdout[-800:])
            sys.stdout.flush()
    finally:
        subprocess.run(['git', 'worktree', 'remove', '--force', wt], cwd='/repo')
        shutil.rmtree(top)


if __name__ == '__main__':
    main()
