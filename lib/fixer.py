"""Driving the real fix_includes.py: inside this process through its command
line entry point, or as a program of its own."""
import importlib.util
import io
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
_mod = None


def module():
    global _mod
    if _mod is None:
        sys.dont_write_bytecode = True
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        spec = importlib.util.spec_from_file_location(
            'fix_includes_under_test', REPO + '/fix_includes.py')
        _mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod)
    return _mod


def call(args, stdin, cwd=None):
    """Runs main(argv) as the script would. Returns (status, stdout, crash)."""
    m = module()
    old = sys.stdin, sys.stdout, sys.stderr
    out = io.StringIO()
    sys.stdin, sys.stdout, sys.stderr = io.StringIO(stdin), out, out
    oldcwd = os.getcwd() if cwd else None
    crash = None
    try:
        if cwd:
            os.chdir(cwd)
        try:
            rc = m.main(['fix_includes.py'] + list(args))
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:          # an uncaught exception ends the script
            rc = 1
            crash = '%s: %s' % (type(e).__name__, e)
    finally:
        if cwd:
            os.chdir(oldcwd)
        sys.stdin, sys.stdout, sys.stderr = old
    return rc, out.getvalue(), crash


def execute(args, stdin, cwd):
    p = subprocess.run([sys.executable, '-S', '-E', REPO + '/fix_includes.py'] +
                       list(args), input=stdin.encode('utf-8', 'surrogateescape'),
                       cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8',
                            'PYTHONDONTWRITEBYTECODE': '1'})
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def record(name, adds=(), removes=(), keeps=(), fwds=()):
    """A report for one file, as include-what-you-use prints it.

    adds: lines; removes: (line, first, last); keeps: include lines kept;
    fwds: (line, first, last) of kept forward declarations.
    """
    if not adds and not removes:
        return '\n(%s has correct #includes/fwd-decls)\n' % name
    t = '\n%s should add these lines:\n' % name
    t += ''.join(a + '\n' for a in adds)
    t += '\n%s should remove these lines:\n' % name
    t += ''.join('- %s  // lines %d-%d\n' % r for r in removes)
    t += '\nThe full include-list for %s:\n' % name
    t += ''.join(a + '\n' for a in list(adds) + list(keeps))
    t += ''.join('%s  // lines %d-%d\n' % r for r in fwds)
    return t + '---\n'
