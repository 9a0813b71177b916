"""C30: iwyu_tool.py turns a compilation database into exactly the right runs.

Complete enumeration of (a) every command string over a five-letter quoting
alphabet up to a length bound, (b) every entry shape x wrapper x compiler x
forwarded options, (c) every selection of up to two path spellings over a small
tree with siblings, nesting and symlinks, (d) every way the database or the
program can be missing.  The real iwyu_tool.py runs a recording stand-in; the
reference model says which command lines and directories must be recorded.
"""
import itertools
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import toolbox

PROP = 'C30'
FAKES = None


def run(d, args, cwd, env_extra=None, script=None, drop=()):
    ctl = toolbox.Ctl(d + '/ctl')
    env = toolbox.tool_env(FAKES, d + '/ctl')
    env.update(env_extra or {})
    for k in drop:
        env.pop(k, None)
    p = subprocess.run([sys.executable, '-S', '-E',
                        script or toolbox.REPO + '/iwyu_tool.py'] + args,
                       cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=120)
    ctl.poll()
    recs = [(r[2], r[3]) for r in ctl.records]
    return p.returncode, p.stdout.decode(), p.stderr.decode(), recs


# ---- (a) quoting -------------------------------------------------------------
def posix_split(s):
    """POSIX shell field splitting and quote removal; None if malformed."""
    out, cur, i, inword = [], '', 0, False
    while i < len(s):
        ch = s[i]
        if ch in ' \t':
            if inword:
                out.append(cur)
            cur, inword = '', False
            i += 1
        elif ch == "'":
            j = s.find("'", i + 1)
            if j < 0:
                return None
            cur += s[i + 1:j]
            inword = True
            i = j + 1
        elif ch == '"':
            inword = True
            i += 1
            while True:
                if i >= len(s):
                    return None
                if s[i] == '"':
                    i += 1
                    break
                if s[i] == '\\':
                    if i + 1 >= len(s):
                        return None
                    if s[i + 1] in '"\\':
                        cur += s[i + 1]
                    else:
                        cur += s[i:i + 2]
                    i += 2
                else:
                    cur += s[i]
                    i += 1
        elif ch == '\\':
            if i + 1 >= len(s):
                return None
            cur += s[i + 1]
            inword = True
            i += 2
        else:
            cur += ch
            inword = True
            i += 1
    if inword:
        out.append(cur)
    return out


def quoting_batch(strings):
    d = box().dir
    src = d + '/q'
    os.makedirs(src, exist_ok=True)
    entries, want = [], []
    for k, s in enumerate(strings):
        entries.append({'directory': src, 'file': 'f%d.cc' % k,
                        'command': 'clang++ -DID=%d %s' % (k, s)})
        want.append((src, ['-DID=%d' % k] + posix_split(s)))
    toolbox.write_db(d + '/db.json', entries)
    rc, out, err, recs = run(d, ['-p', d + '/db.json'], d)
    got = [(cwd, argv[1:]) for cwd, argv in recs]
    if rc != 0:
        raise Violation('exit status %d on valid command strings' % rc,
                        {'stderr': err[-500:]})
    if got != want:
        for s, g, w in itertools.zip_longest(strings, got, want):
            if g != w:
                raise Violation('command string %r ran as %r, should be %r' %
                                (s, g and g[1], w and w[1]))
    return len(strings)


def check_splitter_against_sh(strings):
    """The oracle itself, checked against the real shell."""
    script = ''.join('set -- %s\nfor x in "$@"; do printf "%%s\\0" "$x"; done; '
                     'printf "\\1"\n' % s for s in strings)
    out = subprocess.run(['/bin/sh'], input=script.encode(),
                         stdout=subprocess.PIPE).stdout
    recs = [r.split(b'\0')[:-1] for r in out.split(b'\1')[:-1]]
    assert len(recs) == len(strings)
    for s, r in zip(strings, recs):
        assert [x.decode() for x in r] == posix_split(s), (s, r)


# ---- (b) entry shapes --------------------------------------------------------
def is_cl(comp):
    return comp.endswith('cl.exe') or comp.endswith('clang-cl')


def shapes(item):
    forms, extra = item
    d = box().dir
    entries, want = [], []
    for k, (form, wrapper, comp, args, sub) in enumerate(forms):
        cwd = d + '/b' + sub
        os.makedirs(cwd, exist_ok=True)
        argv = ([wrapper] if wrapper else []) + [comp, '-DID=%d' % k] + args
        e = {'directory': cwd, 'file': 'x%d.cc' % k}
        if form in ('arguments', 'both'):
            e['arguments'] = argv
        if form in ('command', 'both'):
            e['command'] = ' '.join("'%s'" % a for a in argv)
        if form == 'both':
            e['command'] = 'wrong -DID=%d' % k
        entries.append(e)
        want.append((cwd, (['--driver-mode=cl'] if is_cl(comp) else []) + extra +
                     ['-DID=%d' % k] + args))
    toolbox.write_db(d + '/db.json', entries)
    rc, out, err, recs = run(d, ['-p', d + '/db.json'] +
                             (['--'] + extra if extra else []), d)
    got = [(cwd, argv[1:]) for cwd, argv in recs]
    if rc != 0 or got != want:
        for f, g, w in itertools.zip_longest(forms, got, want):
            if g != w:
                raise Violation('entry %r with forwarded options %r ran as %r, '
                                'should be %r' % (f, extra, g, w))
        raise Violation('exit status %d' % rc, {'stderr': err[-500:]})
    if any(argv[0] != FAKES + '/fake-iwyu' for _, argv in recs):
        raise Violation('another program was run')
    return len(forms)


# ---- (c) selections ----------------------------------------------------------
TREE = ['src/a.cc', 'src/b.cc', 'src/sub/c.cc', 'src2/a.cc', 'src.cc', 'other/d.cc']


def make_tree(d):
    r = d + '/tree'
    shutil.rmtree(r, ignore_errors=True)
    for t in TREE:
        os.makedirs(os.path.dirname(r + '/' + t), exist_ok=True)
        open(r + '/' + t, 'w').close()
    os.makedirs(r + '/empty')
    os.makedirs(r + '/obj')
    os.symlink('src', r + '/lnk')
    os.symlink('src/b.cc', r + '/linked.cc')
    open(r + '/unlisted.cc', 'w').close()
    return r


# (directory, file) as written in the database, and the real file meant
DB = [('{r}', 'src/a.cc', 'src/a.cc'),
      ('{r}/obj', '../src/b.cc', 'src/b.cc'),
      ('{r}/src', 'sub/c.cc', 'src/sub/c.cc'),
      ('{r}/lnk', 'sub/../a.cc', 'src/a.cc'),
      ('{r}', '{r}/src2/a.cc', 'src2/a.cc'),
      ('{r}/obj', '{r}/src.cc', 'src.cc'),
      ('{r}', './linked.cc', 'src/b.cc'),
      ('{r}/obj', '{r}/lnk/../other/d.cc', 'other/d.cc')]

SELS = ['src', 'src/', './src/.', '{r}/src', 'src/sub', 'src2', 'src/a.cc',
        'src/sub/../b.cc', 'lnk', 'lnk/sub/c.cc', 'linked.cc', '{r}', '..',
        'src.cc', 'other', 'sr', 'empty', 'missing.cc', 'unlisted.cc', 'obj',
        'a.cc', 'sub']


def select(item):
    sels, sub = item
    d = box().dir
    r = make_tree(d)
    cwd = os.path.join(r, sub)
    entries = [{'directory': a.format(r=r), 'file': b.format(r=r),
                'arguments': ['cc', '-DID=%d' % k]}
               for k, (a, b, _) in enumerate(DB)]
    toolbox.write_db(d + '/db.json', entries)
    spelled = [s.format(r=r) for s in sels]
    rc, out, err, recs = run(d, ['-p', d + '/db.json'] + spelled, cwd)
    got = [int(argv[1][5:]) for _, argv in recs]
    want, warn, groups = set(), [], []
    for s in spelled:
        p = os.path.realpath(os.path.join(cwd, s))
        if not os.path.exists(p):
            warn.append(p)
            continue
        inside = {k for k, (_, _, real) in enumerate(DB)
                  if (r + '/' + real == p or
                      (r + '/' + real).startswith(p.rstrip('/') + '/'))}
        if not inside:
            warn.append(p)
        groups.append(inside)
        want |= inside
    if not sels:
        want = set(range(len(DB)))
    if rc != 0:
        raise Violation('exit status %d for selection %r' % (rc, sels),
                        {'stderr': err[-500:]})
    if set(got) != want:
        raise Violation('selection %r in %r ran entries %s, should run %s' %
                        (sels, sub, sorted(got), sorted(want)))
    overlap = any(a & b for a, b in itertools.combinations(groups, 2))
    if not overlap and len(got) != len(set(got)):
        raise Violation('selection %r ran an entry twice: %s' % (sels, got))
    warned = [l for l in err.splitlines() if l.startswith('warning: ')]
    if len(warned) != len(warn) or any(
            not any(os.path.basename(w) in l for l in warned) for w in warn):
        raise Violation('selection %r: warnings %r, should be about %r' %
                        (sels, warned, warn))
    return tuple(sorted(got))


# ---- (d) missing things ------------------------------------------------------
def database_forms(item):
    form = item
    d = box().dir
    b = d + '/dbdir'
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    good = [{'directory': b, 'file': 'a.cc', 'command': 'cc -DID=0'},
            {'directory': b, 'file': 'b.cc', 'command': 'cc -DID=1'}]
    path, expect = b, 2
    if form == 'dir':
        toolbox.write_db(b + '/compile_commands.json', good)
    elif form == 'file':
        path = b + '/x.json'
        toolbox.write_db(path, good)
    elif form == 'symlink':
        toolbox.write_db(b + '/x.json', good)
        os.symlink('x.json', b + '/y.json')
        path = b + '/y.json'
    elif form == 'empty database':
        toolbox.write_db(b + '/compile_commands.json', [])
        expect = 0
    elif form == 'missing in dir':
        expect = None
    elif form == 'missing file':
        path, expect = b + '/nope.json', None
    elif form == 'not json':
        open(b + '/compile_commands.json', 'w').write('[{')
        expect = None
    elif form == 'entry without command':
        toolbox.write_db(b + '/compile_commands.json',
                         good + [{'directory': b, 'file': 'c.cc'}])
        expect = None
    rc, out, err, recs = run(d, ['-p', path], d)
    if expect is None:
        if rc == 0 or recs:
            raise Violation('%s: exit status %d, ran %d' % (form, rc, len(recs)))
    elif rc != 0 or len(recs) != expect:
        raise Violation('%s: exit status %d, ran %d of %d' %
                        (form, rc, len(recs), expect))
    return form


def locate(item):
    env, beside, onpath = item
    d = box().dir + '/loc'
    shutil.rmtree(d, ignore_errors=True)
    for s in ('env', 'beside', 'path'):
        os.makedirs(d + '/' + s)
        shutil.copy(FAKES + '/fake-iwyu', d + '/' + s + '/iwyu-copy')
    import glob
    for p in glob.glob(toolbox.REPO + '/*.py'):
        shutil.copy(p, d + '/beside/')
    if beside:
        os.rename(d + '/beside/iwyu-copy', d + '/beside/include-what-you-use')
    if onpath:
        os.rename(d + '/path/iwyu-copy', d + '/path/include-what-you-use')
    toolbox.write_db(d + '/db.json', [{'directory': d, 'file': 'a.cc',
                                       'command': 'cc -DID=0'}])
    extra = {'PATH': d + '/path:/usr/bin:/bin'}
    drop = ['IWYU_BINARY']
    if env:
        extra['IWYU_BINARY'] = d + '/env/iwyu-copy'
        drop = []
    rc, out, err, recs = run(box().dir, ['-p', d + '/db.json'], d, extra,
                             d + '/beside/iwyu_tool.py', drop)
    want = (d + '/env/iwyu-copy' if env else
            d + '/beside/include-what-you-use' if beside else
            d + '/path/include-what-you-use' if onpath else None)
    got = [os.path.realpath(argv[0]) for _, argv in recs]
    if want is None:
        if rc == 0 or recs:
            raise Violation('no program to be found, yet exit status %d' % rc)
    elif rc != 0 or got != [want]:
        raise Violation('%r: ran %r, should run %r' % (item, got, want))
    return item


def main():
    global FAKES
    thorough = TIER == 'thorough'
    FAKES = toolbox.compile_fakes(scratch_root())
    c = Check(PROP, binary=False)
    n = 0

    alphabet = 'a \'"\\'
    strings = [''.join(t) for k in range(0, 7 if thorough else 6)
               for t in itertools.product(alphabet, repeat=k)]
    strings += ["-D'X=a b'", '-DY=\\"q\\"', '"-DZ=a\'b"', 'a\tb', '"a\\b" \'c\\\'']
    valid = [s for s in strings if posix_split(s) is not None]
    check_splitter_against_sh(valid)
    c.coverage['quoting_oracle_agreements_with_sh'] = len(valid)
    batches = [valid[i:i + 60] for i in range(0, len(valid), 60)]
    n += sum(x or 0 for x in c.explore('command strings', quoting_batch, batches,
                                       chunk=1))

    forms = list(itertools.product(
        ['arguments', 'command', 'both'], ['', 'ccache'],
        ['cc', 'clang++', '/usr/bin/clang++', 'cl.exe', 'C:/VC/bin/cl.exe',
         'clang-cl', '/opt/bin/clang-cl', 'clang-cl-20', 'cl', 'ccache2'],
        [[], ['-c', 'x.cc'], ['a b', '-DQ="q"', '--']],
        ['', '/deep/er']))
    extras = [[], ['-Xiwyu', '--verbose=3'], ['-w'], ['a b', '--', '-x'],
              ['--driver-mode=g++']]
    items = [(forms[i:i + 60], e) for e in extras
             for i in range(0, len(forms), 60)]
    n += sum(x or 0 for x in c.explore('entry shapes', shapes, items, chunk=1))

    sels = [()] + [(a,) for a in SELS] + list(itertools.product(SELS, repeat=2))
    if not thorough:
        items = [(s, '') for s in sels] + [(s, 'src') for s in sels if len(s) < 2]
    else:
        items = [(s, sub) for s in sels for sub in ('', 'src', 'lnk')]
    r = c.explore('selections', select, items, chunk=4)
    n += len(items)
    c.coverage['distinct_selection_outcomes'] = len(set(r))

    r = c.explore('database forms', database_forms,
                  ['dir', 'file', 'symlink', 'empty database', 'missing in dir',
                   'missing file', 'not json', 'entry without command'], chunk=1)
    n += len(r)
    r = c.explore('locating the program', locate,
                  list(itertools.product([0, 1], repeat=3)), chunk=1)
    n += len(r)
    c.sample({'quoting': valid[200:205]})
    c.sample({'shape': forms[7]})
    c.sample({'selection': items[100]})
    c.ntraces = n
    c.finish(n, n, bounds='command strings up to length %d over %r; selections '
             'of up to 2 of %d spellings over %d entries' %
             (6 if thorough else 5, alphabet, len(SELS), len(DB)))


main()
