"""C31: the clang-style output of iwyu_tool.py says exactly what the report says.

All reports of up to three file records over a small vocabulary of additions,
removals, kept lines and diagnostics are written in include-what-you-use's
report format; the real iwyu_tool.py reformats each; a reference model of the
format says which lines must come out.  The default format must be untouched.
"""
import itertools
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import toolbox

PROP = 'C31'
FAKES = None

# An addition: (text, reason)
ADDS = [('#include <vector>', 'for vector'), ('#include "a/b.h"', ''),
        ('class Foo;', ''), ('#include "x.h"', 'for A, B, etc'),
        ('namespace n { struct S; }', ''),
        ('template <typename T> class V;', '')]
# A removal: (text, first, last)
REMS = [('#include <map>', 3, 3), ('class Gone;', 12, 14),
        ('namespace n { class Old; }', 7, 9), ('#include "x.h"', 100, 100)]
DIAG = ['x.cc:3:9: warning: some diagnostic', '  int x;', '        ^',
        '1 warning generated.', '- not a removal', '#include <stray.h>']


def record(kind, name):
    """(report text, expected lines without the severity) of one file record."""
    if kind == 'ok':
        return ('\n(%s has correct #includes/fwd-decls)\n' % name,
                ['%s:1:1: note: #includes/fwd-decls are correct' % name])
    adds, rems = kind
    t = '\n%s should add these lines:\n' % name
    want = []
    for text, why in adds:
        t += text + ('  // ' + why if why else '') + '\n'
        want.append("%s:1:1: SEV: add '%s'%s" %
                    (name, text, ' (%s)' % why if why else ''))
    t += '\n%s should remove these lines:\n' % name
    for text, a, b in rems:
        t += '- %s  // lines %d-%d\n' % (text, a, b)
        want.append("%s:%d:1: SEV: superfluous '%s'" % (name, a, text))
    t += '\nThe full include-list for %s:\n' % name
    for text, why in adds:
        t += text + ('  // ' + why if why else '') + '\n'
    t += '#include "kept.h"  // for K\nclass KeptFwd;  // lines 5-5\n---\n'
    return t, want


def reformat(item):
    style, cases = item
    d = box().dir
    os.makedirs(d + '/src', exist_ok=True)
    ctl = toolbox.Ctl(d + '/ctl')
    entries, want = [], []
    for k, case in enumerate(cases):
        text, lines = '', []
        for part in case:
            if part[0] == 'diag':
                text += part[1] + '\n'
                lines.append(part[1])
            else:
                t, w = record(part[1], part[2])
                text += t
                lines += w
        with open(d + '/ctl/out.%d' % k, 'w') as f:
            f.write(text)
        entries.append({'directory': d + '/src', 'file': 'f.cc',
                        'arguments': ['cc', '-DID=%d' % k]})
        if style == 'iwyu':
            want.append(text + '\n')
        else:
            sev = {'clang': 'error', 'clang-warning': 'warning'}[style]
            want.append('\n'.join(l.replace(': SEV: ', ': %s: ' % sev)
                                  for l in lines) + '\n')
    toolbox.write_db(d + '/db.json', entries)
    p = subprocess.run([sys.executable, '-S', '-E',
                        toolbox.REPO + '/iwyu_tool.py', '-p', d + '/db.json',
                        '-o', style], cwd=d, env=toolbox.tool_env(FAKES, d + '/ctl'),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120)
    out = p.stdout.decode()
    if p.returncode != 0:
        raise Violation('exit status %d' % p.returncode,
                        {'stderr': p.stderr.decode()[-800:]})
    if out == ''.join(want):
        return len(cases)
    # Find the first case that differs, comparing line by line.
    pos = 0
    for case, w in zip(cases, want):
        if out[pos:pos + len(w)] != w:
            raise Violation('a report came out wrong in style ' + style,
                            {'report': case, 'expected': w,
                             'got': out[pos:pos + len(w) + 80]})
        pos += len(w)
    raise Violation('extra output', {'got': out[pos:][:500]})


def main():
    global FAKES
    thorough = TIER == 'thorough'
    FAKES = toolbox.compile_fakes(scratch_root())
    c = Check(PROP, binary=False)

    def subsets(xs, kmax):
        for k in range(kmax + 1):
            yield from itertools.permutations(xs, k)
    edits = [(a, r) for a in subsets(ADDS, 3 if thorough else 2)
             for r in subsets(REMS, 2)]
    names = ['a.cc', 'dir/b.h', '/abs/c d.h']
    cases = []
    for e in edits + ['ok']:
        for nm in names:
            cases.append((('rec', e, nm),))
    small = ['ok', ((), ()), ((ADDS[0],), ()), ((), (REMS[1],)),
             ((ADDS[1],), (REMS[0],)), ((ADDS[2], ADDS[3]), (REMS[3], REMS[2]))]
    # The same line more than once, at different places.
    again = [('#include <map>', 3, 3), ('#include <map>', 9, 9),
             ('#include <map>', 3, 4), ('class Gone;', 12, 14), ('class Gone;', 3, 3)]
    for k in (2, 3, 4) if thorough else (2, 3):
        for rs in itertools.product(again, repeat=k):
            for adds in ((), (ADDS[0],), (ADDS[0], ADDS[0])):
                cases.append((('rec', (adds, rs), names[1]),))
    for rs in itertools.product(again, repeat=2):
        for nm in itertools.product(names[:2], repeat=2):
            cases.append(tuple(('rec', ((), (r,)), n) for r, n in zip(rs, nm)))
    for a, b in itertools.product(small, repeat=2):
        cases.append((('rec', a, names[0]), ('rec', b, names[1])))
        for g in DIAG:
            cases.append((('diag', g), ('rec', a, names[0]), ('diag', g),
                          ('rec', b, names[1]), ('diag', g)))
    for t in itertools.product(small, repeat=3):
        cases.append(tuple(('rec', x, nm) for x, nm in zip(t, names)))
    cases.append(())
    for g in itertools.product(DIAG, repeat=2):
        cases.append(tuple(('diag', x) for x in g))
    n = 0
    for style in ('clang', 'clang-warning', 'iwyu'):
        items = [(style, cases[i:i + 100]) for i in range(0, len(cases), 100)]
        r = c.explore('style ' + style, reformat, items, chunk=1)
        n += sum(x or 0 for x in r)
    c.sample({'report': record(edits[40], 'a.cc')[0]})
    c.ntraces = n
    c.finish(len(cases), n, bounds='reports of up to 3 records; up to %d '
             'additions and 2 removals each, in every order' % (3 if thorough else 2))


main()
