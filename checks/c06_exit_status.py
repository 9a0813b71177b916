"""C06: the exit status says what the options promise.

World: the product of --error and --error_always with all kinds of values (also
repeated and malformed), verbosity, presentation options, and programs that need
edits in any one place, need none, or do not compile.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C06'
A = cxx.guard('a.h', 'struct A { int m; };\n')
B = cxx.guard('b.h', '#include "a.h"\n')
# name -> (files, whether an edit is needed; None: does not compile)
PROGRAMS = {
    'clean': ({'t.cc': '#include "a.h"\nA a;\n', 'a.h': A}, False),
    'empty': ({'t.cc': ''}, False),
    'warning': ({'t.cc': '#warning w\nint f() { }\n'}, False),
    'system': ({'t.cc': '#include <stddef.h>\nsize_t s;\n'}, False),
    'unreported': ({'t.cc': '#include "b.h"  // IWYU pragma: keep\n', 'a.h': A,
                    'b.h': B}, False),
    'private': ({'t.cc': '#include "p.h"\nP p;\n', 'p.h': cxx.guard(
        'p.h', '// IWYU pragma: private\nstruct P {};\n')}, False),
    'pragma': ({'t.cc': '// IWYU pragma: nonsense\n'}, False),
    'removal': ({'t.cc': '#include "a.h"\n', 'a.h': A}, True),
    'addition': ({'t.cc': '#include "b.h"  // IWYU pragma: keep\nA a;\n',
                  'a.h': A, 'b.h': B}, True),
    'declaration': ({'t.cc': '#include "b.h"\nA* a;\n', 'a.h': A, 'b.h': B},
                    True),
    'unused': ({'t.cc': 'struct X;\n'}, True),
    'duplicate': ({'t.cc': '#include "a.h"\n#include "a.h"\nA a;\n', 'a.h': A},
                  True),
    'header': ({'t.cc': '#include "t.h"\n', 'a.h': A,
                't.h': cxx.guard('t.h', '#include "a.h"\n')}, True),
    'checked': ({'t.cc': '#include "b.h"  // IWYU pragma: keep\n', 'a.h': A,
                 'b.h': B}, 'also'),
    'forty': ({'t.cc': ''.join('struct X%d;\n' % i for i in range(256))}, True),
    'syntax': ({'t.cc': '#include "a.h"\nint int;\n', 'a.h': A}, None),
    'missing': ({'t.cc': '#include "none.h"\n'}, None),
    'undeclared': ({'t.cc': 'U u;\n'}, None),
    'in header': ({'t.cc': '#include "t.h"\n', 't.h': 'int f() { return x; }\n'},
                  None),
    'static_assert': ({'t.cc': 'static_assert(sizeof(int) == 1, "");\n'}, None),
    'hash error': ({'t.cc': '#error e\n'}, None),
    'late': ({'t.cc': '#include "a.h"\nA a;\nstruct X : A {\n', 'a.h': A}, None),
    'template': ({'t.cc': 'template <class T> int f(T t) { return t.x; }\n'
                          'int i = f(1);\n'}, None),
}
VALUES = {'': 1, '=1': 1, '=2': 2, '=7': 7, '=255': 255, '=0': 0, '=-1': 255,
          '=+5': 5, '=010': 10}
BAD = ['=', '=x', '=3x', '=1 ', '=0x3', '=1.5', '=99999999999', '=--1', '= ']
LOOKS = [(), ('--verbose=0',), ('--verbose=1',), ('--verbose=2',),
         ('--verbose=3',), ('--verbose=4',), ('--verbose=7',), ('--verbose=-1',),
         ('--no_comments',),
         ('--update_comments',), ('--max_line_length=20',),
         ('--quoted_includes_first',), ('--cxx17ns',), ('--comment_style=long',),
         ('--comment_style=none', '--update_comments'), ('--regex=ecmascript',),
         ('--verbose=0', '--update_comments'), ('--verbose=0', '--no_comments')]


def command(opts, front=True):
    args = []
    for o in opts:
        args += ['-Xiwyu', o]
    return (tuple(args) + ('-std=c++17', 't.cc') if front else
            ('-std=c++17', 't.cc') + tuple(args))


def expected(opts, edits):
    """The statuses allowed."""
    error = always = None
    for o in opts:
        name, eq, value = o.partition('=')
        if name == '--error':
            error = VALUES[eq + value]
        elif name == '--error_always':
            always = VALUES[eq + value]
    by_error = error if error is not None and edits else 0
    if always is None:
        return {by_error}
    if always == 0:
        return {0, by_error}   # "always 0" may or may not silence --error
    return {always}


def case(item):
    prog, opts, front = item
    files, edits = PROGRAMS[prog]
    args = command(opts, front)
    rc, out = box().iwyu(files, args)
    if edits == 'also':
        edits = any(o.startswith('--check_also') for o in opts)

    def fail(what):
        raise Violation('%s: %s' % (prog, what), {
            'files': files, 'args': args, 'status': rc, 'output': out[:3000]})
    if edits is None:
        if rc is None or rc <= 0:
            fail('a file that does not compile gives status %s' % rc)
        if 'error: ' not in out:
            fail('no error is printed')
        return 0
    allowed = expected(opts, edits)
    if rc not in allowed:
        fail('status %s instead of %s' % (rc, sorted(allowed)))
    if not any('verbose' in o or 'update' in o for o in opts):
        # The report agrees with the status.
        if ('The full include-list for' in out and 'should remove' in out) != bool(
                edits):
            fail('the report and the status disagree')
    return rc


def bad_case(item):
    prog, opts = item
    files, _ = PROGRAMS[prog]
    args = command(opts)
    rc, out = box().iwyu(files, args)
    if rc is None or rc <= 0 or 'FATAL ERROR' not in out:
        raise Violation('a malformed status is not refused', {
            'files': files, 'args': args, 'status': rc, 'output': out[:3000]})
    if 'should add' in out or 'has correct' in out:
        raise Violation('an analysis is made in spite of a malformed option', {
            'files': files, 'args': args, 'output': out[:3000]})
    return rc


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    E = ['--error' + v for v in VALUES]
    W = ['--error_always' + v for v in VALUES]
    errors = [()] + [(e,) for e in E] + [(w,) for w in W]
    pairs = [p for a in E for b in W for p in ((a, b), (b, a))]
    repeats = list(itertools.permutations(['--error', '--error=2', '--error=0',
                                           '--error=255'], 2))
    repeats += list(itertools.permutations(
        ['--error_always', '--error_always=2', '--error_always=255'], 2))
    also = ('--check_also=*b.h',)
    items = []
    for p in PROGRAMS:
        for e in errors:
            for l in LOOKS:
                for x in ((), also) if p == 'checked' else ((),):
                    items.append((p, e + l + x, True))
        for e in pairs + repeats:
            for l in LOOKS if deep else LOOKS[:1]:
                items.append((p, e + l, True))
        for e in errors:
            for l in LOOKS[:3] + LOOKS[-2:]:
                items.append((p, l + e, False))
    items = list(dict.fromkeys(items))
    res = c.explore('statuses', case, items)
    bad = [(p, pre + (o + b,) + post) for p in ('clean', 'removal', 'syntax')
           for o in ('--error', '--error_always') for b in BAD
           for pre in ((), ('--error=2',), ('--verbose=0',))
           for post in ((), ('--error=2',))]
    c.explore('malformed', bad_case, bad)
    c.confirm_binding([(PROGRAMS[i[0]][0], command(i[1], i[2]))
                       for i in items[::701] if '--verbose=7' not in i[1]][:8])
    c.sample({'program': items[77][0], 'options': items[77][1]})
    n = len(items) + len(bad)
    c.finish(states=len({i[1] for i in items}), transitions=n,
             programs=len(PROGRAMS), statuses_seen=sorted(
                 {r for r in res if r is not None}))


if __name__ == '__main__':
    main()
