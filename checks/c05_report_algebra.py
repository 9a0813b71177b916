"""C05: the three parts of a report agree with each other and with the file.

World: files that are words over include and declaration lines in every layout,
followed by uses, in source files, associated headers, other checked headers and
files that are included twice.  What lines a file has and where is known by
construction; every record of every report must satisfy the algebra.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import report

PROP = 'C05'
HEADERS = {
    'a.h': 'struct A { int m; };\nnamespace n { struct N { int m; }; }\n',
    'b.h': 'struct B { int m; };\n#include "a.h"\n'
           'template <typename T> struct V { T m; };\n',
    'k.h': '// IWYU pragma: always_keep\n',
    'm.h': '#define M 1\n',
}
ABS = '/usr/include/stdio.h'
# name -> (text, [(printed form, first line, last line)])
LETTERS = {
    'a': ('#include "a.h"', [('#include "a.h"', 0, 0)]),
    'a spaced': ('  #  include\t"a.h"   // why', [('#include "a.h"', 0, 0)]),
    'a comment': ('/* c */ #include "a.h" /* d */', [('#include "a.h"', 0, 0)]),
    'a split': ('#include \\\n  "a.h"', [('#include "a.h"', 1, 1)]),
    'a angled': ('#include <a.h>', [('#include <a.h>', 0, 0)]),
    'a dot': ('#include "./a.h"', [('#include "./a.h"', 0, 0)]),
    'a detour': ('#include "s/../a.h"', [('#include "s/../a.h"', 0, 0)]),
    'a macro': ('#undef H\n#define H "a.h"\n#include H',
                [('#include "a.h"', 2, 2)]),
    'b': ('#include "b.h"', [('#include "b.h"', 0, 0)]),
    'b off': ('#if 0\n#include "b.h"\nstruct B;\n#endif', []),
    'b on': ('#if 1\n#include "b.h"\n#else\nstruct B;\n#endif',
             [('#include "b.h"', 1, 1)]),
    'b string': ('const char* s@ = R"(\n#include "b.h"\nstruct A;\n)";', []),
    'k': ('#include "k.h"', [('#include "k.h"', 0, 0)]),
    'm keep': ('#include "m.h"  // IWYU pragma: keep', [('#include "m.h"', 0, 0)]),
    'fA': ('struct A;', [('struct A;', 0, 0)]),
    'fA spaced': ('  struct   A ;  // why', [('struct A;', 0, 0)]),
    'fA split': ('struct\n\nA\n;', [('struct A;', 0, 2)]),
    'fA comment': ('/* struct B; */ struct A;', [('struct A;', 0, 0)]),
    'fA twice': ('struct A; struct A;', [('struct A;', 0, 0)]),
    'fA extern': ('extern "C++" { struct A; }', None),
    'fA in string': ('const char* s@ = "struct A;";', []),
    'fA in use': ('struct A* p@;', []),
    'fN': ('namespace n { struct N; }', [('namespace n { struct N; }', 0, 0)]),
    'fN split': ('namespace n {\nstruct N;\n}',
                 [('namespace n { struct N; }', 1, 1)]),
    'fN two': ('namespace n {\nstruct N;\nstruct O;\n}',
               [('namespace n { struct N; }', 1, 1),
                ('namespace n { struct O; }', 2, 2)]),
    'fO': ('namespace n {\nnamespace {\nstruct Q;\n}\n}',
           [('namespace n { namespace { struct Q; } }', 2, 2)]),
    'fO inline': ('namespace n { inline namespace i { union U; } }',
                  [('namespace n { namespace i { union U; } }', 0, 0)]),
    'fV': ('template <typename T> struct V;',
           [('template <typename T> struct V;', 0, 0)]),
    'fV split': ('template <typename T>\n// why\nstruct V;',
                 [('template <typename T> struct V;', 0, 2)]),
    'fE': ('enum class E : int;', [('enum class E : int;', 0, 0)]),
    'dG': ('struct G@ { struct I; };', [('struct G@::I;', 0, 0)]),
    'dA use': ('A* q@;', []),
    'code': ('int c@;', []),
}
USES = {'full A': 'A v@;', 'ptr A': 'A* v@;', 'ptr N': 'n::N* v@;',
        'ptr V': 'V<int>* v@;', 'full B': 'B v@;', 'macro': 'int v@ = M;',
        'ptr B': 'B* v@;', 'full N': 'n::N v@;'}
# place -> (file, its first lines, source file, arguments)
PLACES = {
    'source': ('t.cc', '', None, ()),
    'header': ('t.h', '#pragma once\n', '#include "t.h"\n', ()),
    'guarded': ('t.h', '#ifndef T_H\n#define T_H\n', '#include "t.h"\n', ()),
    'checked': ('s/u.h', '#pragma once\n', '#include "s/u.h"\nstruct A;\n',
                ('-Xiwyu', '--check_also=*u.h')),
    'twice': ('x.inc', '', '#include "x.inc"\n#define AGAIN\n#include "x.inc"\n',
              ('-Xiwyu', '--check_also=*.inc')),
    'elsewhere': ('s/t.cc', '', None, ()),
    'wordy': ('t.cc', '', None, ('-Xiwyu', '--verbose=3', '-Xiwyu',
                                 '--max_line_length=40')),
    'silent': ('t.cc', '', None, ('-Xiwyu', '--quoted_includes_first')),
}


def program(item):
    word, uses, place = item
    name, head, source, extra = PLACES[place]
    files = {h: cxx.guard(h, b) for h, b in HEADERS.items()}
    files['s/none'] = ''
    text, present = head, []
    for n, w in enumerate(word):
        t, forms = LETTERS[w]
        at = text.count('\n') + 1
        if forms is not None:
            present += [(f.replace('@', '%d' % n), at + a, at + b) for f, a, b in forms]
        text += t.replace('@', '%d' % n) + '\n'
    for n, u in enumerate(uses):
        text += USES[u].replace('@', 'u%d' % n) + '\n'
    if place == 'guarded':
        text += '#endif\n'
    files[name] = text
    main = name if name.endswith('.cc') else 't.cc'
    if source:
        files['t.cc'] = source
    return files, name, main, present, ('-std=c++17', '-I.', '-I', 's') + extra + (
        main,)


def case(item):
    word, uses, place = item
    files, name, main, present, args = program(item)
    rc, out = box().iwyu(files, args)
    if re.search(r'(^|\s)(fatal )?error: ', out):
        return None    # this word does not compile
    rc, rep, out = cxx.analyse(files, args)

    def fail(what):
        raise Violation('%s: %s' % (name, what), {
            'files': files, 'args': args, 'present': present, 'output': out})
    records = {name, main}
    if set(rep.order) != records or len(rep.order) != len(records):
        fail('records for %s' % rep.order)
    free = any(LETTERS[w][1] is None for w in word)
    for f in records:
        if f == name:
            have = list(present)
        else:
            have = [('#include "%s"' % name, 1, 1)]
            if place == 'checked':
                have.append(('struct A;', 2, 2))
            if place == 'twice':
                have.append(('#include "x.inc"', 3, 3))
        r = rep.files[f]
        if r.correct != (not r.add and not r.remove):
            fail('called correct or not, wrongly')
        if r.correct:
            continue
        adds = r.adds()
        if len(set(adds)) != len(adds):
            fail('a line is added twice')
        if set(adds) & {h[0] for h in have}:
            fail('a line is added although it is there')
        left = list(have)
        for x in r.remove:
            if tuple(x) in left:
                left.remove(tuple(x))
            elif not (free and x[0] == 'struct A;'):
                fail('removes what is not there (any more): %s' % (x,))
        full = sorted([x[0] for x in left] + adds)
        got = r.fulls()
        if free and f == name:
            got = [x for x in got if x != 'struct A;']
            full = [x for x in full if x != 'struct A;']
        if full != got:
            fail('the full list is not what the edits give: %s' % full)
    r = rep.files[name]
    return len(r.add) + len(r.remove)


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    names = list(LETTERS)
    usets = [()] + [(u,) for u in USES] + [('ptr A', 'full B'),
                                           ('full A', 'ptr A'),
                                           ('ptr N', 'ptr V')]
    few = [(), ('ptr A',), ('full A',), ('ptr N', 'ptr V'), ('full B',)]
    core = ['a', 'a spaced', 'a angled', 'a dot', 'b', 'b on', 'k', 'fA',
            'fA twice', 'fA split', 'fN', 'fN two', 'fV', 'code']
    items = []

    def add(alphabet, n, us, places):
        for w in itertools.product(alphabet, repeat=n):
            for u in us:
                for p in places:
                    items.append((w, u, p))
    every = list(PLACES)
    for n in (0, 1):
        add(names, n, usets, every)
    add(names, 2, usets if deep else few[:3], ['source'])
    add(names if deep else core, 2, few, every[1:])
    add(names if deep else core, 3, few[:2], ['source'])
    if deep:
        add(core, 3, few[:2], every[1:])
        add(core, 4, [('ptr A',)], ['source'])
    items = list(dict.fromkeys(items))
    res = c.explore('words', case, items)
    n = sum(1 for r in res if r is not None)
    c.confirm_binding([(program(i)[0], program(i)[4]) for i in items[::1999]][:8])
    c.sample({'file': [LETTERS[w][0] for w in items[-1][0]],
              'uses': items[-1][1], 'place': items[-1][2]})
    if n < len(items) / 4 and not c.violations:
        print('# most words do not compile')
        sys.exit(3)
    c.finish(states=n, transitions=sum(r or 0 for r in res), words=len(items),
             words_that_compile=n, letters=len(LETTERS), places=len(PLACES))


if __name__ == '__main__':
    main()
