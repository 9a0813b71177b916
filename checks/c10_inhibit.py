"""C10: no_include and no_forward_declare suppress exactly what they name.

World: a source file and its header, both with include and declaration lines and
uses, and the two pragmas, naming every header and symbol in every spelling, at
every place of either file.  The model transforms the outcome of the program
whose pragmas are ordinary comments: no_include takes the named lines out of the
file that holds it; no_forward_declare makes the uses of the named symbol in that
file uses of the definition.
"""
import functools
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C10'
HEADERS = {
    'a.h': 'struct A { int m; };\nvoid fa();\n#define MA 1\n'
           'namespace n { struct N { int m; }; namespace o { struct O {}; } }\n',
    'b.h': '#include "a.h"\nstruct B { int m; };\n'
           'template <typename X> struct T { X m; };\nenum class E : int { e };\n',
    's/a.h': 'struct SA { int m; };\n',
    'p.h': '// IWYU pragma: private, include "pub.h"\nstruct P { int m; };\n',
    'pub.h': '#include "p.h"\n',
    'x.h': '#include "a.h"\n#include "b.h"\n#include "pub.h"\n#include "s/a.h"\n',
}
ARGS = ('-std=c++17', '-I.', 't.cc')
# name -> (text, same with a definition needed)
USES = {
    'A v': ('A v@;', None), 'fa': ('void r@() { fa(); }', None),
    'MA': ('int v@ = MA;', None), 'B v': ('B v@;', None), 'P v': ('P v@;', None),
    'SA v': ('SA v@;', None),
    'A*': ('A* v@;', 'A v@;'), 'A&': ('void r@(A&);', 'A v@;'),
    'B*': ('B* v@;', 'B v@;'), 'N*': ('n::N* v@;', 'n::N v@;'),
    'O*': ('n::o::O* v@;', 'n::o::O v@;'), 'P*': ('P* v@;', 'P v@;'),
    'T*': ('T<int>* v@;', 'T<int> v@;'),
    'T**': ('T<int>** v@;', 'T<int> v@;'),
    'E': ('E v@();', 'E v@ = E::e;'),
}
SYMBOL = {'A*': 'A', 'A&': 'A', 'B*': 'B', 'N*': 'n::N', 'O*': 'n::o::O',
          'P*': 'P', 'T*': 'T', 'T**': 'T'}
NAMES = ['"a.h"', '<a.h>', '"./a.h"', '"b.h"', '"s/a.h"', '"p.h"', '"pub.h"',
         '"x.h"', '"t.h"', '"a"', '"A.h"', '"a.hpp"']
SYMBOLS = ['A', '::A', 'B', 'N', 'n::N', '::n::N', 'O', 'o::O', 'n::o::O', 'P',
           'T', 'T<int>', 'a', '::T']
LINES = ['#include "a.h"', '#include <a.h>', '#include "b.h"', '#include "p.h"',
         '#include "pub.h"', '#include "s/a.h"', 'struct A;',
         'namespace n { struct N; }', 'template <typename X> struct T;',
         'struct P;', '#include "a.h"  // IWYU pragma: export']


def write(name, lines, pragmas, uses, at, style, plain, full=()):
    """Text of a file; pragmas become plain comments if `plain`, uses of the
    symbols in `full` become uses of the definition."""
    marks = ''
    for p in pragmas:
        text = 'nothing at all' if plain else 'IWYU pragma: ' + p
        marks += '/* %s */\n' % text if style == 'c' else '// %s\n' % text
    body = ''.join(l + '\n' for l in lines)
    mid = ''.join(((USES[u][1] if SYMBOL.get(u) in full else USES[u][0])
                   .replace('@', name[-1] + str(i)) + '\n')
                  for i, u in enumerate(uses))
    parts = [body, mid]
    parts.insert({'top': 0, 'middle': 1, 'end': 2}[at], marks)
    return ''.join(parts)


def program(item, plain, full_h=(), full_c=()):
    (hl, hu, hp), (cl, cu, cp), at, style = item
    files = {h: cxx.guard(h, b) for h, b in HEADERS.items()}
    files['t.h'] = '#pragma once\n' + write('h', hl, hp, hu, at, style, plain,
                                            full_h)
    files['t.cc'] = '#include "t.h"\n' + write('c', cl, cp, cu, at, style, plain,
                                               full_c)
    return files


@functools.lru_cache(maxsize=4096)
def base(item, full_h, full_c):
    files = program(item, True, full_h, full_c)
    rc, rep, out = cxx.analyse(files, ARGS)
    return files, {n: (tuple(rep.files[n].adds()),
                       tuple(sorted(rep.files[n].remove)))
                   for n in ('t.h', 't.cc')}


def normal(s):
    return s[2:] if s.startswith('::') else s


def case(item):
    holder = dict(zip(('t.h', 't.cc'), (item[0][2], item[1][2])))
    full = {n: tuple(sorted({normal(p.split()[1]) for p in ps if p.startswith(
        'no_forward_declare')})) for n, ps in holder.items()}
    _, want = base(item, full['t.h'], full['t.cc'])
    files = program(item, False)
    rc, rep, out = cxx.analyse(files, ARGS)
    cxx.algebra(files, rep, ARGS)
    effects = 0
    for n in ('t.h', 't.cc'):
        adds, removes = want[n]
        banned = {'#include ' + p.split()[1] for p in holder[n]
                  if p.startswith('no_include')}
        present = [l for l in cxx.lines_of(files[n]) if l[0] in banned]
        effects += len(present) + len(set(adds) & banned)
        adds = sorted(set(adds) - banned)
        removes = sorted(set(removes) | {(t, a, a) for t, a in present})
        f = rep.files[n]
        if f.adds() != adds or sorted(f.remove) != removes:
            raise Violation('%s: %s' % (n, cxx.difference(
                f.adds(), sorted(f.remove), adds, removes)), {
                    'files': files, 'report': f.summary(), 'pragmas': holder})
    return effects


# -- the definition is nowhere ------------------------------------------------
def blind(item):
    """Only forward declarations are visible: the header that has one is enough
    and nothing is declared."""
    name, pragma, lines = item
    files = {'d.h': cxx.guard('d.h', 'struct A;\nnamespace n { struct N; }\n'),
             'u.h': cxx.guard('u.h', '#include "d.h"\n')}
    files['t.cc'] = ''.join('#include "%s"\n' % l for l in lines)
    if pragma:
        files['t.cc'] += '// IWYU pragma: no_forward_declare %s\n' % pragma
    files['t.cc'] += '%s* v;\n' % name
    rc, rep, out = cxx.analyse(files, ARGS)
    cxx.algebra(files, rep, ARGS)
    decl = {'A': 'struct A;', 'n::N': 'namespace n { struct N; }'}[name]
    if pragma and normal(pragma) == name:
        want = {'#include "d.h"'}
    else:
        want = {decl}
    cxx.verdict(files, 't.cc', rep, want, ARGS)
    return len(want)


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    none = ((), (), ())
    see = ('#include "x.h"',)
    inc = ['no_include ' + n for n in NAMES]
    fwd = ['no_forward_declare ' + s for s in SYMBOLS]
    items = []

    def add(h, s, at=('top', 'middle', 'end'), style=('cpp',)):
        for a in at:
            for st in style:
                items.append((h, s, a, st))
    # Everything one pragma can meet in the source file.
    for p in inc + fwd:
        for u in USES:
            add(none, (see, (u,), (p,)))
            add(none, (see, (u,), (p,)), ('middle',), ('c',))
            for l in LINES if deep else LINES[:1] + LINES[6:8]:
                add(none, (see + (l,), (u,), (p,)), ('top', 'end'))
    # Present lines, unused or used, before and after the line that sees them.
    for p in inc + fwd[:6]:
        for ls in itertools.product(LINES, repeat=2):
            for u in ('A v', 'A*', 'P*') if deep else ('A*',):
                add(none, (see + ls, (u,), (p,)), ('top',))
    # Several pragmas.
    for ps in itertools.permutations(inc[:4] + inc[6:7] + fwd[:1] + fwd[4:5], 2):
        for us in itertools.permutations(('A v', 'A*', 'N*', 'B v', 'P v'), 2):
            add(none, (see, us, ps), ('middle',))
    # Pragmas in either file, uses in both.
    for ph, pc in itertools.product([()] + [(p,) for p in inc[:4] + inc[6:7] +
                                            inc[8:9] + fwd[:3] + fwd[4:5]],
                                    repeat=2):
        for uh, uc in itertools.product(('A v', 'A*', 'N*', 'B v'), repeat=2):
            for l in ((), ('#include "a.h"',), ('struct A;',)) if deep else ((),):
                add((see, (uh,), ph), (see + l, (uc,), pc), ('middle',))
    items = list(dict.fromkeys(items))
    res = c.explore('pragmas', case, items)
    bl = [(n, p, l) for n in ('A', 'n::N')
          for p in [None] + SYMBOLS[:6] + ['::n::N']
          for l in (('d.h',), ('u.h',), ('u.h', 'd.h'), ('d.h', 'u.h'))]
    c.explore('blind', blind, bl)
    c.confirm_binding([(program(i, False), ARGS) for i in items[::997]][:8])
    c.sample({'t.cc': program(items[-1], False)['t.cc'],
              't.h': program(items[-1], False)['t.h']})
    c.finish(states=len({(i[0][2], i[1][2]) for i in items}),
             transitions=len(items) + len(bl), spellings=len(NAMES) +
             len(SYMBOLS), lines_suppressed=sum(r or 0 for r in res))


if __name__ == '__main__':
    main()
