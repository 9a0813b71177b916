"""C03: exactly the unneeded includes and declarations are removed.

World: files made of include and forward-declaration lines of every shape, in
every order, repeated or not, followed by every set of uses.  The model says which
lines stay; the report's removals are compared with it line by line, line numbers
included.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C03'
ARGS = ('-std=c++17', '-I.', 't.cc')
HEADERS = {
    'a.h': 'struct A { int m; };\nnamespace n { struct N { int m; }; }\n'
           'void fa();\n',
    'b.h': 'struct B { int m; };\ntemplate <typename X> struct T { X m; };\n'
           '#define MB 1\n',
    'c.h': 'enum E : int { e };\nint vc();\n',
    # Brings everything in without being needed itself.
    'x.h': '#include "a.h"\n#include "b.h"\n#include "c.h"\n',
}
HOME = {'A': 'a.h', 'N': 'a.h', 'B': 'b.h', 'T': 'b.h', 'E': 'c.h'}
FWD = {'A': 'struct A;', 'B': 'struct B;', 'N': 'namespace n { struct N; }',
       'T': 'template <typename X> struct T;', 'E': 'enum E : int;'}
# shape -> (source text, what it is, printed form, first and last line of what
# the report names)
LINES = {
    'ia': ('#include "a.h"', ('inc', 'a.h'), '#include "a.h"', 0, 0),
    'ib': ('#include "b.h"', ('inc', 'b.h'), '#include "b.h"', 0, 0),
    'ic': ('#include "c.h"', ('inc', 'c.h'), '#include "c.h"', 0, 0),
    'ix': ('#include "x.h"', ('inc', 'x.h'), '#include "x.h"', 0, 0),
    'ia spaced': ('  #  include   "a.h"  /* why */', ('inc', 'a.h'),
                  '#include "a.h"', 0, 0),
    'ia after comment': ('/* one\n two */ #include "a.h"  // x', ('inc', 'a.h'),
                         '#include "a.h"', 1, 1),
    'ib conditional': ('#if 1\n#include "b.h"\n#endif', ('inc', 'b.h'),
                       '#include "b.h"', 1, 1),
    'ib inactive': ('#if 0\n#include "b.h"\n#endif', None, None, 0, 0),
    'ia commented': ('// #include "a.h"', None, None, 0, 0),
    'ia in string': ('const char* s@ = R"(\n#include "a.h"\nstruct A;\n)";',
                     None, None, 0, 0),
    'fA': ('struct A;', ('fwd', 'A'), FWD['A'], 0, 0),
    'fA split': ('struct\n  A;', ('fwd', 'A'), FWD['A'], 0, 1),
    'fB': ('struct B;', ('fwd', 'B'), FWD['B'], 0, 0),
    'fN': ('namespace n { struct N; }', ('fwd', 'N'), FWD['N'], 0, 0),
    'fN split': ('namespace n {\n\nstruct N;  // N\n}', ('fwd', 'N'), FWD['N'],
                 2, 2),
    'fT': ('template <typename X> struct T;', ('fwd', 'T'), FWD['T'], 0, 0),
    'fT split': ('template <typename X>\nstruct T;', ('fwd', 'T'), FWD['T'],
                 0, 1),
    'fE': ('enum E : int;', ('fwd', 'E'), FWD['E'], 0, 0),
    'own': ('struct Own;', ('fwd', 'Own'), 'struct Own;', 0, 0),
    'linkage': ('extern "C" { struct B; }', ('stay', 'B'), 'struct B;', 0, 0),
    'attribute': ('struct [[deprecated]] Z;', ('stay', 'Z'), 'struct Z;', 0, 0),
    'attributes': ('struct [[deprecated, gnu::visibility("default")]] Z;',
                   ('stay', 'Z'), 'struct Z;', 0, 0),
    'visible': ('struct __attribute__((visibility("default"))) Z;', ('stay', 'Z'),
                'struct Z;', 0, 0),
    'packed': ('struct __attribute__((packed)) Z;', ('stay', 'Z'), 'struct Z;', 0, 0),
    'inherited': ('struct Z;', ('fwd', 'Z'), 'struct Z;', 0, 0),
    'macro': ('#define D@ struct Zm;\nD@', ('stay', 'Zm'), 'struct Zm;', 1, 1),
    'function': ('void fa();', None, None, 0, 0),
    'comment': ('// A comment.', None, None, 0, 0),
    'code': ('int c@;', None, None, 0, 0),
}
TRIPLED = ['attribute', 'visible', 'inherited', 'ia', 'ix', 'ia after comment', 'ib conditional', 'ib inactive', 'fA',
           'fA split', 'fN split', 'fT split', 'fE', 'linkage', 'macro', 'comment']
USES = {
    'full A': ('A u@;', 'A', 'full'), 'ptr A': ('A* u@;', 'A', 'decl'),
    'full N': ('n::N u@;', 'N', 'full'), 'ptr N': ('n::N* u@;', 'N', 'decl'),
    'full B': ('B u@;', 'B', 'full'), 'ptr B': ('B* u@;', 'B', 'decl'),
    'full T': ('T<int> u@;', 'T', 'full'), 'ptr T': ('T<int>* u@;', 'T', 'decl'),
    'full E': ('E u@ = e;', 'E', 'full'), 'ptr E': ('E* u@;', 'E', 'decl'),
    'own': ('Own* u@;', 'Own', 'decl'), 'Z': ('Zm* u@;', 'Zm', 'decl'),
    'function': ('void u@() { fa(); }', 'fa', 'full'),
    'macro': ('int u@ = MB;', 'MB', 'full'),
    'variable': ('int u@ = vc();', 'vc', 'full'),
}
PROVIDER = dict(HOME, fa='a.h', MB='b.h', vc='c.h')


def build_file(shapes, uses):
    text, at = '', []
    for n, s in enumerate(shapes):
        at.append(text.count('\n') + 1)
        text += LINES[s][0].replace('@', str(n)) + '\n'
    for n, u in enumerate(uses):
        text += USES[u][0].replace('@', str(n)) + '\n'
    return text, at


def model(shapes, uses, at):
    """(removed lines, added lines)"""
    seen = [LINES[s][1] for s in shapes if LINES[s][1]]
    # A function declared in the file itself needs no header.
    want = {PROVIDER[t] for t, k in (USES[u][1:] for u in uses)
            if k == 'full' and not (t == 'fa' and 'function' in shapes)}
    declare = {t for t, k in (USES[u][1:] for u in uses)
               if k == 'decl' and HOME.get(t) not in want}
    removed, had = [], set()
    for s, line in zip(shapes, at):
        src, what, printed, a, b = LINES[s]
        if what is None:
            continue
        kind, name = what
        if kind == 'stay':
            had.add(('fwd', name))
            continue
        needed = name in (want if kind == 'inc' else declare)
        if not needed or what in had:
            removed.append((printed, line + a, line + b))
        had.add(what)
    stay = {n for k, n in seen if k == 'stay'}
    added = sorted(['#include "%s"' % h for h in want
                    if ('inc', h) not in seen] +
                   [FWD[t] for t in declare if t in FWD and
                    ('fwd', t) not in seen and t not in stay])
    return sorted(removed), added


def compiles(shapes, uses):
    seen = [LINES[s][1] for s in shapes if LINES[s][1]]
    for u in uses:
        text, t, k = USES[u]
        if t == 'fa' and 'function' in shapes:
            continue
        if any(w in seen for w in (('inc', PROVIDER.get(t)), ('stay', t))) or (
                t in PROVIDER and ('inc', 'x.h') in seen):
            if k == 'decl' or t in PROVIDER and (
                    ('inc', PROVIDER[t]) in seen or ('inc', 'x.h') in seen):
                continue
        if k == 'decl' and ('fwd', t) in seen:
            continue
        return False
    return True


def case(item):
    shapes, uses, where = item
    text, at = build_file(shapes, uses)
    files = {h: cxx.guard(h, b) for h, b in HEADERS.items()}
    name = 't.cc'
    if where == 'header':
        name = 't.h'
        files['t.h'] = '#pragma once\n' + text
        files['t.cc'] = '#include "t.h"\n'
        at = [n + 1 for n in at]
    else:
        files['t.cc'] = text
    rc, rep, out = cxx.analyse(files, ARGS)
    f = rep.files.get(name)
    removed, added = model(shapes, uses, at)
    if f is None or (f.adds(), sorted(f.remove)) != (added, removed):
        raise Violation(name + ': ' + (cxx.difference(
            f.adds(), sorted(f.remove), added, removed) if f else 'no record'),
            {'files': {name: files[name]}, 'args': ARGS,
             'wanted': {'remove': removed, 'add': added},
             'got': f and {'remove': f.remove, 'add': f.adds()}})
    if bool(f.correct) != (not removed and not added):
        raise Violation(name + ': called correct or not, wrongly',
                        {'files': files})
    left = sorted([LINES[s][2] for s, n in zip(shapes, at) if LINES[s][2] and
                   (LINES[s][2], n + LINES[s][3], n + LINES[s][4])
                   not in removed] + added)
    if not f.correct and f.fulls() != left:
        raise Violation(name + ': the full list is not the lines that stay',
                        {'files': {name: files[name]}, 'wanted': left,
                         'got': f.fulls()})
    return len(removed)


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    plain = ['ia', 'ib', 'ix', 'fA', 'fB', 'fN']
    usets = [u for n in (0, 1, 2) for u in itertools.combinations(
        ['full A', 'ptr A', 'ptr N', 'full B', 'ptr B'], n)]
    if deep:
        usets = cxx.subsets(['full A', 'ptr A', 'ptr N', 'full B', 'ptr B'])
    items = []
    for n in range(0, 5):
        for shapes in itertools.product(plain, repeat=n):
            for uses in usets if n < 4 or deep else usets[:6]:
                if compiles(shapes, uses):
                    items.append((shapes, uses, 'source'))
    n1 = len(items)
    r1 = c.explore('orders and repetitions', case, items)
    shaped = []
    names = list(LINES)
    single = [(u,) for u in USES] + [()]
    for n in (1, 2) + ((3,) if deep else ()):
        for shapes in itertools.product(names if n < 3 else TRIPLED, repeat=n):
            if sum(s == 'function' for s in shapes) and 'linkage' in shapes:
                continue
            for uses in single:
                if compiles(shapes, uses):
                    for w in ('source', 'header')[:2 if n == 1 or deep and n == 2
                                                  else 1]:
                        shaped.append((shapes, uses, w))
    zs = ['attribute', 'attributes', 'visible', 'packed', 'inherited', 'code', 'ia']
    for n in (3, 4) if deep else (3,):
        for shapes in itertools.product(zs, repeat=n):
            shaped.append((shapes, (), 'source'))
    r2 = c.explore('line shapes', case, shaped)
    c.confirm_binding([(dict({h: cxx.guard(h, b) for h, b in HEADERS.items()},
                             **{'t.cc': build_file(s, u)[0]}), ARGS)
                       for s, u, w in shaped[::701] if w == 'source'][:12])
    c.sample({'lines': [LINES[s][0] for s in ('ix', 'fN split', 'ia spaced')],
              'uses': ['full N']})
    c.finish(states=len(set(items) | set(shaped)),
             transitions=n1 + len(shaped), shapes=len(LINES),
             removals=sum(r or 0 for r in r1 + r2))


if __name__ == '__main__':
    main()
