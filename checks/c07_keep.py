"""C07: keep pragmas keep what they cover and nothing else.

World: files that are words over include lines, declarations and keep pragmas in
all documented forms, followed by uses.  The model runs the words through the
pragma automaton, marks the covered lines and lets these stay; the others are
judged as C03 does.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import lines

PROP = 'C07'
HEADERS = {
    'a.h': 'struct A { int m; };\nnamespace n { struct N { int m; }; }\n',
    'b.h': 'struct B { int m; };\ntemplate <typename X> struct T { X m; };\n',
    'k.h': '// IWYU pragma: always_keep\n#include "b.h"\n',
    'l.h': 'struct L {};\n/* IWYU pragma: always_keep */\n',
    'x.h': '#include "a.h"\n#include "b.h"\n',
}
HOME = {'A': 'a.h', 'N': 'a.h', 'B': 'b.h', 'T': 'b.h'}
FWD = {'A': 'struct A;', 'B': 'struct B;', 'N': 'namespace n { struct N; }',
       'T': 'template <typename X> struct T;'}


def inc(h, before='', after=''):
    return ('%s#include "%s"%s' % (before, h, after), ('inc', h),
            '#include "%s"' % h, 0, 0)


KEEP, KEEPC = '  // IWYU pragma: keep', ' /* IWYU pragma: keep */'
# name -> (line, whether the line itself asks to be kept, effect on the block)
LETTERS = {
    'ia': (inc('a.h'), 0, None),
    'ia keep': (inc('a.h', '', KEEP), 1, None),
    'ia keep c': (inc('a.h', '', KEEPC), 1, None),
    'ia why keep': (inc('a.h', ' # '.replace('#', ''), ' /* why */' + KEEP), 1,
                    None),
    'ia keep reason': (inc('a.h', '', KEEP + ' because of it'), 1, None),
    'ia talk': (inc('a.h', '', ' // IWYU pragma is not keep'), 0, None),
    'ib': (inc('b.h'), 0, None),
    'ib keep': (inc('b.h', '', KEEP), 1, None),
    'ix': (inc('x.h'), 0, None),
    'ix keep': (inc('x.h', '', KEEP), 1, None),
    'ik': (inc('k.h'), 1, None),
    'il': (inc('l.h'), 1, None),
    'fA': (('struct A;', ('fwd', 'A'), FWD['A'], 0, 0), 0, None),
    'fA keep': (('struct A;' + KEEP, ('fwd', 'A'), FWD['A'], 0, 0), 1, None),
    'fB keep c': (('struct B;' + KEEPC, ('fwd', 'B'), FWD['B'], 0, 0), 1, None),
    'fN': (('namespace n { struct N; }', ('fwd', 'N'), FWD['N'], 0, 0), 0, None),
    'fN keep': (('namespace n {\nstruct N;%s\n}' % KEEP, ('fwd', 'N'), FWD['N'],
                 1, 1), 1, None),
    'fN keep open': (('namespace n {%s\nstruct N;\n}' % KEEP, ('fwd', 'N'),
                      FWD['N'], 1, 1), 0, None),
    'fT keep': (('template <typename X>\nstruct T;' + KEEP, ('fwd', 'T'),
                 FWD['T'], 0, 1), 1, None),
    'fT keep first': (('template <typename X>%s\nstruct T;' % KEEP, ('fwd', 'T'),
                       FWD['T'], 0, 1), 0, None),
    'attribute': (('struct [[deprecated]] Z;', ('fwd', 'Z'), 'struct Z;', 0, 0),
                  1, None),
    'fZ': (('struct Z;', ('fwd', 'Z'), 'struct Z;', 0, 0), 0, None),
    'fZ keep': (('struct Z;' + KEEP, ('fwd', 'Z'), 'struct Z;', 0, 0), 1, None),
    'alone': (('// IWYU pragma: keep', None, None, 0, 0), 0, None),
    'begin': (('// IWYU pragma: begin_keep', None, None, 0, 0), 0, 1),
    'begin c': (('/* IWYU pragma: begin_keep */', None, None, 0, 0), 0, 1),
    'end': (('// IWYU pragma: end_keep', None, None, 0, 0), 0, 0),
    'end c': (('/* IWYU pragma: end_keep */ int e@;', None, None, 0, 0), 0, 0),
    'code': (('int c@;', None, None, 0, 0), 0, None),
}
USES = {
    'full A': ('A v@;', 'A', 1), 'ptr A': ('A* v@;', 'A', 0),
    'ptr N': ('n::N* v@;', 'N', 0), 'full B': ('B v@;', 'B', 1),
    'ptr B': ('B* v@;', 'B', 0), 'ptr T': ('T<int>* v@;', 'T', 0),
}
# place -> (directory of the file, its name there, arguments)
PLACES = {
    'source': ('', 't.cc', ('-std=c++17', '-I.', 't.cc')),
    'header': ('', 't.h', ('-std=c++17', '-I.', 't.cc')),
    'directory': ('s/', 't.h', ('-std=c++17', '-I.', 's/t.cc')),
    'unreachable': ('s/', 't.h', ('-std=c++17', 's/t.cc')),
    'checked': ('s/', 'u.h', ('-std=c++17', '-I.', '-Xiwyu', '--check_also=*u.h',
                              's/t.cc')),
}


def covered(word):
    """Which lines the pragmas cover; None if a block stays open."""
    kept, is_open = [], False
    for w in word:
        line, own, block = LETTERS[w]
        kept.append(bool(own or is_open))
        if block == 1:
            is_open = True
        elif block == 0:
            is_open = False
    return None if is_open else kept


def available(word, uses):
    have = {LETTERS[w][0][1] for w in word}
    inc_a = ('inc', 'a.h') in have or ('inc', 'x.h') in have
    inc_b = ('inc', 'b.h') in have or ('inc', 'x.h') in have or \
        ('inc', 'k.h') in have
    for u in uses:
        text, t, full = USES[u]
        if not ((inc_a if HOME[t] == 'a.h' else inc_b) or
                not full and ('fwd', t) in have):
            return False
    return True


def case(item):
    word, uses, place = item
    kept = covered(word)
    ls = [LETTERS[w][0] for w in word]
    text, at = lines.compose(ls, [USES[u][0] for u in uses])
    d, name, args = PLACES[place]
    files = {d + h: cxx.guard(h, b) for h, b in HEADERS.items()}
    if name == 't.cc':
        files[d + name] = text
    else:
        files[d + name] = '#pragma once\n' + text
        files[d + 't.cc'] = '#include "%s"\n' % name
        at = [a + 1 for a in at]
    rc, rep, out = cxx.analyse(files, args)
    # The model.
    want = {HOME[USES[u][1]] for u in uses if USES[u][2]}
    kept_h = {l[1][1] for l, k in zip(ls, kept) if k and l[1] and
              l[1][0] == 'inc'}
    decl = {USES[u][1] for u in uses if not USES[u][2]}
    decl = {t for t in decl if HOME[t] not in want | kept_h}
    f = rep.files.get(d + name)
    got = set(f.remove) if f else set()
    stays, had, kept_forms = [], set(), {l[2] for l, k in zip(ls, kept) if k}
    for l, k, a in zip(ls, kept, at):
        if not l[1]:
            stays.append(True)
            continue
        needed = l[1][1] in (want if l[1][0] == 'inc' else decl)
        if k:
            stays.append(True)
        elif l[2] in kept_forms:
            # Repeats a line that is kept: either is fine.
            stays.append((l[2], a + l[3], a + l[4]) not in got)
        else:
            stays.append(needed and l[1] not in had)
        had.add(l[1])
    spelled = '#include "%s"'
    added = [spelled % h for h in want if ('inc', h) not in had]
    if d and '-I.' in args:
        added = [spelled % (d + h) for h in want if ('inc', h) not in had]
    added += [FWD[t] for t in decl if ('fwd', t) not in had]
    lines.compare(d + name, files, args, rep, ls, at, stays, added, out)
    return sum(kept)


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    names = list(LETTERS)
    items = []

    def add(alphabet, n, usets, places):
        k = 0
        for word in itertools.product(alphabet, repeat=n):
            if covered(word) is None:
                continue
            for u in usets:
                if available(word, u):
                    for p in places:
                        items.append((word, u, p))
                        k += 1
        return k
    some = [(), ('ptr A',), ('full A',), ('ptr N',), ('ptr B',), ('ptr T',),
            ('full B', 'ptr A')]
    for n in (0, 1):
        add(names, n, some, list(PLACES))
    add(names, 2, some, ['source'])
    add(names, 2, [(), ('ptr A',)], list(PLACES)[1:] if deep else
        ['header', 'directory', 'checked'])
    core = ['ia', 'ia keep', 'ix', 'ik', 'fA', 'fA keep', 'fN', 'fZ',
            'attribute', 'begin', 'begin c', 'end', 'end c', 'alone', 'code']
    add(names if deep else core, 3, [(), ('ptr A',)] if not deep else some[:4],
        ['source'])
    small = ['ia', 'ia keep', 'fA', 'fA keep', 'begin', 'end']
    add(core if deep else small, 4, [(), ('ptr A',)], ['source'])
    add(small, 5 if deep else 4, [()], ['directory'])
    # Several blocks in a file, each with up to two lines in it and after it.
    forms = [('begin', 'end'), ('begin c', 'end c')]
    inner = [w for n in range(3 if deep else 2)
             for w in itertools.product(['ia', 'fA', 'fN', 'fT keep', 'ib'], repeat=n)]
    outer = [(), ('ia',), ('fA',), ('fN',)]
    blocks = [(b,) + w + (e,) for b, e in (forms if deep else forms[:1])
              for w in inner]
    for n in (2, 3) if deep else (2,):
        for bs in itertools.product(blocks, repeat=n):
            for o in itertools.product(outer if n == 2 else outer[:1], repeat=2):
                word = sum((b + w for b, w in zip(bs, o + ((),) * n)), ())
                for p in ('source', 'directory'):
                    items.append((word, (), p))
    for bs in itertools.product(blocks[:6], repeat=3):
        items.append((sum(bs, ()), (), 'source'))
    res = c.explore('words', case, items)
    c.confirm_binding([({'t.cc': lines.compose([LETTERS[w][0] for w in word])[0],
                         **{h: cxx.guard(h, b) for h, b in HEADERS.items()}},
                        PLACES['source'][2])
                       for word, u, p in items[::2003] if p == 'source'][:8])
    c.sample({'file': [LETTERS[w][0][0] for w in ('ix', 'begin', 'fN', 'end')],
              'kept': covered(('ix', 'begin', 'fN', 'end'))})
    c.finish(states=len({i[0] for i in items}), transitions=len(items),
             letters=len(LETTERS), places=len(PLACES),
             kept_lines=sum(r or 0 for r in res))


if __name__ == '__main__':
    main()
