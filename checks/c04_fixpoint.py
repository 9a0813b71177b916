"""C04: following the recommendations gives code that compiles and stays put.

Every program of the world is the initial state of a transition system whose only
transition is "analyse, make exactly the recommended edits".  Each state must
compile and the second state must be the last.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import snippets

PROP = 'C04'
STD = '-std=c++17'
ERROR = re.compile(r'(^|\s)(fatal )?error: ')


def layout(item):
    """The files of one program, or None."""
    picks, lines, place = item
    files, user = {}, ''
    for n, (name, variant) in enumerate(picks):
        hs, u = snippets.family(name, n, variant)
        files.update(hs)
        user += u
    every = ''.join('#include "%s"\n' % h for h in sorted(files))
    files['x.h'] = cxx.guard('x.h', every)
    inc = ''.join('#include "%s"\n' % l if l.endswith('.h') else l + '\n'
                  for l in lines)
    body = inc + user
    if place == 'source':
        files['t.cc'] = body
    elif place == 'header':
        files['t.h'] = cxx.guard('t.h', body)
        files['t.cc'] = '#include "t.h"\n'
    elif place == 'beside':
        # The includes are in the header, the uses in the source.
        files['t.h'] = cxx.guard('t.h', inc)
        files['t.cc'] = '#include "t.h"\n' + user
    elif place == 'repeated':
        files['t.h'] = cxx.guard('t.h', inc)
        files['t.cc'] = '#include "t.h"\n' + inc + user
    elif place == 'also':
        files['u.h'] = cxx.guard('u.h', body)
        files['t.cc'] = '#include "u.h"\n'
    return files


def args_of(place):
    extra = ('-Xiwyu', '--check_also=*u.h') if place == 'also' else ()
    return (STD, '-I.') + extra + ('t.cc',)


def case(item):
    files, args = layout(item), args_of(item[2])
    rc, out = box().iwyu(files, args)
    if ERROR.search(out):
        return None                     # not a program: nothing to say
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    steps, state = 0, files
    while any(not rep.files[n].correct for n in rep.order):
        if steps:
            raise Violation(
                'the edited program is edited again', {
                    'before': {n: files[n] for n in rep.order if n in files},
                    'after': {n: state[n] for n in rep.order if n in state},
                    'first report': out, 'second report': out2})
        nxt = cxx.apply(state, rep)
        if nxt == state:
            raise Violation('edits change nothing', {'files': files,
                                                     'report': out})
        state = nxt
        steps += 1
        rc, out2 = box().iwyu(state, args)
        if ERROR.search(out2):
            raise Violation(
                'the edited program does not compile', {
                    'before': files, 'report': out,
                    'after': {n: state[n] for n in state
                              if state[n] != files[n]}, 'errors': out2[:1500]})
        rc, rep, out2 = cxx.analyse(state, args)
    return steps


def includes(k, deep):
    """Present lines for k families."""
    if k == 1:
        pool = ['p0.h', 'q0.h', 'x.h']
        for p in cxx.ordered_subsets(pool):
            if p:
                yield p
        for p in (('x.h', 'struct C0;'), ('struct C0;', 'q0.h'),
                  ('q0.h', 'struct C0;', 'p0.h'), ('struct C0;', 'p0.h')):
            yield p
    else:
        yield ('x.h',)
        yield ('q0.h', 'q1.h')
        yield ('p0.h', 'q0.h', 'p1.h', 'q1.h')
        if deep:
            yield ('q1.h', 'p1.h', 'x.h', 'p0.h')
            yield ('x.h', 'q1.h')
            yield ('struct C0;', 'q0.h', 'x.h', 'struct C1;')


# The families whose pairs are enumerated in the quick tier.
PAIRED = ['value', 'typedef', 'typedef pointer', 'returned value', 'autocast',
          'value parameter', 'derived', 'derived conversion', 'template argument',
          'template pointer argument', 'function template', 'specialisation',
          'operator', 'macro body', 'enum', 'opaque enum', 'nested class',
          'using declaration', 'inline function', 'auto', 'forward only']


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    names = list(snippets.SNIPPETS)
    variants = [(n, v) for n in names
                for v in range(len(snippets.SNIPPETS[n][1]))]
    items = [((nv,), p, place) for nv in variants for p in includes(1, deep)
             for place in ('source', 'header', 'beside', 'repeated', 'also')]
    r1 = c.explore('one family', case, items)
    pairs = []
    for i, a in enumerate(variants):
        for j, b in enumerate(variants):
            if not deep and (i > j or a[0] not in PAIRED or b[0] not in PAIRED):
                continue
            for p in includes(2, deep):
                for place in ('source', 'header') if deep else ('source',):
                    pairs.append(((a, b), p, place))
    r2 = c.explore('two families', case, pairs)
    res = [r for r in r1 + r2 if r is not None]
    c.confirm_binding([(layout(i), args_of(i[2])) for i in items[::301]][:12])
    c.sample({'families': items[40][0], 'lines': items[40][1],
              'place': items[40][2]})
    c.finish(states=len(res) + sum(res), transitions=len(res) + sum(res),
             programs=len(res), not_programs=len(items + pairs) - len(res),
             already_settled=sum(r == 0 for r in res), families=len(names))


if __name__ == '__main__':
    main()
