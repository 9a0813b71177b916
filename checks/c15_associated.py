"""C15: associated headers are recognised and shared with their source file.

World 1: all pairs of source and header names over stems, suffixes, directories
and extensions that differ from x.cc / x.h in up to three ways, with every
position and form of the include.  World 2: all contents of an associated header
(includes and declarations it needs, does not need or lacks) with all uses in the
source, marked by name or by pragma.  The model is the naming rule, and that a
source sees what its associated header keeps.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C15'
SOURCE = {'stem': ['x'], 'ext': ['.cc', '.cpp', '.cxx', '.c++', '.C'],
          'suffix': ['', '_test', '_unittest', '_regtest', '_tests', '-inl'],
          'prefix': ['', 'test_headercompile_', 'test_'],
          'dir': ['', 'd/', 'd/internal/', 'd/src/', 'd/e/']}
HEADER = {'stem': ['x', 'y', 'xx', 'X'],
          'suffix': ['', '-inl', '_test', '_inl', '2'],
          'ext': ['.h', '.hpp', '.hxx', '.hh', '.H', '.inl', '.inc', '', '.h.h'],
          'dir': ['', 'd/', 'd/public/', 'd/include/', 'd/src/', 'e/']}
HOW = {'position': ['first', 'second', 'through', 'last'],
       'form': ['quote', 'angle', 'system'],
       'mark': ['', 'line', 'before', 'other', 'both'],
       # An include in front of all others, and whether it is said to be
       # precompiled.
       'pch': ['', 'precompiled', 'plain']}
COMMON = {'a.h': 'struct A { int m; };\n', 'b.h': 'struct B { int m; };\n',
          'c.h': 'struct C { int m; };\n', 'y.h.': '',
          'all.h': '#include "a.h"\n#include "b.h"\n#include "c.h"\n'}
CONTENT = '#include "a.h"\n#include "b.h"\n#include "all.h"\nstruct F;\nstruct G;\n' \
    'struct S { A a; C c; F* f; };\n'
USES = 'A a; B b; C c; F* f; G* g; Z z;\n'


def deviating(limit):
    keys = [('s', k) for k in SOURCE] + [('h', k) for k in HEADER] + \
        [('w', k) for k in HOW]
    tables = {'s': SOURCE, 'h': HEADER, 'w': HOW}
    for n in range(limit + 1):
        for ks in itertools.combinations(keys, n):
            for vals in itertools.product(*[tables[t][k][1:] for t, k in ks]):
                yield tuple(zip(ks, vals))


def canonical(stem, suffix):
    """What is left of a base name without its extension."""
    if suffix in ('_test', '_unittest', '_regtest', '-inl'):
        suffix = ''
    return stem + suffix


def names(item):
    v = {('s', k): x[0] for k, x in SOURCE.items()}
    v.update({('h', k): x[0] for k, x in HEADER.items()})
    v.update({('w', k): x[0] for k, x in HOW.items()})
    v.update(dict(item))
    s = lambda k: v['s', k]
    h = lambda k: v['h', k]
    source = s('dir') + s('prefix') + s('stem') + s('suffix') + s('ext')
    header = h('dir') + h('stem') + h('suffix') + h('ext')
    return source, header, v


def unclear(v):
    """Combinations about which nothing is documented."""
    s, h = (lambda k: v['s', k]), (lambda k: v['h', k])
    if v['w', 'pch'] and (v['w', 'form'] == 'system' or v['w', 'mark'] in ('other', 'both')
                          or v['w', 'position'] == 'through'):
        return True
    return v['w', 'position'] == 'through' and v['w', 'mark'] in ('other', 'both') or \
        (s('prefix') and s('suffix')) or (s('prefix') and s('dir')) or \
        h('ext') == '.h.h' and h('suffix') or (s('suffix') == '-inl' and
                                               s('prefix'))


def model(v):
    """(has a record of its own, shared with the source)"""
    s, h, w = (lambda k: v['s', k]), (lambda k: v['h', k]), (lambda k: v['w', k])
    if w('form') == 'system':
        return (w('mark') in ('line', 'before', 'both') and w('position') != 'through',) * 2
    ours = canonical(s('stem'), s('suffix'))
    if s('prefix') == 'test_':
        ours = 'test_' + ours
    theirs = canonical(h('stem'), h('suffix'))
    if h('ext') in ('.inc', '.h.h', ''):
        theirs += {'.inc': '.inc', '.h.h': '.h', '': ''}[h('ext')]
    # public belongs to internal, include to src.
    place = {'d/internal/': 'd/public/', 'd/include/': 'd/src/'}
    same_dir = place.get(s('dir'), s('dir')) == place.get(h('dir'), h('dir'))
    named = ours == theirs and (same_dir or w('position') == 'first' and
                              w('pch') != 'plain')
    if w('position') == 'through':
        return ours == theirs and same_dir, False
    marked = w('mark') in ('line', 'before', 'both')
    return named or marked, named or marked


def program(item):
    source, header, v = names(item)
    files = {n: cxx.guard(n, t) for n, t in COMMON.items() if n != 'y.h.'}
    files[header] = cxx.guard(header, CONTENT)
    w = lambda k: v['w', k]
    at = {'quote': header, 'angle': header, 'system': header}[w('form')]
    form = '"%s"' if w('form') == 'quote' else '<%s>'
    if w('form') == 'system':
        # Found by -isystem sys only.
        files['sys/' + header] = files.pop(header)
    line = '#include ' + form % at
    put = {'': line, 'line': line + '  // IWYU pragma: associated',
           'before': '// IWYU pragma: associated\n' + line,
           'other': line, 'both': line + '  // IWYU pragma: associated'}[w('mark')]
    z = '#include "z.h"' + ('  // IWYU pragma: associated'
                            if w('mark') in ('other', 'both') else '')
    files['z.h'] = cxx.guard('z.h', 'struct Z {};\n')
    if w('position') == 'through':
        files['z.h'] = cxx.guard('z.h', line + '\nstruct Z {};\n')
        text = '#include "z.h"\n'
    elif w('position') == 'first':
        text = put + '\n' + z + '\n'
    elif w('position') == 'second':
        text = z + '\n' + put + '\n'
    else:
        text = z + '\n#include "all.h"\n' + put + '\n'
    if w('pch'):
        files['pre.h'] = cxx.guard('pre.h', 'struct Pre {};\n')
        text = '#include "pre.h"\n' + text
    files[source] = text + USES
    args = ('-std=c++17', '-I.') + (('-isystem', 'sys')
                                    if w('form') == 'system' else ())
    if w('pch') == 'precompiled':
        args += ('-Xiwyu', '--pch_in_code')
    return files, args + ('-x', 'c++', source), line, source, header, v


def name_case(item):
    if unclear(names(item)[2]):
        return 0
    files, args, line, source, header, v = program(item)
    path = ('sys/' if v['w', 'form'] == 'system' else '') + header
    rc, rep, out = cxx.analyse(files, args)
    recorded, shared = model(v)
    other = v['w', 'mark'] in ('other', 'both')

    def fail(what):
        raise Violation('%s and %s: %s' % (source, header, what), {
            'files': files, 'args': args, 'model': [recorded, shared],
            'output': out})
    want = {source} | ({path} if recorded else set()) | (
        {'z.h'} if other and v['w', 'position'] != 'through' else set())
    if set(rep.order) != want:
        fail('there are records for %s instead of %s' % (sorted(rep.order),
                                                         sorted(want)))
    inc = lambda n: '#include "%s.h"' % n
    if recorded:
        f = rep.files[path]
        if (f.adds(), sorted(r[0] for r in f.remove)) != (
                [inc('c')], sorted([inc('all'), inc('b'), 'struct G;'])):
            fail('wrong edits for the header: %s' % f.summary())
    f = rep.files[source]
    add = [inc('b')]
    remove = [inc('all')] if v['w', 'position'] == 'last' else []
    if v['w', 'pch'] == 'plain':
        remove.append(inc('pre'))
    if shared:
        add.append('struct G;')
    else:
        add += [inc('a'), inc('c'), 'struct F;']
        # An unshared declaration elsewhere is no help.
        add.append('struct G;')
        if v['w', 'position'] != 'through':
            remove.append(line)
    if (sorted(f.adds()), sorted(r[0] for r in f.remove)) != (
            sorted(add), sorted(remove)):
        fail('wrong edits for the source: %s' % (f.summary(),))
    return 1


# -- contents ----------------------------------------------------------------
# Per class: how the header treats it and how the source does.
IN_HEADER = ('none', 'used', 'unused', 'lacking')
IN_SOURCE = ('none', 'use', 'include', 'use include')
FWD_HEADER = ('none', 'used', 'unused', 'included unused')
FWD_SOURCE = ('none', 'use', 'use full')


def content_case(item):
    classes, fwd, mark, order = item
    header, uses, first, rest = '', '', '', ''
    members = ''
    h_add, h_rm, s_add, s_rm = [], [], [], []
    files = {'x.h': '', 'all.h': ''}
    for n, (h, s) in enumerate(classes):
        inc = '#include "k%d.h"' % n
        files['k%d.h' % n] = cxx.guard('k%d.h' % n, 'struct K%d { int m; };\n' % n)
        files['all.h'] += inc + '\n'
        if h in ('used', 'unused'):
            header += inc + '\n'
        if h in ('used', 'lacking'):
            members += ' K%d k%d;' % (n, n)
        if h == 'lacking':
            h_add.append(inc)
        if h == 'unused':
            h_rm.append(inc)
        if 'include' in s:
            rest += inc + '\n'
        if 'use' in s.split():
            uses += 'K%d u%d;\n' % (n, n)
        keeps = h in ('used', 'lacking')
        if s == 'use' and not keeps:
            s_add.append(inc)
        if s == 'include':
            s_rm.append(inc)
    h, s = fwd
    files['g.h'] = cxx.guard('g.h', 'struct G { int m; };\n')
    files['all.h'] += '#include "g.h"\n'
    if h in ('used', 'unused'):
        members = members if h == 'unused' else members + ' G* g;'
        header += 'struct G;\n'
        if h == 'unused':
            h_rm.append('struct G;')
    elif h == 'included unused':
        header += '#include "g.h"\n'
        h_rm.append('#include "g.h"')
    if s == 'use':
        uses += 'G* pg;\n'
        if h != 'used':
            s_add.append('struct G;')
    elif s == 'use full':
        uses += 'G vg;\n'
        s_add.append('#include "g.h"')
    # all.h comes first, is needed for nothing and goes.
    files['all.h'] = cxx.guard('all.h', files['all.h'])
    files['x.h'] = cxx.guard('x.h', '#include "all.h"\n' + header +
                             'struct S {%s };\n' % members)
    h_rm.append('#include "all.h"')
    name = 'x.h' if mark == 'name' else 'w.h'
    if name == 'w.h':
        files['w.h'] = files.pop('x.h')
    line = '#include "%s"%s\n' % (name, '' if mark == 'name' else
                                  '  // IWYU pragma: associated')
    files['x.cc'] = (line + rest if order == 'first' else rest + line) + uses
    args = ('-std=c++17', '-I.', 'x.cc')
    rc, rep, out = cxx.analyse(files, args)
    for n, add, rm in ((name, h_add, h_rm), ('x.cc', s_add, s_rm)):
        f = rep.files.get(n)
        got = (sorted(f.adds()), sorted(r[0] for r in f.remove)) if f else None
        if got != (sorted(add), sorted(rm)):
            raise Violation('%s: %s instead of %s' % (n, got, (add, rm)), {
                'files': files, 'args': args, 'output': out})
    cxx.algebra(files, rep, args)
    if set(rep.order) != {name, 'x.cc'} or rep.order[-1] != 'x.cc':
        raise Violation('records for %s' % rep.order, {'files': files})
    full = [l for l in rep.files['x.cc'].fulls()]
    return 1


def chain_case(item):
    """Headers that have associated headers of their own."""
    n, edges, needs = item
    files, marks = {}, {a: [b for x, b in edges if x == a] for a in range(n)}
    name = lambda i: 'x.cc' if i == 0 else 'n%d.h' % i
    for i in range(n):
        text = '#ifndef N%d\n#define N%d\n' % (i, i)
        text += ''.join('#include "%s"  // IWYU pragma: associated\n' % name(j)
                        for j in marks[i])
        text += '#include "a.h"\nstruct N_%d {' % i
        text += ' A a;' if i in needs else ''
        files[name(i)] = text + ' };\n#endif\n'
    files['a.h'] = cxx.guard('a.h', COMMON['a.h'])
    args = ('-std=c++17', '-I.', 'x.cc')
    rc, rep, out = cxx.analyse(files, args)
    want = {name(i) for i in cxx.reach(marks, {0})}
    if set(rep.order) != want or len(rep.order) != len(want):
        raise Violation('records for %s instead of %s' %
                        (rep.order, sorted(want)),
                        {'files': files, 'args': args, 'output': out})
    for i in cxx.reach(marks, {0}):
        f = rep.files[name(i)]
        gone = [r[0] for r in f.remove]
        for j in marks[i]:
            cyclic = i in cxx.reach(marks, {j})
            if not cyclic and '#include "%s"' % name(j) in gone:
                raise Violation('%s loses its associated %s' % (name(i), name(j)),
                                {'files': files, 'args': args, 'output': out})
        if i in needs and '#include "a.h"' in gone and not any(
                k in needs or True for k in marks[i]):
            raise Violation('%s loses a.h' % name(i), {'files': files,
                                                       'output': out})
    return 1


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    items = list(deviating(3))
    if not deep:
        # Three deviations only where names and place interact.
        items = [i for i in items if len(i) < 3 or
                 all(k[1] in ('suffix', 'dir', 'position', 'prefix', 'mark',
                          'pch')
                     for k, _ in i)]
    c.explore('names', name_case, items)
    worlds = list(itertools.product(
        itertools.product(itertools.product(IN_HEADER, IN_SOURCE), repeat=2),
        itertools.product(FWD_HEADER, FWD_SOURCE), ('name', 'pragma'),
        ('first', 'last')))
    if not deep:
        worlds = [w for w in worlds if w[0][0] <= w[0][1] and
                  (w[2] == 'name') == (w[3] == 'first')]
    c.explore('contents', content_case, worlds)
    pairs = [(a, b) for a in range(3) for b in range(3)]
    c.explore('chains', chain_case, [
        (3, e, needs) for e in cxx.subsets(pairs)
        for needs in (cxx.subsets(range(3)) if deep else [(), (0, 1, 2), (1,)])])
    c.confirm_binding([program(i)[:2] for i in items[::len(items) // 6]][:8])
    c.sample({'names': names(items[-1])[:2]})
    c.finish(states=len(items) + len(worlds), transitions=len(items) + len(worlds))


if __name__ == '__main__':
    main()
