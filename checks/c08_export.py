"""C08: exported headers and declarations are provided by the exporter.

World: every include graph over three or four headers whose edges are plain or
exported (in each documented form), every set of them included by the user, every
set of symbols used.  The model is reachability over the exported edges.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import lines

PROP = 'C08'
STD = '-std=c++17'
# How the headers lie and are named: directory, how they include one another,
# how the user includes them, arguments.
LAYOUTS = {
    'flat': ('', '"%s"', '"%s"', ('-I.',)),
    'angled': ('', '<%s>', '"%s"', ('-I.',)),
    'directory': ('s/', '"%s"', '"s/%s"', ('-I.',)),
    'searched': ('s/', '"%s"', '"%s"', ('-Is',)),
    'both': ('s/', '"s/%s"', '"s/%s"', ('-I.', '-Iq')),
    'system': ('s/', '"%s"', '<%s>', ('-isystem', 's')),
}
USE = ['C# a@;', 'void r@() { f#(); }', 'int a@ = M#;', 'T# a@;', 'int a@ = e#;',
       'P#<int> a@;', 'int a@ = n#::v;']
BODY = ('struct C# { int m; };\nvoid f#();\n#define M# 1\ntypedef int T#;\n'
        'enum E# { e# };\ntemplate <class X> struct P# { X x; };\n'
        'namespace n# { const int v = 1; }\n')
FORMS = ('line', 'comment', 'block', 'blocks', 'comment block')


def edge_lines(targets, layout, form):
    """Include lines for [(header, exported)]."""
    d, quote, _, _ = LAYOUTS[layout]
    out = []
    is_open = False
    for h, exported in targets:
        text = '#include ' + quote % ('h%d.h' % h)
        if exported and form == 'line':
            text += '  // IWYU pragma: export'
        elif exported and form == 'comment':
            text += ' /* IWYU pragma: export */'
        elif form in ('block', 'blocks', 'comment block'):
            mark = '// IWYU pragma: %s'
            if form == 'comment block':
                mark = '/* IWYU pragma: %s */'
            if exported and not is_open:
                out.append(mark % 'begin_exports')
                is_open = True
            if is_open and (not exported or form == 'blocks'):
                if not exported:
                    out.append(mark % 'end_exports')
                    is_open = False
                else:
                    out.append(text)
                    out.append(mark % 'end_exports')
                    is_open = False
                    continue
        out.append(text)
    if is_open:
        out.append(mark % 'end_exports')
    return ''.join(l + '\n' for l in out)


def build_headers(graph, layout, form):
    d = LAYOUTS[layout][0]
    return {d + 'h%d.h' % i: cxx.guard('h%d.h' % i, edge_lines(
        targets, layout, form) + BODY.replace('#define', '\1')
        .replace('#', str(i)).replace('\1', '#define'))
        for i, targets in enumerate(graph)}


def case(item):
    graph, layout, form, direct, uses, place = item
    files = build_headers(graph, layout, form)
    uq = LAYOUTS[layout][2]
    args = (STD,) + LAYOUTS[layout][3] + ('t.cc',)
    text = ''.join('#include %s\n' % (uq % ('h%d.h' % d)) for d in direct)
    text += ''.join(USE[k].replace('#', str(h)).replace('@', str(n)) + '\n'
                    for n, (k, h) in enumerate(uses))
    name = 't.cc'
    if place == 'source':
        files['t.cc'] = text
    else:
        name = 't.h'
        files['t.h'] = cxx.guard('t.h', text)
        files['t.cc'] = '#include "t.h"\n'
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    f = rep.files[name]
    ids = {'#include ' + uq % ('h%d.h' % i): i for i in range(len(graph))}

    def fail(what):
        raise Violation('%s: %s' % (name, what), {
            'files': files, 'args': args, 'report': f.summary()})
    for l in f.adds() + [r[0] for r in f.remove]:
        if l not in ids:
            fail('unexpected line ' + l)
    gone = [ids[r[0]] for r in f.remove]
    added = [ids[l] for l in f.adds()]
    final = [d for d in direct if d not in gone] + added
    exporters = {}
    for h in {h for _, h in uses}:
        up = {i: tuple(j for j, t in enumerate(graph)
                       if (i, True) in t) for i in range(len(graph))}
        exporters[h] = cxx.reach(up, [h])
    for h, cand in exporters.items():
        if not cand & set(final):
            fail('nothing that provides h%d is included in the end' % h)
        if not cand & set(direct) and added.count(h) != 1 and \
                len(exporters) == 1:
            fail('h%d is not what is added' % h)
    if all(cand & set(direct) for cand in exporters.values()) and added:
        fail('an include is added although all is provided')
    for a in added:
        if a not in exporters:
            fail('the added h%d declares nothing that is used' % a)
    for d in final:
        if not any(d in cand for cand in exporters.values()):
            fail('h%d provides nothing but stays' % d)
    if len(exporters) == 1 and len(final) != 1:
        fail('one use, several includes')
    if sum(not any(c & set(final) - {d} for c in [cand])
           for d in final for cand in exporters.values()) == 0 and \
            len(final) > len(exporters):
        fail('more includes than uses')
    return len(added)


# -- what the exporter itself is told ----------------------------------------
EX = '  // IWYU pragma: export'
OWN = {
    'h': (('#include "h0.h"', ('inc', 'h0.h'), '#include "h0.h"', 0, 0), 0),
    'h export': (('#include "h0.h"' + EX, ('inc', 'h0.h'), '#include "h0.h"', 0,
                  0), 1),
    'g export c': (('#include "h1.h" /* IWYU pragma: export */', ('inc', 'h1.h'),
                    '#include "h1.h"', 0, 0), 1),
    'g': (('#include "h1.h"', ('inc', 'h1.h'), '#include "h1.h"', 0, 0), 0),
    'd': (('struct C0;', ('fwd', 'C0'), 'struct C0;', 0, 0), 0),
    'd export': (('struct C0;' + EX, ('fwd', 'C0'), 'struct C0;', 0, 0), 1),
    'e export c': (('struct D; /* IWYU pragma: export */', ('fwd', 'D'),
                    'struct D;', 0, 0), 1),
    'e attribute': (('struct [[deprecated]] D;', ('fwd', 'D'), 'struct D;', 0, 0),
                    1),
    't export': (('namespace n { template <class X> class T; }' + EX,
                  ('fwd', 'T'), 'namespace n { template <class X> class T; }', 0,
                  0), 1),
    'begin': (('// IWYU pragma: begin_exports', None, None, 0, 0), 'on'),
    'begin c': (('/* IWYU pragma: begin_exports */', None, None, 0, 0), 'on'),
    'end': (('// IWYU pragma: end_exports', None, None, 0, 0), 'off'),
    'end c': (('/* IWYU pragma: end_exports */', None, None, 0, 0), 'off'),
    'alone': (('// IWYU pragma: export', None, None, 0, 0), 0),
}


def exported(word):
    res, is_open = [], False
    for w in word:
        e = OWN[w][1]
        res.append(bool(is_open or e == 1))
        is_open = {'on': True, 'off': False}.get(e, is_open)
    return None if is_open else res


def own_case(item):
    word, place = item
    d = 's/' if place == 'directory' else ''
    files = build_headers([(), ()], 'directory' if d else 'flat', 'line')
    kept = exported(word)
    ls = [OWN[w][0] for w in word]
    text, at = lines.compose(ls)
    name = d + 't.h'
    args = (STD, '-I.', d + 't.cc')
    files[name] = '#pragma once\n' + text
    at = [a + 1 for a in at]
    files[d + 't.cc'] = '#include "t.h"\n'
    if place == 'checked':
        files['u.h'] = files.pop('t.h')
        name = 'u.h'
        files['t.cc'] = '#include "u.h"\n'
        args = (STD, '-I.', '-Xiwyu', '--check_also=*u.h', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    f = rep.files.get(name)
    got = set(f.remove) if f else set()
    forms = {l[2] for l, k in zip(ls, kept) if k}
    stays = []
    for l, k, a in zip(ls, kept, at):
        if not l[1] or k:
            stays.append(True)
        elif l[2] in forms:
            stays.append((l[2], a + l[3], a + l[4]) not in got)
        else:
            stays.append(False)
    if 'inc' in [l[1][0] for l, k in zip(ls, kept) if k and l[1]] or True:
        lines.compare(name, files, args, rep, ls, at, stays, [], out)
    return sum(kept)


# -- exported declarations ---------------------------------------------------
DECLS = {
    'C': ('struct C { int m; };', 'struct C;', 'C'),
    'T': ('template <class X> struct T { X m; };',
          'template <class X> struct T;', 'T<int>'),
    'N': ('namespace n { class N { public: int m; }; }',
          'namespace n { class N; }', 'n::N'),
}


def decl_case(item):
    kind, form, defines, direct, uses, place = item
    body, fwd, name = DECLS[kind]
    mark = {'none': '', 'line': EX, 'comment': ' /* IWYU pragma: export */',
            'block': ''}[form]
    line = fwd + mark + '\n'
    if kind == 'N' and form != 'block':
        line = 'namespace n {\nclass N;' + mark + '\n}\n'
    if form == 'block':
        line = ('// IWYU pragma: begin_exports\n' + line +
                '// IWYU pragma: end_exports\n')
    files = {'e.h': cxx.guard('e.h', line + 'void e();\n'),
             'c.h': cxx.guard('c.h', body + '\n'),
             'w.h': cxx.guard('w.h', '#include "e.h"\n'),
             'x.h': cxx.guard('x.h', '#include "c.h"\n#include "e.h"\n')}
    text = ''.join('#include "%s"\n' % h for h in direct)
    for n, u in enumerate(uses):
        text += {'ptr': '%s* a%d;\n' % (name, n),
                 'full': '%s a%d;\n' % (name, n),
                 'other': 'void r%d() { e(); }\n' % n}[u]
    file = 't.cc' if place == 'source' else 't.h'
    files['t.cc'] = text
    if file == 't.h':
        files['t.h'] = cxx.guard('t.h', text)
        files['t.cc'] = '#include "t.h"\n'
    args = (STD, '-I.', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    want = set()
    if 'full' in uses:
        want.add('#include "c.h"')
    if 'other' in uses:
        want.add('#include "e.h"')
    if 'ptr' in uses and 'full' not in uses:
        if form != 'none' and {'e.h', 'w.h', 'x.h'} & set(direct):
            want.add('#include "e.h"')
        else:
            want.add(fwd)
    if form != 'none' and 'ptr' in uses and 'full' in uses:
        # The definition would do for both, but the exporter may be asked for
        # on account of the declaration.
        f = rep.files.get(file)
        text = '#include "e.h"'
        if f and not f.correct and text in f.fulls() or \
                f and f.correct and 'e.h' in direct:
            want.add(text)
    cxx.verdict(files, file, rep, want, args)
    cxx.algebra(files, rep, args)
    return 0


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    items = []

    def graphs(n, marks):
        pairs = [(i, j) for i in range(n) for j in range(i)]
        for kinds in itertools.product(marks, repeat=len(pairs)):
            g = [[] for _ in range(n)]
            for (i, j), k in zip(pairs, kinds):
                if k is not None:
                    g[i].append((j, k))
            yield tuple(map(tuple, g))

    def add(gs, layouts, forms, directs, usets, places):
        for g in gs:
            plain = {i: tuple(j for j, _ in t) for i, t in enumerate(g)}
            for direct in directs:
                r = cxx.reach(plain, direct)
                for uses in usets:
                    if all(h in r for _, h in uses):
                        for l in layouts:
                            for f in forms:
                                for p in places:
                                    items.append((g, l, f, direct, uses, p))
    g3 = list(graphs(3, (None, False, True)))
    # All kinds of symbols, forms and layouts on three headers.
    chains = [g for g in g3 if len(g[2]) and len(g[1])]
    add(chains if deep else [g for g in chains if g[2][-1] == (1, True)],
        list(LAYOUTS), FORMS, [(2,), (1, 2), (0, 2)] if deep else [(2,)],
        [((k, 0),) for k in range(len(USE))] if deep else [((0, 0),)], ['source'])
    add(g3, ['flat'], ['line'], cxx.subsets(range(3)),
        [((k, 0),) for k in range(len(USE))], ['source', 'header'])
    add(g3, ['flat'], ['line', 'block'], cxx.subsets(range(3)),
        [((0, 0), (1, 1)), ((1, 0), (0, 2)), ((0, 0), (0, 1), (0, 2))],
        ['source'])
    g4 = list(graphs(4, (None, False, True)))
    add(g4, ['flat'], ['line'], [s for s in cxx.subsets(range(4)) if len(s) < 3 or
                                 deep] if deep else
        [s for s in cxx.subsets(range(4)) if len(s) == 1] + [(1, 3)],
        [((0, 0),)] + ([((0, 0), (0, 1)), ((0, 0), (0, 3))] if deep else []),
        ['source'])
    r1 = c.explore('graphs', case, items)
    own = []
    for n in range(0, 5 if deep else 4):
        for word in itertools.product(OWN, repeat=n):
            if exported(word) is not None:
                for p in (('header', 'directory', 'checked') if n < 3 or deep and
                          n < 4 else ('header',)):
                    own.append((word, p))
    r2 = c.explore('exporters', own_case, own)
    decls = [(k, f, True, d, u, p) for k in DECLS
             for f in ('none', 'line', 'comment', 'block')
             for d in cxx.ordered_subsets(['e.h', 'c.h', 'w.h', 'x.h'], 2 if
                                          not deep else 3)
             for u in [(), ('ptr',), ('full',), ('other',), ('ptr', 'other'),
                       ('ptr', 'full'), ('full', 'other')]
             for p in ('source', 'header')
             if ({'c.h', 'x.h'} & set(d) if 'full' in u else d or not u)
             and not (u == () and not d)
             and not ('other' in u and not {'e.h', 'w.h', 'x.h'} & set(d))
             and not ('ptr' in u and not d)]
    r3 = c.explore('declarations', decl_case, decls)
    c.confirm_binding([(dict(build_headers(i[0], i[1], i[2]), **{
        't.cc': '#include %s\nC0 a;\n' % (LAYOUTS[i[1]][2] % 'h2.h')}),
        (STD,) + LAYOUTS[i[1]][3] + ('t.cc',)) for i in items[:1000:97]])
    c.sample({'graph (target, exported)': items[-1][0], 'includes': items[-1][3]})
    c.finish(states=len({i[:3] for i in items}) + len(own) + len(decls),
             transitions=len(items) + len(own) + len(decls),
             graphs=len(g3) + len(g4), layouts=len(LAYOUTS), forms=len(FORMS),
             added=sum(r or 0 for r in r1))


if __name__ == '__main__':
    main()
