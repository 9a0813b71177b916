"""C19: the text of a report.

World 1 (order): every set of up to three (deep: four) of twelve lines - associated
headers, quoted and angled includes with and without extensions, forward
declarations in and out of namespaces - each to be added, kept or removed, in two
source orders, with and without --quoted_includes_first and --pch_in_code.  The
whole report is predicted byte by byte.
World 2 (reasons): every way to use each of five symbols of two headers up to twice
(plus by pointer), under every comment option: the names, how they are ordered,
aligned and cut, and that the lines never depend on the option.
World 3 (width): every maximal line length over a report with long and short names.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C19'

# name -> (printed line, file, text, use, symbol, possible states)
INC = 'add keep remove'.split()
VOC = [
    ('assoc', '#include "t.h"', 't.h', 'struct T { int m; };\n', 'T', ('keep', 'used')),
    ('inl', '#include "t-inl.h"', 't-inl.h', 'struct I { int m; };\n', 'I',
     ('keep', 'used')),
    ('qb', '#include "b.h"', 'b.h', 'struct B { int m; };\n', 'B', INC),
    ('qa', '#include "a.h"', 'a.h', 'struct A { int m; };\n', 'A', INC),
    ('qZ', '#include "Z/a.hpp"', 'Z/a.hpp', 'struct ZA { int m; };\n', 'ZA', INC),
    ('qn', '#include "noext"', 'noext', 'struct N { int m; };\n', 'N', INC),
    ('sh', '#include <y.h>', 's/y.h', 'struct Y { int m; };\n', 'Y', INC),
    ('sa', '#include <k/a.h>', 's/k/a.h', 'struct KA { int m; };\n', 'KA', INC),
    ('sn', '#include <ycpp>', 's/ycpp', 'struct YC { int m; };\n', 'YC', INC),
    ('sp', '#include <k/z.hpp>', 's/k/z.hpp', 'struct Z { int m; };\n', 'Z', INC),
    ('f1', 'struct F1;', None, 'struct F1;\n', 'F1', INC),
    ('f2', 'namespace n { struct F2; }', None, 'namespace n { struct F2; }\n',
     'n::F2', INC),
]
BY = {v[0]: v for v in VOC}


def ordinal(line, quoted_first, pch):
    if not line.startswith('#include'):
        return 9
    if pch and line == pch:
        return 0
    if line == '#include "t.h"':
        return 1
    if line == '#include "t-inl.h"':
        return 2
    if quoted_first and line.endswith('"'):
        return 3
    if line.endswith('.h>'):
        return 4
    if line.endswith('>'):
        return 5
    return 6


class Line:
    def __init__(self, text, present=None, desired=False, symbols=()):
        self.text, self.present, self.desired = text, present, desired
        self.symbols = list(symbols)


def cut(name, width):
    if len(name) <= width:
        return name
    return '' if width < 6 else name[:width - 3] + '...'


def render(name, lines, quoted_first=False, pch=None, comments=True, width=80,
           verbose=1, update=False):
    """The text of the record."""
    for l in lines:
        # Nobody asks why these are there.
        l.plain = l.text in ('#include "t.h"', '#include "t-inl.h"', pch)
    lines = sorted(lines, key=lambda l: (ordinal(l.text, quoted_first, pch), l.text,
                                         l.present or 0))
    edits = [l for l in lines if (l.present is None) == l.desired]
    if not edits and not update:
        return '\n(%s has correct #includes/fwd-decls)\n' % name
    out = []          # (text, symbols)

    def emit(l, prefix=''):
        if not comments or (not l.symbols and l.present is None):
            out.append((prefix + l.text, []))
        elif not l.symbols and not l.plain or not l.desired:
            out.append(('%s%s  // lines %d-%d' % (prefix, l.text, l.present,
                                                  l.present), []))
        elif l.plain:
            out.append((prefix + l.text, []))
        else:
            out.append((prefix + l.text, l.symbols))
    if verbose >= 1:
        out.append(('\n%s should add these lines:' % name, []))
        for l in lines:
            if l.desired and l.present is None:
                emit(l)
        out.append(('\n%s should remove these lines:' % name, []))
        for l in lines:
            if l.present is not None and not l.desired:
                emit(l, '- ')
    out.append(('\nThe full include-list for %s:' % name, []))
    for l in lines:
        if l.desired:
            emit(l)
    col = max([len(t) for t, s in out if s] or [0])
    text = ''
    for t, symbols in out:
        sep = ' ' * (col - len(t)) + '  // for '
        for s in symbols:
            if verbose < 3:
                s = cut(s, max(0, width - 1 - len(t) - len(sep)))
                if not s:
                    break
            t += sep + s
            sep = ', '
        text += t + '\n'
    return text + '---\n'


def record(out, name):
    """The record of one file, as printed."""
    i = out.find('\n%s should add these lines:' % name)
    if i < 0:
        i = out.find('\nThe full include-list for %s:' % name)
    if i < 0:
        i = out.find('\n(%s has' % name)
        return out[i:out.find('\n', i + 1) + 1] if i >= 0 else ''
    return out[i:out.find('---\n', i) + 4]


def check_text(files, args, want, what, name='t.cc'):
    rc, out = box().iwyu(files, args)
    if rc != 0:
        raise Violation('the analysis fails with status %s' % rc, {
            'files': files, 'args': args, 'output': out})
    got = record(out, name)
    if got != want:
        raise Violation('the report is not printed as documented: ' + what, {
            'files': files, 'args': args, 'wanted': want, 'got': got})
    return 1


# ------------------------------------------------------------------ world 1

def order_items(maxlen):
    names = [v[0] for v in VOC]
    for k in range(1, maxlen + 1):
        for sub in itertools.combinations(names, k):
            for states in itertools.product(*[BY[n][5] for n in sub]):
                for rev in (False, True) if k == 2 else (k % 2 == 0,):
                    for mode in ('', 'q', 'p', 'pq') if k < 3 else ('', 'q'):
                        yield tuple(zip(sub, states)), rev, mode
    # all lines at once
    for st in INC:
        for rev in (False, True):
            for mode in ('', 'q', 'p', 'pq'):
                yield tuple((n, st if st in BY[n][5] else 'keep')
                            for n in names), rev, mode


def order_files(elements, rev, mode):
    files, via, src, uses, lines = {}, '', [], '', []
    for n, (key, line, path, text, sym, _) in enumerate(VOC):
        state = dict(elements).get(key)
        if state is None:
            continue
        if path:
            files[path] = cxx.guard(path, text)
            use = '%s v%d;\n' % (sym, n)
            short = sym
        else:
            use = '%s* p%d;\n' % (sym, n)
            short = None
        here = state in ('keep', 'remove', 'used')
        if here:
            src.append((n, line, path is None))
        if state == 'add':
            via += text if path is None else line + '\n'
        if state in ('add', 'used') or state == 'keep' and key not in (
                'assoc', 'inl'):
            uses += use
        used = state != 'remove'
        lines.append((line, here, used,
                      [short] if short and used and not (
                          key in ('assoc', 'inl') and state == 'keep') else []))
    if via:
        files['w.h'] = '#pragma once\n' + via
        src.append((50, '#include "w.h"', False))
        lines.append(('#include "w.h"', True, False, []))
    # Includes first, as a reader would write them; either order within.
    src.sort(key=lambda s: (s[2], -s[0] if rev else s[0]))
    text = [s[1] for s in src]
    pch = None
    if 'p' in mode:
        files['pch.h'] = cxx.guard('pch.h', 'struct P { int m; };\n')
        text.insert(0, '#include "pch.h"')
        lines.append(('#include "pch.h"', True, True, []))
        pch = '#include "pch.h"'
    files['t.cc'] = '\n'.join(text + [uses])
    res = [Line(l, text.index(l) + 1 if here else None, used, symbols)
           for l, here, used, symbols in lines]
    args = ['-Isub', '-I.', '-isystem', 's', 't.cc']
    if 'q' in mode:
        args[0:0] = ['-Xiwyu', '--quoted_includes_first']
    if 'p' in mode:
        args[0:0] = ['-Xiwyu', '--pch_in_code']
    return files, tuple(args), res, pch


def order(item):
    files, args, lines, pch = order_files(*item)
    return check_text(files, args, render('t.cc', lines, 'q' in item[2], pch),
                      'the order of lines')


# ------------------------------------------------------------------ world 2

SYMS = [   # header, name with namespaces, declaration, use, use by pointer only
    ('a.h', 'fa', 'void fa();', 'fa();', False),
    ('a.h', 'nn::fb', 'namespace nn { void fb(); }', 'nn::fb();', False),
    ('a.h', 'nn::k::E', 'namespace nn { namespace k { struct E { int m; }; } }',
     'nn::k::E e%d;', True),
    ('b.h', 'MM', '#define MM(x) x', 'MM(;)', False),
    ('b.h', 'nn::Fc', 'namespace nn { void Fc(); }', 'nn::Fc();', False),
]
OPTIONS = [
    ('', {}), ('--comment_style=short', {}),
    ('--comment_style=long', {'long': 1}),
    ('--comment_style=none', {'comments': False}),
    ('--no_comments', {'comments': False}),
    ('--comment_style=long --no_comments', {'comments': False}),
    ('--update_comments', {'update': True}),
    ('--update_comments --comment_style=long', {'update': True, 'long': 1}),
    ('--update_comments --no_comments', {'update': True, 'comments': False}),
    ('--verbose=0', {'verbose': 0}),
    ('--verbose=2', {'verbose': 2}),
    ('--verbose=3', {'verbose': 3}),
    ('--verbose=0 --update_comments', {'verbose': 0, 'update': True}),
    ('--max_line_length=30', {'width': 30}),
    ('--max_line_length=30 --verbose=3', {'width': 30, 'verbose': 3}),
    ('--max_line_length=200 --comment_style=long', {'width': 200, 'long': 1}),
]


def reasons(item):
    uses, present, opt = item
    files = {}
    for h in ('a.h', 'b.h'):
        files[h] = cxx.guard(h, ''.join(s[2] + '\n' for s in SYMS if s[0] == h))
    files['w.h'] = '#pragma once\n#include "a.h"\n#include "b.h"\n'
    text = ['#include "%s"' % h for h in present]
    body = ['void r%d() { %s }' % (n, u[3].replace('%d', str(n)))
            for n, (i, pointer) in enumerate(uses)
            for u in [SYMS[i]] if not pointer]
    body += ['%s* p%d;' % (SYMS[i][1], n)
             for n, (i, pointer) in enumerate(uses) if pointer]
    files['t.cc'] = '\n'.join(text + body) + '\n'
    o = dict(OPTIONS[opt][1])
    long = o.pop('long', 0)
    lines = []
    for h in ('a.h', 'b.h'):
        count = {}
        full = [i for i, pointer in uses if not pointer and SYMS[i][0] == h]
        for i in full:
            # The type of the expression counts too, but macros have none.
            count[i] = count.get(i, 0) + (1 if SYMS[i][1] == 'MM' else 2)
        name = lambda i: SYMS[i][1] if long else SYMS[i][1].split('::')[-1]
        named = {name(i): c for i, c in count.items()}
        used = bool(full)
        # A pointer needs only the declaration: the header gives it if it is
        # there anyway.
        for i, pointer in uses:
            if pointer and SYMS[i][0] == h and used and i not in count:
                k = name(i) + ' (ptr only)'
                named[k] = named.get(k, 0) + 1
        syms = sorted(named, key=lambda s: (-named[s], s))
        at = text.index('#include "%s"' % h) + 1 if h in present else None
        lines.append(Line('#include "%s"' % h, at, used, syms))
        if any(pointer and SYMS[i][0] == h for i, pointer in uses) and not used:
            lines.append(Line('namespace nn { namespace k { struct E; } }', None,
                              True, []))
    if 'w.h' in present:
        lines.append(Line('#include "w.h"', text.index('#include "w.h"') + 1, False,
                          []))
    lines = [l for l in lines if l.present is not None or l.desired]
    args = tuple(x for w in OPTIONS[opt][0].split() for x in ('-Xiwyu', w)) + (
        '-I.', 't.cc')
    return check_text(files, args, render('t.cc', lines, **o), 'the reasons')


def reason_items(maxlen):
    kinds = [(i, False) for i in range(len(SYMS))] + [(2, True)]
    for k in range(maxlen + 1):
        for uses in itertools.combinations_with_replacement(kinds, k):
            for present in (('w.h',), ('a.h', 'b.h'), ('a.h', 'w.h'),
                            ('b.h', 'w.h', 'a.h')):
                for opt in range(len(OPTIONS)):
                    yield uses, present, opt


# ------------------------------------------------------------------ world 3

NAMES = ('a', 'abcde', 'abcdefghijklmnopqrstuvwxyz_1234567890')


def width(item):
    n, names, verbose = item
    files, lines, text, body = {}, [], [], ''
    for k, group in enumerate(names):
        h = '%s.h' % ('h' * (1 + 20 * k))
        files[h] = cxx.guard(h, ''.join('void %s_%d();\n' % (NAMES[g], k)
                                        for g in group))
        body += ''.join('void u%d_%d() { %s_%d(); }\n' % (k, g, NAMES[g], k)
                        for g in group)
        lines.append(Line('#include "%s"' % h, None, bool(group),
                          sorted('%s_%d' % (NAMES[g], k) for g in group)))
    files['w.h'] = '#pragma once\n' + ''.join(
        l.text + '\n' for l in lines)
    files['t.cc'] = '#include "w.h"\n' + body
    lines = [l for l in lines if l.desired] + [Line('#include "w.h"', 1, False, [])]
    args = ('-Xiwyu', '--max_line_length=%d' % n, '-Xiwyu',
            '--verbose=%d' % verbose, 't.cc')
    return check_text(files, args,
                      render('t.cc', lines, width=n, verbose=verbose),
                      'the width of lines')


def width_items(top):
    groups = cxx.subsets(range(3))
    for n in list(range(1, top)) + [1000, 2147483647]:
        for names in (((0, 1, 2), (0, 1, 2)), ((2,), (0,)), ((0, 1), (2,)),
                      ((0,), ()), ((), (1, 2))):
            for verbose in (0, 1, 3):
                yield n, names, verbose


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    a = list(order_items(4 if deep else 3))
    c.explore('order', order, a)
    b = list(reason_items(4 if deep else 3))
    c.explore('reasons', reasons, b)
    w = list(width_items(160 if deep else 100))
    c.explore('width', width, w)
    f, args, lines, pch = order_files(*a[-1])
    c.confirm_binding([(f, args)])
    c.sample({'files': f, 'args': args, 'report': render('t.cc', lines, True, pch)})
    c.finish(states=len(set(x[0] for x in a)) + len(b) + len(w),
             transitions=len(a) + len(b) + len(w))


if __name__ == '__main__':
    main()
