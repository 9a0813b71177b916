"""C21: options change the scope of a report as documented, and nothing else.

World 1 (scope): every set of up to two (deep: three) --check_also globs over a tree
of files, each with a violation of its own, in several include layouts: which files
are reported on is decided by the C library's rules for globs (a model), and what is
said about a file does not depend on which others are reported.
World 2 (keep): every set of up to two --keep globs over lines of every kind.
World 3 (transitive): every include graph and every set of uses of three headers,
with and without --transitive_includes_only.
World 4 (prefix): every presence and use of two types of a prefix header, under every
policy and every way to have a prefix header (-include once, twice, --pch_in_code).
World 5 (nofwd): every way to declare, define and use a class or class template,
with and without --no_fwd_decls.
World 6 (output): every set of up to two (deep: three) options about the output on
every program of a base world: the files reported, their edits and lists stay.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from fnmatch import fnmatchcase
from harness import *  # noqa
import cxx

PROP = 'C21'
DEEP = TIER == 'thorough'


def xi(*opts):
    return tuple(x for o in opts for x in ('-Xiwyu', o))


# ------------------------------------------------------------------ world 1

GLOBS = ['p/x.h', './p/x.h', 'p/*', '*', '*.h', 'p/q/*', '*y.h', 'p/?.h',
         'p/[xy].h', 'p/[!x].h', 'x.h', 'p/', 'nonexist.h', '*z.h', 'p/t.h',
         'p/q/../x.h', 'p//x.h', '*.[!c]', 'P/X.H', 'p/*.inc']


def scope_files(layout):
    def h(name, *incs, **kw):
        n = name.replace('/', '_').replace('.', '_')
        return cxx.guard(name, ''.join('#include "%s"\n' % i for i in incs) +
                         'struct D_%s;\nB* u_%s;\n' % (n, n))
    files = {'base.h': cxx.guard('base', 'struct B { int m; };\n')}
    tops = ['p/t.h', 'p/x.h', 'p/q/y.h', 'z.h']
    if layout == 'flat':
        for t in tops:
            files[t] = h(t, 'base.h')
        inc = tops
    elif layout == 'chain':
        for a, b in zip(tops, tops[1:] + [None]):
            files[a] = h(a, *([b] if b else []), 'base.h')
        inc = tops[:1]
    else:   # no associated header; a source fragment
        for t in tops[1:]:
            files[t] = h(t, 'base.h')
        files['p/frag.inc'] = 'struct D_frag;\nB* u_frag;\n'
        inc = tops[1:] + ['p/frag.inc']
    files['p/t.cc'] = ''.join('#include "%s"\n' % i for i in inc) + \
        'struct D_cc;\nB* u_cc;\n'
    return files


def plain_glob(g):
    """The normal form of a path: no ./, no //."""
    while g.startswith('./'):
        g = g[2:]
    return g.replace('//', '/')


def scope(item):
    globs, layout = item
    files = scope_files(layout)
    args = xi(*['--check_also=' + g for g in globs]) + ('-I.', 'p/t.cc')
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    want = {'p/t.cc'} | {'p/t.h'} & set(files)
    for f in files:
        for g in globs:
            if '..' not in g and fnmatchcase(f, plain_glob(g)):
                want.add(f)
    got = set(rep.order)
    if any('..' in g for g in globs):
        # Whether p/q/../x.h means p/x.h is not said anywhere.
        got.discard('p/x.h')
        want.discard('p/x.h')
    if got != want:
        raise Violation('reports are given for the wrong files: %s' % sorted(
            got ^ want), {'files': files, 'args': args, 'got': sorted(got),
                          'wanted': sorted(want)})
    return {f: rep.files[f].summary() for f in rep.order}


# ------------------------------------------------------------------ world 2

KEEP = ['k/a.h', 'k/*', '*', '*b.h', 's/sys.h', '*sys*', 'k/?.h', 'k/[ab].h',
        'b.h', '"b.h"', '<sys.h>', 'sys.h', './k/a.h', 'k', 'none.h', '*.h']


def keep(item):
    globs, layout, checked = item
    files = {'k/a.h': cxx.guard('k_a_h', 'struct A { int m; };\n'),
             'b.h': cxx.guard('b_h', 'struct Bb { int m; };\n'),
             'k/b.h': cxx.guard('kb_h', 'struct Kb { int m; };\n'),
             's/sys.h': cxx.guard('sys_h', 'struct S { int m; };\n'),
             'k/deep/d.h': cxx.guard('d_h', 'struct Dd { int m; };\n')}
    where = {'"k/a.h"': 'k/a.h', '"b.h"': 'b.h', '"k/b.h"': 'k/b.h',
             '<sys.h>': 's/sys.h', '"deep/d.h"': 'k/deep/d.h',
             '"a.h"': 'k/a.h', '"k/deep/../a.h"': 'k/a.h'}
    lines = ['"k/a.h"', '"b.h"', '"k/b.h"', '<sys.h>', '"deep/d.h"']
    if layout == 'used':
        lines = ['"b.h"', '<sys.h>', '"k/b.h"', '"a.h"']
    elif layout == 'dup':
        lines = ['"b.h"', '"k/b.h"', '"b.h"', '<sys.h>']
    elif layout == 'spelled':
        lines = ['"k/deep/../a.h"', '"b.h"']
    text = ''.join('#include %s\n' % l for l in lines)
    uses = 'A ua;\nS us;\n' if layout == 'used' else ''
    name = 't.cc'
    if checked:
        files['x.h'] = '#pragma once\n' + text + uses
        files['t.cc'] = '#include "x.h"\n'
        name = 'x.h'
    else:
        files['t.cc'] = text + uses
    args = xi(*['--keep=' + g for g in globs] +
              (['--check_also=x.h'] if checked else [])) + (
        '-I.', '-Ik', '-isystem', 's', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    def kept(path):
        return any(fnmatchcase(path, plain_glob(g)) for g in globs)
    want = set()
    for l in lines:
        used = layout == 'used' and where[l] in ('k/a.h', 's/sys.h')
        if used or kept(where[l]):
            want.add('#include ' + l)
    cxx.verdict(files, name, rep, want, args, keep_dups=[
        '#include ' + l for l in lines if kept(where[l])])
    if checked:
        cxx.verdict(files, 't.cc', rep,
                    {'#include "x.h"'} if kept('x.h') else set(), args)
    return len(want)


# ------------------------------------------------------------------ world 3

def transitive_items():
    names = ['a.h', 'x.h', 'y.h', 't.cc']
    edges = [(i, j) for j in names[1:] for i in names[:3]
             if names.index(i) < names.index(j)]
    for sub in cxx.subsets(edges):
        for order in (0, 1):
            for uses in cxx.subsets(['a.h', 'x.h', 'y.h']):
                for how in ('full', 'macro', 'fn') if uses else ('full',):
                    yield sub, order, uses, how


def transitive(item):
    """a.h gives A; x.h, y.h and t.cc may use it, through any includes."""
    sub, order, uses, how = item
    decl = {'full': 'struct A { int m; };\n', 'macro': '#define A 1\n',
            'fn': 'int A();\n'}[how]
    use = {'full': 'A u_%s;\n', 'macro': 'int u_%s = A;\n',
           'fn': 'inline int u_%s() { return A(); }\n'}[how]
    inc = {}
    for i, j in sub:
        inc.setdefault(j, []).append(i)
    if order:
        for v in inc.values():
            v.reverse()
    users = {'a.h': 't.cc', 'x.h': 'x.h', 'y.h': 'y.h'}
    users = {users[u] for u in uses}
    files = {'a.h': cxx.guard('aa.h', decl)}
    for f in ('x.h', 'y.h', 't.cc'):
        body = ''.join('#include "%s"\n' % i for i in inc.get(f, ()))
        body += 'struct T_%s { int m; };\n' % f[0]
        if f in users:
            body += use % f[0]
        files[f] = body if f == 't.cc' else cxx.guard(f, body)
    # The order of the text decides what has been seen: skip what does not compile.
    seen, ok = set(), []

    def walk(f):
        if f in seen:
            return
        seen.add(f)
        for i in inc.get(f, ()):
            walk(i)
        if f in users and 'a.h' not in seen:
            ok.append(f)
    walk('t.cc')
    if ok:
        return 0
    graph = {f: inc.get(f, ()) for f in files}
    base = xi('--check_also=*.h') + ('-I.', 't.cc')
    rc, plain, out = cxx.analyse(files, base)
    args = xi('--transitive_includes_only') + base
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    if rep.order != plain.order:
        raise Violation('other files are reported', {'files': files, 'args': args})
    for f in rep.order:
        visible = {'#include "%s"' % g for g in cxx.reach(graph, [f])}
        a, b = plain.files[f], rep.files[f]
        want = [t for t in a.adds() if t in visible]
        if b.adds() != want or [r[0] for r in a.remove] != [r[0] for r in b.remove]:
            raise Violation(
                '%s: --transitive_includes_only does not just leave out what is '
                'not included yet' % f, {
                    'files': files, 'args': args, 'wanted': want,
                    'without': a.summary(), 'with': b.summary()})
    return 1


def mapped(item):
    """A mapped header that nothing includes is not to be suggested either."""
    visible, kind, how = item
    files = {'a.h': cxx.guard('aa.h', 'struct A { int m; };\n'),
             'pub.h': cxx.guard('pub.h', '#include "a.h"\n'),
             'w.h': cxx.guard('w.h', '#include "%s"\n' % (
                 'pub.h' if visible else 'a.h')),
             't.cc': '#include "w.h"\nA v;\n',
             'm.imp': '[{include: ["\\"a.h\\"", "private", "\\"pub.h\\"", "public"]}]'
             if kind == 'include' else
             '[{symbol: ["A", "private", "\\"pub.h\\"", "public"]}]'}
    if how == 'pragma':
        files['a.h'] = '// IWYU pragma: private, include "pub.h"\n' + files['a.h']
    args = xi('--transitive_includes_only') + ('-I.', 't.cc')
    if how == 'file':
        args = xi('--mapping_file=m.imp') + args
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    adds = rep.files['t.cc'].adds()
    if visible and adds != ['#include "pub.h"']:
        raise Violation('the public header is not suggested', {
            'files': files, 'args': args, 'report': rep.summary()})
    if not visible and '#include "pub.h"' in adds:
        raise Violation('a header that nothing includes is suggested', {
            'files': files, 'args': args, 'report': rep.summary()},
            key='mapped-public-header-not-included')
    return 1


# ------------------------------------------------------------------ world 4

STATES = [(use, line) for use in ('', 'fwd', 'full') for line in ('', 'inc', 'fwd')]


def prefix(item):
    mode, policy, states, checked = item
    headers = {'P': 'p.h', 'A': 'a.h', 'B': 'b.h'}
    files = {'p.h': cxx.guard('pp.h', '#include "a.h"\nstruct P { int m; };\n'
                              if mode != 'two' else 'struct P { int m; };\n'),
             'a.h': cxx.guard('aa.h', 'struct A { int m; };\n'),
             'b.h': cxx.guard('bb.h', 'struct B { int m; };\n')}
    before = {'one': ('-include', 'p.h'), 'two': ('-include', 'p.h', '-include',
                                                 'a.h'),
              'pch': xi('--pch_in_code'),
              'pch+one': xi('--pch_in_code') + ('-include', 'q.h')}[mode]
    if mode == 'pch+one':
        files['q.h'] = cxx.guard('qq.h', '#include "b.h"\n')
    superseded = {'one': 'PA', 'two': 'PA', 'pch': 'A', 'pch+one': 'AB'}[mode]
    incs, fwds, uses, want = [], [], [], set()
    if mode.startswith('pch'):
        incs.append('#include "p.h"')
        want.add('#include "p.h"')
    for t, (use, line) in states:
        h = '#include "%s"' % headers[t]
        f = 'struct %s;' % t
        if line == 'inc' and h not in incs:
            incs.append(h)
        if line == 'fwd':
            fwds.append(f)
        if use:
            uses.append('%s%s v_%s;' % (t, '*' if use == 'fwd' else '', t))
        gone = t in superseded and policy != 'add'
        if use == 'full':
            need = h
        elif use == 'fwd':
            # An include that stays anyway gives the declaration too.
            need = f if h not in want else None
            if line == 'fwd':
                need = f
        else:
            need = None
        if need and gone and not (policy == 'keep' and need in incs + fwds):
            need = None
        if need:
            want.add(need)
    # An include of the prefix header that is there for another reason.
    text = '\n'.join(incs + fwds + uses) + '\n'
    if checked:
        files['x.h'] = text
        files['t.cc'] = '#include "x.h"\n'
    else:
        files['t.cc'] = text
    if any(t == 'B' and use and line != 'inc' for t, (use, line) in states) and \
            mode != 'pch+one':
        name = 'x.h' if checked else 't.cc'
        files[name] = '#include "wb.h"\n' + files[name] if not mode.startswith(
            'pch') else files[name].replace('\n', '\n#include "wb.h"\n', 1)
        files['wb.h'] = cxx.guard('wb.h', '#include "b.h"\n')
    args = before + xi(*(['--prefix_header_includes=' + policy] if policy else []) +
                       (['--check_also=x.h'] if checked else [])) + ('-I.', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    cxx.verdict(files, 'x.h' if checked else 't.cc', rep, want, args)
    return len(want)


def prefix_items():
    for mode in ('one', 'two', 'pch', 'pch+one'):
        for policy in ('', 'add', 'keep', 'remove'):
            for pair in itertools.combinations('PAB', 2):
                for ss in itertools.product(STATES, repeat=2):
                    if mode.startswith('pch') and any(
                            t == 'P' and line == 'fwd'
                            for t, (u, line) in zip(pair, ss)):
                        continue
                    for checked in (False, True):
                        if checked and (mode.startswith('pch') or not policy):
                            continue
                        yield (mode, policy or 'add', tuple(zip(pair, ss)), checked)


# ------------------------------------------------------------------ world 5

def nofwd_items():
    heads = ('d', 'D', 'dd', 'dD', 'Dd')
    for tpl in (False, True):
        for one in ('', 'd', 'D'):
            for two in ('', 'd', 'D'):
                if one == two == 'D':
                    continue
                for local in ('', 'before', 'after', 'both'):
                    for use in ('', 'ptr', 'fnptr', 'ext', 'full'):
                        for direct in (False, True):
                            yield tpl, one, two, local, use, direct


def nofwd(item):
    tpl, one, two, local, use, direct = item
    pre = 'template <class X> ' if tpl else ''
    decl = {'': '', 'd': pre + 'struct A;\n', 'D': pre + 'struct A { int m; };\n'}
    files = {'one.h': cxx.guard('one.h', decl[one] + 'struct One;\n'),
             'two.h': cxx.guard('two.h', decl[two] + 'struct Two;\n')}
    name = 'A<int>' if tpl else 'A'
    text = {'': '', 'ptr': name + '* v;\n', 'fnptr': 'void f(%s*);\n' % name,
            'ext': 'extern %s v;\n' % name, 'full': name + ' v;\n'}[use]
    incs = '#include "one.h"\n#include "two.h"\n'
    if not direct:
        files['w.h'] = cxx.guard('w.h', incs)
        incs = '#include "w.h"\n'
    body = ('' if local in ('', 'after') else decl['d']) + incs + \
        ('' if local in ('', 'before') else decl['d']) + text
    files['t.cc'] = body
    declared = one or two or local
    if use and not declared or use == 'full' and 'D' not in (one, two):
        return 0
    args = xi('--no_fwd_decls') + ('-I.', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    f = rep.files['t.cc']
    got = f.fulls() if not f.correct else sorted(set(
        t for t, _ in cxx.lines_of(files['t.cc'])))
    fwd = decl['d'].strip()
    headers = ['#include "%s"' % h for h, k in (('one.h', one), ('two.h', two)) if k]
    definers = ['#include "%s"' % h for h, k in (('one.h', one), ('two.h', two))
                if k == 'D']

    def fail(what):
        raise Violation('--no_fwd_decls: ' + what, {
            'files': files, 'args': args, 'report': f.summary()})
    if fwd in f.adds():
        fail('a forward declaration is suggested')
    if not use:
        want = []
        if got != want:
            fail('unused lines stay')
        return 1
    if not headers:
        if got != [fwd]:
            fail('the only declaration does not stay')
        return 1
    lines = [g for g in got if g.startswith('#')]
    if fwd in got:
        fail('a forward declaration is relied on although a header has one')
    if use == 'full' and lines != definers:
        fail('not the definition, but %s' % lines)
    if len(lines) != 1 or lines[0] not in headers:
        fail('not one of the headers that declare it: %s' % lines)
    return 1


# ------------------------------------------------------------------ world 6

OUTPUT = ['--no_comments', '--comment_style=none', '--comment_style=short',
          '--comment_style=long', '--max_line_length=1', '--max_line_length=33',
          '--max_line_length=500', '--quoted_includes_first', '--verbose=1',
          '--verbose=2', '--verbose=3', '--verbose=6', '--update_comments',
          '--no_default_mappings', '--cxx17ns', '--error=0', '--error=9',
          '--error_always=7', '--regex=ecmascript', '--debug=statistics']


def output_bases():
    a = cxx.guard('aa.h', 'struct A { int m; };\nint fa(A&);\n#define MA 1\n')
    b = cxx.guard('bb.h', '#include "a.h"\nnamespace n { struct B { A a; }; }\n'
                  'template <class T> struct TB { T t; };\n')
    bases = []
    for uses in ('', 'A v; n::B* p;', 'TB<A> v;', 'int v = MA;', 'n::B v; A* p;',
                 'struct Loc; Loc* p; int v = fa(*(A*)0);'):
        for incs in ('"b.h"', '"a.h" "b.h"', '"w.h"', '"w.h" "b.h" "w.h"'):
            for checked in (0, 1):
                text = ''.join('#include %s\n' % i for i in incs.split()) + \
                    'struct Unused;\nnamespace n { struct B; }\n' + \
                    uses.replace('; ', ';\n') + '\n'
                files = {'a.h': a, 'b.h': b, 'w.h': '#pragma once\n#include "b.h"\n'}
                if checked:
                    files['t.h'] = '#pragma once\n' + text
                    files['t.cc'] = '#include "t.h"\n#include "w.h"\nA again;\n'
                else:
                    files['t.cc'] = text
                bases.append((files, len(incs) > 15))
    return bases


# Options are combined on the longest layouts (deep: on all).
BASES = output_bases()


def bare(rep):
    """What a report recommends."""
    res = []
    for name in rep.order:
        f = rep.files[name]
        fine = f.correct or not f.add and not f.remove
        res.append((name, None if fine else (
            f.adds(), sorted((t, a, b) for t, a, b in f.remove), f.fulls())))
    return res


def drop_why(line):
    return line.split('  //')[0].rstrip()


def output(item):
    k, opts = item
    files = BASES[k][0]
    base = ('-std=c++17', 'X', '-I.', 't.cc')
    plain = tuple(x for x in base if x != 'X')
    rc, r0, out0 = cxx.analyse(files, xi('--verbose=1') + plain)
    args = xi('--verbose=1', *opts) + plain
    if '--no_comments' in opts or '--comment_style=none' in opts:
        # The removals lose their line numbers as well.
        rc, out = box().iwyu(files, args)
        a, b = sections(out0), sections(out)
        if a != b:
            raise Violation('output options change the recommendations', {
                'files': files, 'args': args, 'without': out0, 'with': out})
        return 1
    rc, r1, out1 = cxx.analyse(files, args)
    if bare(r0) != bare(r1):
        raise Violation('output options change the recommendations', {
            'files': files, 'args': args, 'without': out0, 'with': out1})
    return 1


def sections(out):
    """{section header: lines without comments}, records without edits left out."""
    res, cur = {}, None
    lines = out.split('\n')
    for l in lines:
        if l.endswith('these lines:') or l.startswith('The full include-list'):
            cur = res.setdefault(l, [])
        elif l == '---' or l.endswith('has correct #includes/fwd-decls)'):
            cur = None
        elif cur is not None and l.strip():
            cur.append(drop_why(l))
    for l in list(res):
        if l.startswith('The full include-list for '):
            n = l[len('The full include-list for '):-1]
            heads = ['%s should %s these lines:' % (n, w) for w in ('add', 'remove')]
            if not any(res.get(h) for h in heads):
                for h in heads + [l]:
                    res.pop(h, None)
    return {k: sorted(v) for k, v in res.items()}


def main():
    c = Check(PROP)
    sets = [s for k in range(4 if DEEP else 3)
            for s in itertools.combinations(GLOBS, k)]
    items = [(g, l) for g in sets for l in ('flat', 'chain', 'none')]
    said = {}
    for item, r in zip(items, c.explore('scope', scope, items)):
        for f, s in (r or {}).items():
            old = said.setdefault((item[1], f), (item, s))
            if old[1] != s:
                c.violations.append(('scope', item, (
                    'what is said about %s depends on which files are reported'
                    % f), {'with': item, 'and': old[0], 'one': s, 'two': old[1]}))
    n = len(items)
    ks = [(g, l, x) for k in range(4 if DEEP else 3)
          for g in itertools.combinations(KEEP, k)
          for l in ('unused', 'used', 'dup', 'spelled') for x in (False, True)]
    c.explore('keep', keep, ks)
    tr = list(transitive_items())
    c.explore('transitive', transitive, tr)
    ms = [(v, k, h) for v in (False, True) for k in ('include', 'symbol')
          for h in ('file', 'pragma')]
    c.explore('mapped', mapped, ms)
    ps = list(prefix_items())
    c.explore('prefix', prefix, ps)
    ns = list(nofwd_items())
    c.explore('nofwd', nofwd, ns)
    os_ = [(b, o) for b in range(len(BASES)) for k in range(4 if DEEP else 3)
           for o in itertools.combinations(OUTPUT, k)
           if k < 2 or DEEP or BASES[b][1]]
    c.explore('output', output, os_)
    c.confirm_binding([(scope_files('flat'), ('-Xiwyu', '--check_also=*', '-I.',
                                              'p/t.cc'))])
    c.sample({'globs': items[-1][0], 'layout': items[-1][1],
              'reported': sorted(said)})
    total = n + len(ks) + len(tr) + len(ms) + len(ps) + len(ns) + len(os_)
    c.finish(states=total, transitions=total)


if __name__ == '__main__':
    main()
