"""C20: what cannot matter does not matter.

For every program of the world, every change of a closed list that leaves the uses
and the lines in question alone is made, at every place it can be made, and the
report has to be the old one, moved, renamed or reordered along with the program.

World 1: every family of lib/snippets.py with every variant, in several places,
under every insertion at every line, every spelling of an include line, every
renaming of symbols and of files, every order of the include lines, every wrapping
of the uses, every neutral flag and every working directory.
World 2: two families, their uses and their includes in every order.
World 3 (layouts): programs full of ties between headers, analysed with memory that
grows upwards, downwards and both ways by turns: the same bytes.
"""
import itertools
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import report
import snippets

PROP = 'C20'
STD = '-std=c++17'
ERROR = re.compile(r'(^|\s)(fatal )?error: ')
deep = TIER == 'thorough'

# --- programs --------------------------------------------------------------------


def base(item):
    """(files, the line numbers of t.cc or t.h where the uses start)."""
    picks, lines, place = item
    files, user = {}, ''
    for n, (name, variant) in enumerate(picks):
        hs, u = snippets.family(name, n, variant)
        files.update(hs)
        user += u
    every = ''.join('#include "%s"\n' % h for h in sorted(files))
    files['x.h'] = cxx.guard('x.h', every)
    inc = ''.join('#include "%s"\n' % l if l.endswith('.h') else l + '\n'
                  for l in lines)
    if place == 'source':
        files['t.cc'] = inc + user
    elif place == 'header':
        files['t.h'] = cxx.guard('t.h', inc + user)
        files['t.cc'] = '#include "t.h"\n'
    elif place == 'beside':
        files['t.h'] = cxx.guard('t.h', inc)
        files['t.cc'] = '#include "t.h"\n' + user
    return files, user


# --- reports as sets ---------------------------------------------------------------


def image(rep, text=lambda t: t, name=lambda n: n, line=lambda n, l: l,
          symbol=lambda s: s, reasons=True):
    """A report as a set of records, renamed."""
    def why(n, comment):
        m = re.match(r'// lines (\d+)-(\d+)$', comment)
        if m:
            return line(n, int(m.group(1))), line(n, int(m.group(2)))
        m = re.match(r'// for (.*)$', comment)
        if not m:
            return comment
        return frozenset(symbol(s) for s in m.group(1).split(', '))
    res = {}
    for n in rep.order:
        f = rep.files[n]
        res[name(n)] = (
            f.correct,
            frozenset((text(t), why(n, c) if reasons else 0) for t, c in f.add),
            frozenset((text(t), line(n, a), line(n, b)) for t, a, b in f.remove),
            frozenset((text(t), why(n, c) if reasons else 0) for t, c in f.full))
    return res


def read(files, args, cwd='', env=()):
    rc, out = box().iwyu(files, args, cwd, env)
    if rc is None or rc < 0:
        raise Violation('the analysis %s' % ('does not end' if rc is None else
                                             'dies with signal %d' % -rc),
                        {'files': files, 'args': args, 'output': out})
    if ERROR.search(out):
        return rc, None, out
    try:
        return rc, report.parse(out), out
    except report.Malformed as e:
        raise Violation('the report is malformed: %s' % e,
                        {'files': files, 'args': args, 'output': out})


def same(what, a, b, files, changed, out, out2):
    if a != b:
        raise Violation('%s: the report does not follow' % what,
                        {'files': files, 'changed': {
                            n: t for n, t in changed.items()
                            if files.get(n) != t},
                         'report': out, 'report after': out2})


# --- changes of the text ------------------------------------------------------------

INSERTED = [
    ('comment', '// pad'),
    ('declaration', 'extern int pad_x;'),
    ('macro', '#define PAD_M'),
    ('blank', ''),
    ('block comment', '/* #include "p0.h"\n   struct C0;\n*/'),
    ('function', 'void pad_f();'),
    ('typedef', 'typedef int pad_t;'),
    ('namespace', 'namespace pad { }'),
    ('conditional', '#ifdef PAD_N\n#include "p0.h"\nstruct C0;\n#endif'),
    ('always', '#if 1\n#endif'),
    ('assertion', 'static_assert(1, "#include");'),
    ('semicolon', ';'),
    ('linkage', 'extern "C" { }'),
    ('pragma', '#pragma GCC diagnostic push'),
    ('attribute', '[[maybe_unused]] extern int pad_y;'),
]
SPELLED = [
    ('spaces', lambda l: l.replace('#include', ' #  include ')),
    ('tight', lambda l: l.replace('#include ', '#include')),
    ('tab', lambda l: l.replace('#include ', '#\tinclude\t')),
    ('line comment', lambda l: l + '  // for things'),
    ('block comment', lambda l: l + ' /* for things */'),
    ('comment inside', lambda l: l.replace('#include ', '#include /* a */ ')),
    ('trailing space', lambda l: l + '  '),
]
FLAGS = ['-Wall', '-O2', '-g', '-DPAD=1', '-fPIC', '-DNDEBUG', '-w', '-Wextra',
         '-ferror-limit=0', '-pthread', '-c', '-fcolor-diagnostics',
         '-Wno-everything', '-fno-elide-constructors', '-Inowhere',
         '-isystem/nowhere', '-fms-extensions', '-fshort-enums', '-ftrapv',
         '-fno-strict-aliasing', '-iquotenowhere', '-UPAD_U', '-march=native',
         '-fvisibility=hidden', '-funsigned-char', '-fno-common']
FOLDERS = ['with space', 'internal', 'include', 'c++/v1', 'usr/include', 'bits',
           't.cc.d', 'a/b/c/d/e', 'private', 'third_party', 'x.h.d']
WRAPPED = [
    ('namespace', 'namespace pad {\n%s}\n'),
    ('linkage', 'extern "C++" {\n%s}\n'),
    ('conditional', '#if 1\n%s#endif\n'),
    ('alternative', '#ifdef PAD_N\n#include "p0.h"\n#else\n%s#endif\n'),
    ('inline namespace', 'namespace pad { inline namespace v1 {\n%s} }\n'),
]


def shift(files, where, at, n):
    """line map: n lines go in before line `at` of `where`."""
    return lambda name, l: l + n if name == where and l >= at else l


def letters(s, by=lambda c: chr(ord('z') - ord(c) + ord('a'))):
    """Another name for every symbol of the families."""
    def one(m):
        c = m.group(1)
        return (by(c) if c.islower() else by(c.lower()).upper()) + m.group(2)
    return re.sub(r'\b([A-Za-z])([0-9])\b(?!\.h)', one, s)


FILES = [
    ('reversed', {'p0.h': 'z.h', 'q0.h': 'g.h', 'x.h': 'b.h'}),
    ('long', {'p0.h': 'a_b-c.d.h', 'q0.h': 'B.h', 'x.h': '0.h'}),
    ('folders', {'p0.h': 'y/p.h', 'q0.h': 'w/v/q.h', 'x.h': 'x/x.h'}),
    ('one folder', {'p0.h': 'y/p.h', 'q0.h': 'y/q.h', 'x.h': 'y/x.h'}),
    ('suffixes', {'p0.h': 'p.hpp', 'q0.h': 'q.hh', 'x.h': 'x.hxx'}),
    ('main', {'t.cc': 'main.cpp', 't.h': 'main.h'}),
    ('main reversed', {'t.cc': 'z.cxx', 't.h': 'z.h', 'p0.h': 'y.h', 'q0.h': 'a.h',
                       'x.h': 'k.h'}),
    ('main long', {'t.cc': 'T-t_t.C', 't.h': 'T-t_t.h'}),
]


def moved_text(text, names):
    return re.sub(r'"([^"]+)"', lambda m: '"%s"' % names.get(m.group(1), m.group(1)),
                  text)


def one_family(item):
    files, user = base(item)
    args = (STD, '-I.', 't.cc')
    rc, rep, out = read(files, args)
    if rep is None:
        return 0
    cxx.algebra(files, rep, args)
    plain = image(rep)
    runs = 0

    def check(what, new, expected, newargs=args, reasons=True, **how):
        nonlocal runs
        rc2, rep2, out2 = read(new, newargs)
        runs += 1
        if rep2 is None:
            raise Violation('%s: no longer compiles' % what,
                            {'files': files, 'changed': new, 'output': out2})
        same(what, expected, image(rep2, reasons=reasons), files, new, out, out2)
        if rc != rc2:
            raise Violation('%s: exit status %s instead of %s' % (what, rc2, rc),
                            {'files': files, 'changed': new})

    # Insertions: at every line of every file, or of the analysed ones; and at all
    # lines of all files at once.
    for name, text in sorted(files.items()):
        if not deep and name not in ('t.cc', 't.h'):
            continue
        ls = text.split('\n')
        for at in range(1, len(ls) + 1):
            for what, pad in INSERTED if deep else INSERTED[:1]:
                new = dict(files)
                padded = ls[:at - 1] + pad.split('\n') + ls[at - 1:]
                new[name] = '\n'.join(padded)
                check('%s at %s:%d' % (what, name, at), new,
                      image(rep, line=shift(files, name, at,
                                            pad.count('\n') + 1)))
    for what, pad in INSERTED:
        k = pad.count('\n') + 1
        new = {n: ''.join(pad + '\n' + l + '\n' for l in t.split('\n')[:-1])
               for n, t in files.items()}
        check(what + ' everywhere', new,
              image(rep, line=lambda n, l, k=k: l * (k + 1)))
    # Spellings of the include lines, of all files and of each line alone.
    for what, f in SPELLED:
        new = {n: ''.join(f(l) + '\n' if l.startswith('#include') else l + '\n'
                          for l in t.split('\n')[:-1]) for n, t in files.items()}
        check(what, new, plain)
    for what, new in (
            ('CRLF', {n: t.replace('\n', '\r\n') for n, t in files.items()}),
            ('no last newline', {n: t[:-1] for n, t in files.items()}),
            ('byte order mark', {n: '\ufeff' + t for n, t in files.items()}),
            ('indented', {n: re.sub('(?m)^(?=[^#\n])', '   ', t)
                          for n, t in files.items()})):
        check(what, new, plain)
    # Names.
    new = {n: letters(t) for n, t in files.items()}
    check('other symbols', new, image(rep, text=letters, symbol=letters))
    for what, names in FILES if deep else FILES[1:3] + FILES[6:]:
        new = {names.get(n, n): moved_text(t, names) for n, t in files.items()}
        check('files: ' + what, new,
              image(rep, text=lambda t: moved_text(t, names),
                    name=lambda n: names.get(n, n)),
              newargs=args[:-1] + (names.get('t.cc', 't.cc'),))
    # Wrapped uses.
    where = 't.h' if item[2] == 'header' else 't.cc'
    if 'template <> ' not in user and not re.search(r'^(extern )?template ', user):
        for what, frame in WRAPPED:
            new = dict(files)
            new[where] = files[where].replace(user, frame % user)
            check('uses in a ' + what, new, image(rep, reasons=False),
                  reasons=False)
    # Flags.
    for flags in ([(f,) for f in FLAGS] if deep else
                  (FLAGS[::2], FLAGS[1::2])):
        try:
            check(flags, files, plain, newargs=args[:-1] + tuple(flags) +
                  ('t.cc',))
        except Violation as v:
            if 'no longer compiles' not in v.what or not deep:
                raise
            # Not a neutral flag for this program.
    # Working directories, relative and absolute.
    for folder in FOLDERS if deep else FOLDERS[:3]:
        there = {folder + '/' + n: t for n, t in files.items()}
        rc2, out2 = box().iwyu(there, args, folder)
        runs += 1
        if (rc2, out2) != (rc, out):
            raise Violation('in the folder %s: another report' % folder,
                            {'files': files, 'report': out, 'there': out2})
    return runs


def orders(item):
    """Two families: every order of the include lines and of the uses."""
    picks, lines, place = item
    files, user = base(item)
    args = (STD, '-I.', 't.cc')
    rc, rep, out = read(files, args)
    if rep is None:
        return 0
    cxx.algebra(files, rep, args)
    where = 't.cc' if place == 'source' else 't.h'
    first = files[where].split('\n').index('#include "%s"' % lines[0]) + 1
    uses = [snippets.family(name, n, v)[1] for n, (name, v) in enumerate(picks)]
    runs = 0
    for perm in itertools.permutations(range(len(lines))):
        for us in (uses, uses[::-1]):
            new = dict(files)
            new[where] = files[where].replace(
                ''.join('#include "%s"\n' % l for l in lines) + user,
                ''.join('#include "%s"\n' % lines[i] for i in perm) + ''.join(us))
            if new == files:
                continue
            rc2, rep2, out2 = read(new, args)
            runs += 1
            if rep2 is None:
                continue
            same('lines in order %s, uses %s' % (perm, us), image(
                rep, line=lambda n, l: first + perm.index(l - first)
                if n == where and first <= l < first + len(perm) else l),
                image(rep2), files, new, out, out2)
            if rc != rc2:
                raise Violation('another exit status', {'files': new})
    return runs


# --- layouts of memory -----------------------------------------------------------

FILL = 'enum { %s };\n'
MODES = ('up', 'down', 'fan')
SHIM = None


def fill(n):
    """Enough declarations to have what follows in another block of memory."""
    return FILL % ', '.join('fill%s_%d' % (n, i) for i in range(90))


def layouts(item):
    files, args = item
    files = {n: (t if n.endswith(('.cc', '.imp')) else
                 fill(re.sub(r'\W', '_', n)) + t) for n, t in files.items()}
    seen = None
    for mode in (None,) + MODES:
        env = (() if mode is None else
               (('LAYOUT', mode), ('LD_PRELOAD', SHIM)))
        rc, rep, out = read(files, args, env=env)
        if seen is None:
            if rep is None:
                return 0
            seen = (rc, out)
        elif seen != (rc, out):
            raise Violation('memory laid out %s: another report' % mode,
                            {'files': files, 'args': args, 'report': seen,
                             'then': (rc, out)})
    return len(MODES)


def tied():
    """Programs in which several headers are equally good."""
    hs = ['a.h', 'b.h', 'c.h']
    kinds = {
        'class': ('struct S;', 'S* t(S* s) { return s; }'),
        'function': ('void S();', 'void t() { S(); }'),
        'typedef': ('typedef int S;', 'S t;'),
        'macro': ('#define S 1', 'int t = S;'),
        'variable': ('extern int S;', 'int t() { return S; }'),
        'template': ('template <class> struct S;', 'S<int>* t(S<int>* s) '
                     '{ return s; }'),
        'namespace': ('namespace S { struct %c; }', 'using namespace S;'),
        'template function': ('template <class T> void S(T);',
                              'void t() { S(1); }'),
        'overloads': ('void S(%c*);', 'template <class T> void t(T* x) { S(x); }'),
        'using': ('namespace n { struct N; } using n::N;', 'N* t(N* s) '
                  '{ return s; }'),
        'alias': ('namespace n { } namespace S = n;', 'using namespace S;'),
    }
    opts = [(), ('-Xiwyu', '--no_fwd_decls'), ('-Xiwyu', '--transitive_includes_only'),
            ('-Xiwyu', '--cxx17ns')]
    for kind, (decl, use) in sorted(kinds.items()):
        bodies = {h: decl.replace('%c', 'K' + h[0]) + '\n' for h in hs}
        pre = ''.join('struct K%s;\n' % h[0] for h in hs) if '(%c' in decl else ''
        for pragma in ('', '// IWYU pragma: private\n'):
            files = {h: cxx.guard(h, pre + pragma + bodies[h]) for h in hs}
            files['all.h'] = cxx.guard('all.h', ''.join(
                '#include "%s"\n' % h for h in hs))
            for present in [p for p in cxx.subsets(hs + ['all.h'])] + \
                    [('c.h', 'b.h', 'a.h')]:
                inc = ''.join('#include "%s"\n' % p for p in present)
                for opt in opts if deep or not pragma else opts[:1]:
                    yield dict(files, **{'t.cc': inc + use + '\n'}), \
                        ('-I.', STD) + opt + ('t.cc',)
                    yield dict(files, **{'t.h': cxx.guard('t.h', inc),
                                         't.cc': '#include "t.h"\n' + use + '\n'}
                               ), ('-I.', STD) + opt + ('t.cc',)
    # Exporters of one header, all of them public, and mapped ones.
    priv = cxx.guard('s.h', '%sstruct S { int m; };\n')
    for how in ('export', 'private', 'mapping', 'pattern'):
        s = priv % ('// IWYU pragma: private\n' if how == 'private' else '')
        exporting = ' // IWYU pragma: export' if how in ('export',
                                                         'private') else ''
        files = {h: cxx.guard(h, '#include "s.h"%s\n' % exporting) for h in hs}
        files['s.h'] = s
        files['all.h'] = cxx.guard('all.h', ''.join(
            '#include "%s"%s\n' % (h, exporting) for h in hs))
        files['m.imp'] = '[\n%s]\n' % ',\n'.join(
            '{ "include": ["%s", "private", "\\"%s\\"", "public"] }' %
            ('\\"s.h\\"' if how == 'mapping' else '@\\"s[.]h\\"', h)
            for h in hs) + '\n'
        extra = ('-Xiwyu', '--mapping_file=m.imp') if how in ('mapping', 'pattern') \
            else ()
        for present in cxx.subsets(hs + ['all.h', 's.h']):
            inc = ''.join('#include "%s"\n' % p for p in present)
            yield dict(files, **{'t.cc': inc + 'S t;\n'}), \
                ('-I.',) + extra + ('t.cc',)
            yield dict(files, **{'t.h': cxx.guard('t.h', inc),
                                 't.cc': '#include "t.h"\nS t;\n'}), \
                ('-I.',) + extra + ('t.cc',)
    # Several associated headers and several analysed headers.
    words = ['t.h', 't-inl.h', 'v.h', 'w.h']
    for present in cxx.subsets(words):
        for inside in itertools.product((0, 1, 2), repeat=len(present)):
            files = {'s.h': cxx.guard('s.h', 'struct S { int m; };\n'),
                     'r.h': cxx.guard('r.h', '#include "s.h"\n')}
            for h, k in zip(present, inside):
                files[h] = cxx.guard(h, ['struct %s;\n', '#include "s.h"\n'
                                         'struct %s { S s; };\n',
                                         '#include "r.h"\nstruct %s { S* s; };\n'
                                         'struct S;\n'][k] %
                                     h.replace('-', '_')[:-2].upper())
            files['t.cc'] = ''.join('#include "%s"%s\n' % (
                h, ' // IWYU pragma: associated' if h in ('v.h', 'w.h') else '')
                for h in present) + ('S t;\n' if any(inside) else
                                     '#include "s.h"\nS t;\n')
            yield files, ('-I.', 't.cc')
            yield files, ('-I.', '-Xiwyu', '--check_also=*.h', 't.cc')


def main():
    global SHIM
    so = os.path.join(scratch_root(), 'layout.so')
    subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', so,
                    VERIF + '/lib/layout.c'], check=True)
    SHIM = so
    c = Check(PROP)
    variants = [(n, v) for n in snippets.SNIPPETS
                for v in range(len(snippets.SNIPPETS[n][1]))]
    sets = [('struct C0;', 'q0.h', 'x.h')]
    if deep:
        sets += [('x.h',), ('p0.h', 'q0.h'), ('q0.h', 'p0.h', 'x.h'), ('struct C0;', 'p0.h')]
    items = [((nv,), s, place) for nv in variants for s in sets
             for place in ('source', 'header', 'beside')]
    r1 = c.explore('one family', one_family, items, chunk=2)
    r2 = c.explore('orders', orders, [
        ((a, b), s, place)
        for i, a in enumerate(variants) for b in variants[i + 1:i + 2 + 9 * deep]
        for s in [('x.h', 'p0.h', 'q1.h')] + [('q0.h', 'p0.h', 'q1.h', 'p1.h')] * deep
        for place in ('source', 'header')], chunk=4)
    ties = list(tied())
    r3 = c.explore('layouts: ties', layouts, ties)
    r4 = c.explore('layouts: families', layouts, [
        (base(i)[0], (STD, '-I.', 't.cc')) for i in items])
    runs = sum(r or 0 for r in r1 + r2 + r3 + r4)
    c.confirm_binding([(base(i)[0], (STD, '-I.', 't.cc')) for i in items[::67]])
    c.sample({'family': items[40][0], 'lines': items[40][1], 'place': items[40][2]})
    c.sample({'files': ties[5][0], 'args': ties[5][1]})
    progs = len([r for r in r1 + r2 + r3 + r4 if r])
    c.finish(states=progs + runs, transitions=runs, programs=progs)


if __name__ == '__main__':
    main()
