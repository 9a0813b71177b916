"""C22: the command line.

World 1 (split): every interleaving of up to two compiler options (deep: three), up
to two analysis options and the source file: the compiler's options take effect as
the compiler documents (the last -D or -U of a name, the first -I with the header,
...) and so do the analysis's, wherever they stand.
World 2 (response): every way to put a part of a command line into a response file,
two parts, or one within another, x how the words are quoted and separated.
World 3 (refused): every malformed analysis option, alone or next to good ones, in
every position: status 1, a message, and no report.
World 4 (one): every set of compiler options that ask for outputs, other stages or
several sources: one report (or none for a preprocessed text), and no file written.
World 5 (language): every language and standard, against what clang itself defines.
"""
import itertools
import os
import re
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import report

PROP = 'C22'
DEEP = TIER == 'thorough'

FILES = {
    'a/h.h': cxx.guard('A_H', 'struct HA { int m; };\n#define WHICH 1\n'),
    'b/h.h': cxx.guard('B_H', 'struct HB { int m; };\n#define WHICH 2\n'),
    'one.h': cxx.guard('ONE', 'struct One { int m; };\n'),
    'two.h': cxx.guard('TWO', 'struct Two { int m; };\n'),
    'und.h': cxx.guard('UND', 'struct Und { int m; };\n'),
    'txt.h': cxx.guard('TXT', 'struct Txt { int m; };\n'),
    'new.h': cxx.guard('NEW', 'struct New { int m; };\n'),
    'pre.h': cxx.guard('PRE', '#define PRE_SEEN 1\n'),
    'seen.h': cxx.guard('SEEN', 'struct Seen { int m; };\n'),
    'w.h': '#pragma once\n' + ''.join('#include "%s.h"\n' % x for x in (
        'one', 'two', 'und', 'txt', 'new', 'seen')),
    't.cc': '''#include "w.h"
#ifndef V
Und v1;
#elif V == 1
One v1;
#elif V == 2
Two v1;
#endif
#ifdef S
Txt v2;
const char* text = S;
#endif
#if __cplusplus > 202000L
New v3;
#endif
#ifdef PRE_SEEN
Seen v4;
#endif
#if __has_include("h.h")
#include "h.h"
#if WHICH == 1
HA v5;
#else
HB v5;
#endif
#endif
''',
}

COMPILER = [('-DV=1',), ('-D', 'V=2'), ('-UV',), ('-Ia',), ('-I', 'b'),
            ('-std=c++20',), ('-std=c++17',), ('-include', 'pre.h'),
            ('-DS="x  y"',)]
ANALYSIS = [('--no_comments',), ('--check_also=*h.h',), ('--check_also', '*h.h'),
            ('--error=7',), ('-v', '1'), ('--update_comments',)]


def effects(cc):
    """What the compiler options define."""
    v, dirs, std, pre, text = None, [], 17, False, False
    for o in cc:
        o = ' '.join(o)
        if o == '-DV=1':
            v = 1
        elif o == '-D V=2':
            v = 2
        elif o == '-UV':
            v = None
        elif o == '-Ia':
            dirs.append('a')
        elif o == '-I b':
            dirs.append('b')
        elif o.startswith('-std'):
            std = int(o[-2:])
        elif o.startswith('-include'):
            pre = True
        elif o.startswith('-DS'):
            text = True
    adds = [{None: 'und', 1: 'one', 2: 'two'}[v]]
    if text:
        adds.append('txt')
    if std >= 20:
        adds.append('new')
    if pre:
        adds += ['seen', 'pre']
    return sorted('#include "%s.h"' % a for a in adds), dirs[:1]


def check_run(files, args, cc, opts):
    """Compares a run with what the options (in effective order) say."""
    rc, out = box().iwyu(files, args)
    adds, dirs = effects(cc)
    want_h = dirs[0] + '/h.h' if dirs else None
    names = [o[0].split('=')[0] for o in opts]

    def fail(what):
        raise Violation('the command line is not understood: ' + what, {
            'files': {k: files[k] for k in files if k not in FILES},
            'args': args, 'status': rc, 'output': out})
    if rc != (7 if '--error' in names else 0):
        fail('status %s' % rc)
    if 'error:' in out:
        fail('an error')
    comments = '// for' in out
    if comments == ('--no_comments' in names):
        fail('why comments')
    if '--no_comments' in names:
        out = re.sub(r'^(- .*)$', r'\1  // lines 1-1', out, flags=re.M)
    try:
        rep = report.parse(out)
    except report.Malformed as e:
        fail(str(e))
    f = rep.files.get('t.cc')
    if f is None:
        fail('no report')
    if f.adds() != adds:
        fail('compiler options: %s instead of %s' % (f.adds(), adds))
    if [t for t, _, _ in f.remove] != ['#include "w.h"']:
        fail('removals')
    here = [t for t, _ in f.full if 'h.h"' in t]
    if here != (['#include "h.h"'] if want_h else []):
        fail('include directories')
    others = [x for x in rep.order if x != 't.cc']
    checked = '--check_also' in names
    if want_h and checked != (want_h in others) or not want_h and any(
            x.endswith('/h.h') for x in others):
        fail('reports for %s' % others)
    if ('b/h.h' if want_h == 'a/h.h' else 'a/h.h') in others:
        fail('the wrong header')
    return 1


def interleavings(a, b):
    """All merges of two sequences."""
    if not a or not b:
        yield a + b
        return
    for r in interleavings(a[1:], b):
        yield (a[0],) + r
    for r in interleavings(a, b[1:]):
        yield (b[0],) + r


def sequences(xs, lo, hi):
    return [p for k in range(lo, hi + 1) for p in itertools.permutations(xs, k)]


def split_items():
    def units(cc, opts):
        seen = set()
        a = tuple(('c', o) for o in cc)
        b = tuple(('a', o) for o in opts)
        for m in interleavings(a, b):
            for i in range(len(m) + 1):
                yield m[:i] + (('s', ('t.cc',)),) + m[i:]
    for n, m in ((2, 1), (1, 2)) + (((3, 1), (2, 2)) if DEEP else ()):
        for cc in sequences(COMPILER, 0 if m == 1 else 1, n):
            for opts in sequences(ANALYSIS, 0 if n > 1 else 1, m):
                if len(opts) == 2 and opts[0][0][:8] == opts[1][0][:8]:
                    continue
                for u in units(cc, opts):
                    yield u
    for opts in sequences(ANALYSIS, 2, 2):
        for u in units((), opts):
            yield u


def flatten(units):
    args = []
    for kind, words in units:
        for w in words:
            args += ['-Xiwyu', w] if kind == 'a' else [w]
    return tuple(args)


def split(units):
    return check_run(FILES, flatten(units), [o for k, o in units if k == 'c'],
                     [o for k, o in units if k == 'a'])


# ------------------------------------------------------------------ world 2

def quote(word, style):
    if style == 'plain':
        return re.sub(r'([\s"\'\\])', r'\\\1', word)
    if style == 'double':
        return '"%s"' % re.sub(r'(["\\])', r'\\\1', word)
    if style == 'single':
        return "'%s'" % re.sub(r"(['\\])", r'\\\1', word)
    if style == 'escaped':
        return ''.join('\\' + c for c in word)
    # mixed: the first half in double, the rest in single quotes
    h = len(word) // 2
    return quote(word[:h], 'double') + quote(word[h:], 'single')


STYLES = ('plain', 'double', 'single', 'escaped', 'mixed')
SEPS = (' ', '\n', '\t', '\r\n', ' \n  ')


def response(item):
    cc, src, shape, style, sep, edge = item
    words = [w for o in cc[:src] for w in o] + ['t.cc'] + \
        [w for o in cc[src:] for w in o]
    files = dict(FILES)

    def put(name, ws):
        body = sep.join(w if w.startswith('@') else quote(w, style) for w in ws)
        files[name] = {'': body, 'both': sep + body + sep, 'end': body + '\n'}[edge]
        return '@' + name
    kind, i, j = shape
    if kind == 'one':
        args = words[:i] + [put('r1', words[i:j])] + words[j:]
    elif kind == 'two':
        args = [put('r1', words[:i])] + words[i:j] + [put('r2', words[j:])]
    else:   # nested
        inner = put('r2', words[i:j])
        args = [put('r1', words[:i] + [inner] + words[j:])]
    return check_run(files, tuple(['-Xiwyu', '--verbose=1'] + args), cc, [])


def response_items():
    for cc in sequences(COMPILER, 1, 3 if DEEP else 2):
        if len(cc) == 2 and not DEEP and set(cc) not in (
                {COMPILER[0], COMPILER[1]}, {COMPILER[4], COMPILER[8]}):
            continue
        for src in range(len(cc) + 1):
            total = sum(len(o) for o in cc) + 1
            shapes = [(k, i, j) for i in range(total + 1)
                      for j in range(i, total + 1) for k in ('one', 'two', 'nested')]
            for shape in shapes:
                for style in STYLES:
                    yield cc, src, shape, style, ' ', ''
    for cc in ((COMPILER[8],), (COMPILER[1], COMPILER[0])):
        for shape in (('one', 0, 2), ('two', 1, 1), ('nested', 0, 1),
                      ('nested', 1, 2), ('one', 0, 1)):
            for style in STYLES:
                for sep in SEPS:
                    for edge in ('', 'both', 'end'):
                        yield cc, 1, shape, style, sep, edge


def odd_response(item):
    """Response files that are missing, empty, cyclic or cut short."""
    files, args, want = item
    files = dict(FILES, **files)
    rc, out = box().iwyu(files, args)
    if rc is None or rc < 0:
        raise Violation('the command line: %s' % (
            'the analysis dies' if rc else 'the analysis does not end'), {
                'files': item[0], 'args': args, 'output': out[-2000:]})
    if want is None:
        if 'error:' not in out:
            raise Violation('the command line: a bad response file is ignored', {
                'files': item[0], 'args': args, 'output': out[-2000:]})
        return 1
    return check_run(files, args, want, [])


ODD = [
    ({}, ('@none', 't.cc'), None),
    ({'r': '@none'}, ('@r', 't.cc'), None),
    ({'r': ''}, ('@r', 't.cc'), ()),
    ({'r': ' \n'}, ('@r', 't.cc'), ()),
    ({'r': '@r'}, ('@r', 't.cc'), None),
    ({'r': '@./r'}, ('@r', 't.cc'), None),
    ({'r': '@q', 'q': '@r'}, ('@r', 't.cc'), None),
    ({'r': '-DV=1 @q', 'q': '-DV=2 @r'}, ('@r', 't.cc'), None),
    ({'r': '-DV=1'}, ('@r', '@r', 't.cc'), (COMPILER[0],)),
    ({'r': '@q @q', 'q': '-DV=1'}, ('@r', '@r', 't.cc'), (COMPILER[0],)),
    ({'r': '-DV=1\\'}, ('@r', 't.cc'), (COMPILER[0],)),
    ({'r': '-DV=1 \\'}, ('@r', 't.cc'), (COMPILER[0],)),
    ({'r': '"-DV=1'}, ('@r', 't.cc'), (COMPILER[0],)),
    ({'r': "'-DV=1"}, ('@r', 't.cc'), (COMPILER[0],)),
    ({'r': '"-DV=1\\'}, ('@r', 't.cc'), (COMPILER[0],)),
]
# The end of a file may fall on the end of a page.
ODD += [({'r': ' ' * (4096 * k - 6) + '-DV=1' + e}, ('@r', 't.cc'),
         (COMPILER[0],)) for k in (1, 4, 8) for e in ('\\', '\n', ' ')]


# ------------------------------------------------------------------ world 3

BAD = [('--nonsense',), ('--nonsense=3',), ('--comment_style=loud',),
       ('--comment_style=',), ('--comment_style', 'loud'),
       ('--prefix_header_includes=maybe',), ('--prefix_header_includes=',),
       ('--error=abc',), ('--error=',), ('--error=1x',), ('--error=99999999999',),
       ('--error_always=abc',), ('--error_always=1.5',), ('--regex=perl',),
       ('--regex=',), ('--max_line_length=0',), ('--max_line_length=-1',),
       ('--max_line_length=abc',), ('--max_line_length=',),
       ('--max_line_length=80x',), ('--verbose=abc',), ('--verbose=',),
       ('--verbose=3x',), ('-v', 'x'), ('-vx',), ('-z',), ('-nz',), ('junk',),
       ('verbose=3',), ('--no_comments=1',), ('--update_comments=yes',), ('-r', 'x'),
       ('--transitive_includes_only=1',), ('--pch_in_code=x',), ('t.cc',),
       ('--no_fwd_decls=1',), ('-x',)]
# Options that lack their argument when nothing follows.
LACKING = ['--check_also', '--keep', '--mapping_file', '--verbose',
           '--comment_style', '--prefix_header_includes', '--max_line_length',
           '--regex', '--debug', '--experimental', '-v', '-c', '-m', '-d', '-r']
GOOD = [(), ('--no_comments',), ('--verbose=1',), ('--check_also=*.h',)]


def refused(args):
    rc, out = box().iwyu(FILES, args)
    if rc is None or rc < 0 or rc == 0 or 'FATAL ERROR' not in out or \
            't.cc should' in out or 't.cc has' in out:
        raise Violation('a malformed analysis option is not refused', {
            'args': args, 'status': rc, 'output': out[-2000:]})
    return 1


def refused_items():
    for bad in BAD:
        b = [('a', bad)]
        for good in GOOD:
            g = [('a', good)] if good else []
            for units in (b + g, g + b):
                for i in range(len(units) + 1):
                    yield flatten(units[:i] + [('s', ('t.cc',))] + units[i:])
    for l in LACKING:
        for good in GOOD:
            g = [('a', good)] if good else []
            for pos in range(len(g) + 2):
                u = g + [('a', (l,))]
                yield flatten(u[:pos] + [('s', ('t.cc',))] + u[pos:])
    for pre in ((), ('-DV=1',), ('-Xiwyu', '--no_comments')):
        yield pre + ('t.cc', '-Xiwyu')


# ------------------------------------------------------------------ world 4

OUTPUTS = [('-c',), ('-o', 'out.o'), ('-S',), ('-emit-llvm',), ('-save-temps',),
           ('-save-temps=obj',), ('--save-temps',), ('-O2',), ('-g',),
           ('-lm',), ('-L.',), ('-Wl,-x',), ('u.cc',), ('x.o',), ('-fsyntax-only',),
           ('-pipe',), ('-v',), ('-Werror',), ('-fPIC',), ('-shared',),
           ('-flto',), ('-gsplit-dwarf',), ('-Wall',), ('-ftime-trace',),
           ('-fsave-optimization-record',)]


def one(item):
    opts, first, dash = item
    files = {'t.cc': '#include "a.h"\n', 'u.cc': '#include "a.h"\n#include "b.h"\n',
             'a.h': '#pragma once\n', 'b.h': '#pragma once\n', 'x.o': ''}
    words = [w for o in opts for w in o]
    args = tuple((['t.cc'] + words) if first else
                 (words + (['--'] if dash else []) + ['t.cc']))
    rc, out = box().iwyu(files, args)
    left = set()
    for d, _, fs in os.walk(box().dir):
        left.update(os.path.relpath(os.path.join(d, f), box().dir) for f in fs)
    srcs = [a for a in args if a.endswith('.cc')]

    def fail(what):
        raise Violation('not exactly one analysis: ' + what, {
            'args': args, 'status': rc, 'output': out[-3000:]})
    if rc != 0:
        fail('status %s' % rc)
    n = len(re.findall(r'^The full include-list for ', out, re.M))
    want = srcs[0]
    if n != 1 or 'The full include-list for %s:' % want not in out:
        fail('%d reports, expected one for %s' % (n, want))
    extra = left - set(files)
    if extra:
        fail('files are written: %s' % sorted(extra))
    return 1


def one_items():
    for k in range(4 if DEEP else 3):
        for opts in itertools.combinations(OUTPUTS, k):
            for first, dash in ((True, False), (False, False), (False, True)):
                yield opts, first, dash


PREPROCESS = [('-E',), ('-E', '-P'), ('-E', '-dM'), ('-E', '-o', '-')]


def preprocess(item):
    opts, v = item
    files = {'t.cc': '#include "a.h"\nint i = V;\n', 'a.h': 'struct A;\n'}
    rc, out = box().iwyu(files, opts + ('-DV=%d' % v, 't.cc'))
    if rc != 0 or 'should' in out or 'has correct' in out or (
            '-dM' not in opts and 'int i = %d;' % v not in out) or (
            '-dM' in opts and '#define V %d' % v not in out):
        raise Violation('a preprocessing run is not one', {
            'args': opts, 'status': rc, 'output': out[-2000:]})
    return 1


# ------------------------------------------------------------------ world 5

CLANG = next((c for c in ('/usr/lib/llvm-20/bin/clang', '/usr/bin/clang')
              if os.path.exists(c)), None)
LANGS = [('', 't.cc'), ('', 't.c'), ('', 't.h'), ('', 't.hpp'), ('', 't.cpp'),
         ('-xc', 't.cc'), ('-xc++', 't.c'), ('-xc-header', 't.h'),
         ('-xc++-header', 't.h'), ('-xc++', 't.txt'), ('-xc', 't.txt')]
STDS = ['', '-std=c89', '-std=c99', '-std=c11', '-std=c17', '-std=gnu11',
        '-std=c++98', '-std=c++11', '-std=c++14', '-std=c++17', '-std=c++20',
        '-std=c++23', '-std=gnu++17', '-ansi']
MORE = ['', '-m32', '-fno-exceptions', '-fno-rtti', '-O2', '-pthread',
        '-funsigned-char', '-undef', '-ffast-math', '-fopenmp',
        '-target aarch64-linux-gnu']
TESTS = ['__cplusplus', '__STDC_VERSION__', '__cpp_exceptions', '__GXX_RTTI',
         '__OPTIMIZE__', '_REENTRANT', '__CHAR_UNSIGNED__', '__i386__',
         '__aarch64__', '__STRICT_ANSI__', '__FAST_MATH__', '_OPENMP', '__linux__',
         '__cpp_concepts', '__cpp_lib_x']


def language(item):
    lang, name, std, more = item
    files = {'m%d.h' % i: '#pragma once\n#define M%d\n' % i
             for i in range(len(TESTS))}
    files['all.h'] = '#pragma once\n' + ''.join(
        '#include "m%d.h"\n' % i for i in range(len(TESTS)))
    vals = 'long v_%d = 0L + %s;\n'
    files[name] = '#include "all.h"\n' + ''.join(
        '#ifdef %s\n#ifdef M%d\n#endif\n#endif\n' % (t, i)
        for i, t in enumerate(TESTS))
    opts = [w for w in (lang, std) if w] + more.split()
    # In the compiler: which of the macros are there.
    box().put(files)
    p = subprocess.run([CLANG] + opts + ['-E', '-dM', name], cwd=box().dir,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        return 0
    have = set(re.findall(r'^#define (\w+)', p.stdout, re.M))
    want = ['#include "m%d.h"' % i for i, t in enumerate(TESTS) if t in have]
    rc, out = box().iwyu(files, tuple(opts + [name]))
    rep = report.parse(out)
    f = rep.files.get(name)
    if rc != 0 or f is None or f.adds() != sorted(want):
        raise Violation('the language is not that of the compiler', {
            'args': opts + [name], 'wanted': sorted(want), 'status': rc,
            'output': out[-2000:]})
    return len(want)


def confirm(cc_lists):
    """The model of the compiler's options against clang itself."""
    import tempfile
    n = 0
    top = tempfile.mkdtemp()
    try:
        for f, text in FILES.items():
            p = os.path.join(top, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(text)
        for cc in cc_lists:
            p = subprocess.run([CLANG] + [w for o in cc for w in o] +
                               ['-E', 't.cc'], cwd=top, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            used = set(re.findall(r'^(\w+) v\d;', p.stdout, re.M))
            adds, dirs = effects(cc)
            want = {a[10:-3].capitalize() for a in adds if 'pre' not in a} | {
                'H' + d.upper() for d in dirs}
            if used != want:
                print('the model of the compiler is wrong for', cc, used, want)
                sys.exit(5)
            n += 1
    finally:
        shutil.rmtree(top)
    return n


def main():
    c = Check(PROP)
    n = confirm(sequences(COMPILER, 0, 2)) if CLANG else 0
    a = list(split_items())
    c.explore('split', split, a)
    b = list(response_items())
    c.explore('response', response, b)
    c.explore('odd response', odd_response, ODD)
    r = list(refused_items())
    c.explore('refused', refused, r)
    o = list(one_items())
    c.explore('one', one, o)
    e = [(p, v) for p in PREPROCESS for v in (1, 2)]
    c.explore('preprocess', preprocess, e)
    l = []
    if CLANG:
        l = [(x, f, s, m) for x, f in LANGS for s in STDS for m in MORE
             if DEEP or not s or not m or s in ('-std=c11', '-std=c++17')]
        c.explore('language', language, l)
    c.confirm_binding([(FILES, flatten(u)) for u in (a[0], a[-1])])
    c.sample({'args': flatten(a[-1])})
    total = len(a) + len(b) + len(ODD) + len(r) + len(o) + len(e) + len(l)
    c.finish(states=total, transitions=total, compiler_model_confirmations=n)


if __name__ == '__main__':
    main()
