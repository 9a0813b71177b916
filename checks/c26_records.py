"""C26: reports are read completely and only the selected files are changed.

Spaces, all enumerated completely:
  records    every sequence of up to three records for two files over a
             vocabulary of additions and removals, 'correct' records and
             malformed records, with and without other text around them;
  selection  every combination of record spelling, working directory, base
             directory, file arguments, --only_re and --ignore_re.
The reference model merges the records into at most one edit per file (union of
additions, intersection of removals, malformed records dropped) and says which
files are selected.  What one record does to one file is C24's subject: here the
script's own result for the one merged record is the yardstick.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import fixer

PROP = 'C26'
TEXT = {
    'a.cc': '// a\n\n#include "p.h"\n#include "q.h"  // old\n#include <v>\n\n'
            'class F;\nnamespace n {\nclass G;\n}\n\nint x;\n',
    'sub/b.h': '#ifndef B_\n#define B_\n#include "p.h"\n#include "q.h"  // old\n'
               '#include <v>\n\nclass F;\nnamespace n {\nclass G;\n}\nint y;\n'
               '#endif\n',
    'sub/a.cc': '#include "z.h"\n#include "q.h"\n#include <v>\nclass F;\nint z;\n',
    'c.cc': '#include "p.h"\nint c;\n',
}
MOVABLE = {'#include "p.h"': '#include "p.h"', '#include "q.h"': '#include "q.h"',
           '#include <v>': '#include <v>', 'class F;': 'class F;',
           'class G;': 'namespace n { class G; }', '#include "z.h"': '#include "z.h"'}


def movables(name):
    res = []
    for i, l in enumerate(TEXT[name].split('\n')):
        k = l.split('  //')[0]
        if k in MOVABLE:
            res.append((MOVABLE[k], i + 1))
    return res


ADDS = ['#include "m.h"  // for M', '#include <w>', 'class N;',
        'template <typename T> class Q;', 'namespace n { class H; }']
NOISE = ['', 'a.cc:3:10: warning: something should add these lines: or not\n',
         'clang: note: (not correct #includes/fwd-decls)\n\n']


def record(file, spelling, add, rem, bad=None, reason=''):
    """The text of one record; bad names a way to spoil it."""
    mov = movables(file)
    adds = [ADDS[i] + reason for i in add]
    removes = [(mov[i][0], mov[i][1], mov[i][1]) for i in rem]
    keeps = [t + '  // for K' + reason for j, (t, _) in enumerate(mov)
             if j not in rem and t.startswith('#')]
    fwds = [(t, n, n) for j, (t, n) in enumerate(mov)
            if j not in rem and not t.startswith('#')]
    t = fixer.record(spelling, adds, removes, keeps, fwds)
    if bad == 'truncated':
        t = t[:t.rindex('---')]
    elif bad == 'nolines':
        t = re.sub(r'  // lines \d+-\d+', '', t)
    elif bad == 'order':
        a, b = t.split('\n' + spelling + ' should remove', 1)
        t = '\n' + spelling + ' should remove' + b
    elif bad == 'name':
        t = t.replace('The full include-list for ' + spelling,
                      'The full include-list for other.cc')
    return t


def put_files(d):
    os.makedirs(os.path.join(d, 'sub', 'sub'), exist_ok=True)
    for n, text in TEXT.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)


def read_files(d):
    res = {}
    for n in TEXT:
        with open(os.path.join(d, n)) as f:
            res[n] = f.read()
    return res


def run(d, report, args, cwd=None):
    put_files(d)
    rc, out, crash = fixer.call(args, report, cwd or d)
    got = read_files(d)
    if crash or rc != 0:
        raise Violation('fix_includes.py failed: %s' % (crash or rc),
                        {'args': args, 'report': report, 'output': out})
    return got, out


_single = {}


def merged_result(d, file, adds, rems, opts, last):
    """The script's result for one record with these edits."""
    key = (file, adds, rems, opts, last)
    if key not in _single:
        rep = record(file, file, adds, rems, reason=last)
        if not adds and not rems and '--update_comments' not in opts:
            _single[key] = TEXT[file]
        else:
            _single[key] = run(d, rep, list(opts))[0][file]
    return _single[key]


def sequences_case(item):
    recs, noise, eol, opts = item
    d = box().dir
    text = ''
    state = {}
    for i, (file, add, rem, bad) in enumerate(recs):
        text += NOISE[noise] + record(file, file, add, rem, bad)
        if bad:
            continue
        if file in state:
            a, r = state[file]
            state[file] = (a + [x for x in add if x not in a], r & set(rem))
        else:
            state[file] = (list(add), set(rem))
    text += NOISE[noise]
    want = dict(TEXT)
    for file, (a, r) in state.items():
        want[file] = merged_result(d, file, tuple(a), tuple(sorted(r)), opts, '')
    if eol:
        text = text.replace('\n', '\r\n')
    got, out = run(d, text, list(opts))
    for n in TEXT:
        if got[n] != want[n]:
            raise Violation('the records for %s were not merged as specified' % n,
                            {'report': text, 'options': opts, 'wanted': want[n],
                             'got': got[n], 'output': out})
        if n in state:
            a, r = state[n]
            mov = movables(n)
            for i in a:
                probe = ADDS[i].split('  //')[0].replace('namespace n { ', '')\
                    .replace('; }', ';')
                if probe not in got[n]:
                    raise Violation('an addition was lost', {'report': text,
                                                             'got': got[n]})
            if n.endswith('.cc') or '--nosafe_headers' in opts:
                for j, (t, _) in enumerate(mov):
                    p = t.replace('namespace n { ', '').replace('; }', ';')
                    if (p in got[n]) != (j not in r):
                        raise Violation('a line was removed that one record keeps, '
                                        'or kept that all remove: ' + t,
                                        {'report': text, 'got': got[n]})
    bads = sum(1 for r in recs if r[3] and r[3] != 'truncated')
    if out.count('ERROR: ') < bads:
        raise Violation('a malformed record was not reported',
                        {'report': text, 'output': out})
    return tuple(sorted(k for k in TEXT if got[k] != TEXT[k]))


def selection_case(item):
    names, cwd, base, files, only, ignore = item
    d = box().dir
    cwd_abs = os.path.normpath(os.path.join(d, cwd))

    def sub(s):
        return s.replace('$D', d) if s is not None else None
    args = []
    if base is not None:
        args += ['-p', sub(base)]
    if only is not None:
        args += ['--only_re', sub(only)]
    if ignore is not None:
        args += ['--ignore_re', sub(ignore)]
    args += [sub(f) for f in files]
    text = ''
    state = {}
    for i, raw in enumerate(names):
        raw = sub(raw)
        name = raw
        if base is not None and not os.path.isabs(raw):
            name = os.path.normpath(os.path.join(sub(base), raw))
        path = os.path.join(cwd_abs, name)
        rel = os.path.relpath(os.path.normpath(path), d)
        text += record(rel if rel in TEXT else 'c.cc', raw, (i,), (1,)
                       if rel in TEXT and len(movables(rel)) > 1 else (0,))
        if files and os.path.normpath(path) not in \
                [os.path.normpath(os.path.join(cwd_abs, sub(f))) for f in files]:
            continue
        if ignore is not None and re.search(sub(ignore), name):
            continue
        if only is not None and not re.search(sub(only), name):
            continue
        if rel in TEXT:
            r = (1,) if len(movables(rel)) > 1 else (0,)
            a = state.get(rel, ((), r))[0]
            state[rel] = (a + (i,), r)
    want = dict(TEXT)
    for file, (a, r) in state.items():
        want[file] = merged_result(d, file, a, r, (), '')
    got, out = run(d, text, args, cwd_abs)
    for n in TEXT:
        if got[n] != want[n]:
            raise Violation('%s was %s' % (n, 'changed although not selected'
                                           if want[n] == TEXT[n] else
                                           'not changed as selected'),
                            {'args': args, 'cwd': cwd, 'report': text,
                             'wanted': want[n], 'got': got[n], 'output': out})
    return tuple(sorted(state))


def subsets(n):
    return [c for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def main():
    c = Check(PROP, binary=False)
    deep = TIER == 'thorough'
    opts = [(), ('--nosafe_headers',), ('--reorder', '--nosafe_headers')]
    bads = ['truncated', 'nolines', 'order', 'name']
    full = [(f, a, r, None) for f in ('a.cc', 'sub/b.h') for a in subsets(3)
            for r in subsets(5)]
    small = [(f, a, r, None) for f, n in (('a.cc', 5), ('sub/b.h', 5))
             for a in ((), (0,), (1, 3), (4, 0))
             for r in ((), (0,), (0, 1), (1, 4), (3,), (0, 1, 2, 3, 4))]
    tiny = [(f, a, r, None) for f in ('a.cc', 'sub/b.h')
            for a in ((), (0,), (1, 2)) for r in ((), (0, 1), (1, 3))] + \
        [('a.cc', (0,), (1,), b) for b in bads]
    items = []
    for n, voc in ((1, full), (2, full if deep else small),
                   (3, small[::1] if deep else tiny)):
        for recs in itertools.product(voc, repeat=n):
            # A truncated record swallows what follows it: only at the end.
            if any(r[3] == 'truncated' for r in recs[:-1]):
                continue
            for o in (opts if n < 3 and not (deep and n == 2) else
                      [opts[1]] if n == 3 and deep else opts[1:2]):
                items.append((recs, 0, False, o))
    for recs in itertools.product(tiny, repeat=2):
        if any(r[3] == 'truncated' for r in recs[:-1]):
            continue
        for noise in range(len(NOISE)):
            for eol in (False, True):
                items.append((recs, noise, eol, ()))
    res = c.explore('records', sequences_case, items, chunk=200)
    raws = ['a.cc', './a.cc', '$D/a.cc', 'sub/b.h', '$D/sub/b.h', 'sub/../a.cc',
            'b.h', '../a.cc']
    bases = [None, '.', 'sub', '$D', '$D/sub', '..']
    filesets = [(), ('a.cc',), ('./a.cc',), ('$D/a.cc',), ('sub/b.h',),
                ('a.cc', 'sub/b.h'), ('b.h',), ('c.cc',), ('../a.cc', 'sub/a.cc')]
    res_ = [None, r'a\.cc', '^sub/', r'h$', '.', '^a', '$D/']
    sel = []
    for names in [(r,) for r in raws] + list(itertools.product(raws, raws)):
        for cwd in ('.', 'sub'):
            for base in bases:
                for files in filesets:
                    for only, ign in itertools.product(res_, res_):
                        if len(names) == 2 and not deep and (
                                (only is not None and ign is not None) or
                                (files and (only or ign) is not None)):
                            continue
                        sel.append((names, cwd, base, files, only, ign))
    res2 = c.explore('selection', selection_case, sel, chunk=200)
    c.sample({'report': ''.join(record(f, f, a, r, b) for f, a, r, b in
                                items[len(items) // 2][0])})
    c.sample({'selection': sel[len(sel) // 3]})
    c.finish(states=len({i[0] for i in items}) + len({(s[0], s[1], s[2])
                                                      for s in sel}),
             transitions=len(items) + len(sel),
             outcomes=len(set(res)) + len(set(res2)),
             cases_that_change_files=sum(1 for r in res + res2 if r))


main()
