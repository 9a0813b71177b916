"""C25: sorting permutes includes inside their runs, into the documented order.

Every file of up to N lines over an alphabet of include kinds, forward
declarations, comments, blank lines, barriers and code is sorted by the real
fix_includes.py under every combination of the ordering options.  The reference
model predicts the exact result: which lines may move (runs), where to (kind,
then spelling when reordering), which blank lines appear.  Sorting the result
again must change nothing.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import fixer
import fixspace
import itertools
import re

PROP = 'C25'

# token -> (class, text)
T = {
    'h': ('inc', '#include "t.h"'),
    'd': ('inc', '#include "p/t.h"'),
    'r': ('inc', '#include "r.h"  // IWYU pragma: associated'),
    'a': ('inc', '#include "a.h"'),
    'i': ('inc', '#include "a-inl.h"'),
    'b': ('inc', '#include "b.h"  // for B'),
    'j': ('inc', '#  include "a0.h"'),
    'P': ('inc', '#include "p/p.h"'),
    'Q': ('inc', '#include "q/q.h"'),
    'v': ('inc', '#include <v>'),
    'u': ('inc', '#include <u>'),
    's': ('inc', '#include <s.h>'),
    'z': ('inc', '#include <a/z.h>'),
    'l': ('bar', '#include <linux/l.h>'),
    'k': ('bar', '#include <linux/k.h>'),
    'F': ('fwd', 'class F;'),
    'G': ('fwd', 'template <class T>\nclass G;'),
    'E': ('fwd', 'enum E : int;'),
    'c': ('com', '// comment %'),
    'm': ('com', '/* comment %\n * more % */'),
    '_': ('blank', ''),
    'x': ('code', 'int x%;'),
    'S': ('ns', 'namespace n {'),
    'D': ('code', '#define D%'),
    'I': ('pp', '#if I%'),
    'N': ('pp', '#endif'),
    'R': ('code', '}'),
    'p': ('once', '#pragma once'),
    'y': ('push', '#pragma pack(push)'),
}
MAIN, CSYS, CXXSYS, QUOTED, PROJECT, FWD = range(1, 7)


def key_of(tok):
    return re.search(r'([<"].*[>"])', T[tok][1].split('//')[0]).group(1)


def kind_of(tok, name, first, project):
    if T[tok][0] == 'fwd':
        return FWD
    k = key_of(tok)
    if k[0] == '<':
        return CSYS if '.' in k else CXXSYS
    if tok == 'r':
        return MAIN
    stem = os.path.splitext(name)[0]
    stem = re.sub('(_unittest|_regtest|_test)$', '', stem)
    c = re.sub(r'(-inl\.h|\.h)$', '', k.strip('"'))
    if c == stem or (first and os.path.basename(c) == os.path.basename(stem)):
        return MAIN
    if project == '<tld>':
        if '/' in k and '/' in name and \
                k[1:].split('/')[0] == name.split('/')[0]:
            return PROJECT
    elif project and k[1:].startswith(project):
        return PROJECT
    return QUOTED


def predict(seq, name, flags, fwds_move):
    """The exact lines of the sorted file (None: file not applicable)."""
    reorder = '--reorder' in flags
    quoted_first = '--quoted_includes_first' in flags
    blanks = '--noblank_lines' not in flags
    project = None
    if '--separate_project_includes' in flags:
        project = flags[flags.index('--separate_project_includes') + 1]
        if project[0] != '<' and not project.endswith('/'):
            project += '/'
    # Physical lines.
    ph = []
    for pos, t in enumerate(seq):
        cls, text = T[t]
        if cls == 'fwd' and not fwds_move:
            cls = 'code'
        for i, s in enumerate(text.split('\n')):
            ph.append((cls, s.replace('%', str(pos)), t, pos))
    # Move spans: the line(s) and the comments right above, unless these are
    # the first lines of the file.
    moves = []
    i = 0
    seen_inc = False
    while i < len(ph):
        cls, _, t, pos = ph[i]
        if cls not in ('inc', 'bar', 'fwd'):
            i += 1
            continue
        end = i
        while end < len(ph) and ph[end][3] == pos:
            end += 1
        start = i
        while start > 0 and ph[start - 1][0] == 'com':
            start -= 1
        if start == 0:
            start = i
        kind = kind_of(t, name, cls != 'fwd' and not seen_inc, project)
        seen_inc = seen_inc or cls != 'fwd'
        text = ''.join(p[1] for p in ph[i:end])
        spell = re.sub(r'\s+', '', text).replace('-inl.h', '_inl.h')
        moves.append((start, end, kind, spell, cls == 'bar'))
        i = end
    # Runs.
    runs = []
    for m in moves:
        if runs and not m[4] and not runs[-1][-1][4] and \
                all(p[0] == 'blank' for p in ph[runs[-1][-1][1]:m[0]]):
            runs[-1].append(m)
        else:
            runs.append([m])
    rank = {MAIN: 1, CSYS: 2, CXXSYS: 3, QUOTED: 4, PROJECT: 5, FWD: 6}
    if quoted_first:
        rank = {MAIN: 1, QUOTED: 2, PROJECT: 3, CSYS: 4, CXXSYS: 5, FWD: 6}
    out = []
    at = 0
    for run in runs:
        out += [p[1] for p in ph[at:run[0][0]]]
        order = sorted(run, key=lambda m: (rank[m[2]], m[3]) if reorder
                       else rank[m[2]])
        for n, m in enumerate(order):
            out += [p[1] for p in ph[m[0]:m[1]]]
            if n + 1 < len(order):
                k1, k2 = m[2], order[n + 1][2]
                if k1 == k2 or {k1, k2} == {CSYS, CXXSYS}:
                    continue
                if FWD in (k1, k2) or blanks:
                    out.append('')
        at = run[-1][1]
        # A run is set off from the code right below it.
        nxt = at
        if nxt < len(ph) and ph[nxt][0] != 'blank':
            while nxt < len(ph) and ph[nxt][0] == 'com':
                nxt += 1
            if nxt < len(ph) and (ph[nxt][0] in ('ns', 'push') or
                                  (ph[nxt][0] == 'code' and
                                   ph[nxt][1] != '}')):
                out.append('')
    out += [p[1] for p in ph[at:]]
    return out


def run(item):
    mode, seq, name, flags = item
    d = box().dir
    os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
    ph = [l.replace('%', str(i)) for i, t in enumerate(seq)
          for l in T[t][1].split('\n')]
    path = d + '/' + name
    if mode == 'sort':
        report, args = '', list(flags) + ['-s', name]
        tail = []
    else:
        # A report that removes one include at the end: declarations move too.
        tail = ['int tail;', '#include "gone.h"']
        fw = []
        n = 1
        for t in seq:
            k = len(T[t][1].split('\n'))
            if T[t][0] == 'fwd':
                fw.append((T[t][1].replace('\n', ' '), n, n + k - 1))
            n += k
        report = fixer.record(name, removes=[('#include "gone.h"', len(ph) + 2,
                                              len(ph) + 2)], fwds=fw)
        args = list(flags)
    text = ''.join(l + '\n' for l in ph + tail)
    with open(path, 'w') as f:
        f.write(text)
    rc, out, crash = fixer.call(args, report, d)
    got = open(path).read()
    body = predict(tuple(seq) + (('x', ) if tail else ()), name, flags,
                   mode != 'sort')
    if tail:
        body[-1] = 'int tail;'
    want = ''.join(l + '\n' for l in body)
    if crash or rc or got != want:
        raise Violation('%s of %s differs from the documented order' %
                        (mode, name),
                        {'flags': flags, 'before': text, 'after': got,
                         'expected': want, 'crash': crash, 'output': out})
    # Which include counts as the file's own header may depend on which one
    # comes first (same base name, other directory): sorting may change that.
    kinds = {(first, t): kind_of(t, name, first, None)
             for t in seq if T[t][0] == 'inc' for first in (False, True)}
    own = [t for f, t in kinds if kinds[f, t] != kinds[not f, t]]
    if mode == 'sort' and not own:
        again, out2, crash = fixer.call(args, '', d)
        got2 = open(path).read()
        if crash or got2 != got:
            raise Violation('sorting twice differs from sorting once',
                            {'flags': flags, 'first': got, 'second': got2,
                             'crash': crash})
    return got != text


def words(alphabet, maxlen, maxdup=1):
    for n in range(1, maxlen + 1):
        for seq in itertools.product(alphabet, repeat=n):
            if 'S' in seq and 'R' in seq:
                continue      # an empty namespace is removed, see C23
            if all(seq.count(t) <= 1 for t in set(seq)
                   if T[t][0] in ('inc', 'bar', 'fwd', 'once')) and \
                    any(T[t][0] in ('inc', 'bar', 'fwd') for t in seq):
                yield seq


def main():
    c = Check(PROP, binary=False)
    deep = TIER == 'thorough'
    items = []
    R = ('--reorder',)
    allflags = [(), R, R + ('--quoted_includes_first',), ('--noblank_lines',),
                R + ('--noblank_lines', '--quoted_includes_first')]
    small = 'harjbvsl_cx' if not deep else 'hariijbvuszlk_cmx'
    full = [t for t in T if t not in 'IN']
    # Every short file over the whole alphabet, in every option set.
    for seq in words(full, 3 if deep else 2):
        for fl in allflags:
            items.append(('sort', seq, 't.cc', fl))
            items.append(('report', seq, 't.cc', fl))
    for seq in words(full, 3):
        items.append(('sort', seq, 't.cc', R))
        items.append(('report', seq, 't.cc', R))
    # Longer files over a smaller one.
    for seq in words('aibvsl_cx' if not deep else 'haijbvusklcm_x', 4):
        if len(seq) == 4:
            items.append(('sort', seq, 't.cc', R))
            items.append(('sort', seq, 't.cc', ()))
    for seq in words('avFG_cxS', 5 if not deep else 6):
        if len(seq) >= 4:
            items.append(('report', seq, 't.cc', R))
            items.append(('report', seq, 't.cc', ()))
    # Conditionals around and between.
    for seq in words('abvIN_c', 5 if not deep else 6):
        if fixspace_ok(seq):
            items.append(('sort', seq, 't.cc', R))
    # File names and projects.
    for name in ('p/t.cc', 'q/t.cc', 't_test.cc', 'p/t_unittest.cc', 'a.cc',
                 'a.h', 'p/p.cc', 't-inl.h'):
        for fl in (R, R + ('--separate_project_includes', '<tld>'),
                   R + ('--separate_project_includes', 'p'),
                   R + ('--separate_project_includes', 'q/',
                        '--quoted_includes_first')):
            for seq in words('hdaiPQv', 3):
                items.append(('sort', seq, name, fl))
    res = c.explore('files', run, items, chunk=200)
    c.sample({'file': [T[t][1] for t in items[len(items) // 2][1]],
              'flags': items[len(items) // 2][3]})
    c.finish(states=len({(i[1], i[2]) for i in items}),
             transitions=2 * len(items),
             files_changed_by_sorting=sum(1 for r in res if r))


def fixspace_ok(seq):
    if re.search('I[_c]*N', ''.join(seq)):
        return False          # empty conditionals are removed, see C23
    d = 0
    for t in seq:
        d += (t == 'I') - (t == 'N')
        if d < 0:
            return False
    return d == 0


if __name__ == '__main__':
    main()
