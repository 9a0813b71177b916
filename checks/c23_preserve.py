"""C23: applying a report leaves code, comments and directives alone.

Every file of up to N lines over the line alphabet of lib/fixspace.py, with
every subset of its includes and forward declarations removed and with and
without additions, is rewritten by the real fix_includes.py.  The reference
model in fixspace.judge, which works on the file's token structure only, says
which lines must survive, in which order, and which comments and blank lines.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import fixruns
import fixspace

PROP = 'C23'
N1 = ['#include "n.h"  // for N']
ALL = ''.join(fixspace.TOK)


def main():
    c = Check(PROP, binary=False)
    deep = TIER == 'thorough'
    run = fixruns.judged(('code', 'comments', 'blanks'))
    S = fixspace.sequences
    items = []
    add = items.extend
    # 1. Every short file over the whole alphabet.
    add(fixruns.cases(S(ALL, 3), [[], N1]))
    for fl in (('--reorder',), ('--noblank_lines',), ('--update_comments',),
               ('--reorder', '--quoted_includes_first')):
        add(fixruns.cases(S(ALL, 2), [[], N1, ['class N;'],
                                      ['namespace k { class N; }']], 't.cc', fl))
    # 2. Structure: conditionals, namespaces, comments around movable lines.
    add(fixruns.cases(S('afco_mxIENSTG' if not deep else 'abfgco_mxIENSTGHp',
                        4, 4), [[]]))
    if deep:
        add(fixruns.cases(S('afc_mxIENST', 5, 5), [[], N1], rem='ends'))
    # 3. Longer structures over very few kinds of lines.
    add(fixruns.cases(S('afIENST', 6 if not deep else 7, 5), [[]], rem='ends'))
    add(fixruns.cases(S('afc_x', 6 if deep else 5, 5), [[]], rem='ends'))
    add(fixruns.cases(S('aIENc_', 6 if not deep else 7, 5), [[]], rem='ends'))
    add(fixruns.cases(S('fSTc_V' + 'Z', 6 if not deep else 7, 5), [[]],
                      rem='ends'))
    add(fixruns.cases(S('fSAT_x', 6, 5), [[], ['class N;']] if deep else [[]],
                      rem='ends'))
    # 4. Headers: the guard and what lies in it, with and without deletions.
    frames = [(('H',), ('N',)), (('c', 'H'), ('N',)), (('p',), ()),
              (('c', '_', 'H'), ('N', 'c')), (('I',), ('N',))]
    body = list(S('afc_xDIN' if not deep else 'afgc_xDINST', 3))
    for fl in (('--nosafe_headers',), ()):
        add(fixruns.cases(fixruns.with_frame(frames, body), [[], N1], 't.h', fl,
                          rem='all' if fl else 'ends'))
    items = list(dict.fromkeys((i[0], i[1], tuple(i[2]), i[3], i[4])
                               for i in items))
    res = c.explore('files', run, items, chunk=250)
    c.sample({'file': [l.text for l in fixspace.layout(items[len(items) // 2][0])],
              'removed tokens': items[len(items) // 2][1]})
    c.finish(states=len({(i[0], i[3]) for i in items}), transitions=len(items),
             files_changed=sum(1 for r in res if r),
             alphabet={t: fixspace.TOK[t][1] for t in ALL})


main()
