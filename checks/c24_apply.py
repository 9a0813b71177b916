"""C24: every edit of a report is applied, once, and nothing else is.

Every file of up to N lines over the line alphabet of lib/fixspace.py x every
subset of its includes and declarations removed x several sets of additions x
options.  The reference model in fixspace.judge says which includes and
declarations must be in the result, how often, and between which code lines.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import fixruns
import fixspace

PROP = 'C24'
ADDS = [[], ['#include "n.h"  // for N'], ['class N;'],
        ['#include <n>', '#include "n.h"', 'class N;'],
        ['namespace k { class N; }'],
        ['namespace k { class N; }', 'class N2;', '#include <n.h>  // for n']]
ALL = ''.join(fixspace.TOK)


def main():
    c = Check(PROP, binary=False)
    deep = TIER == 'thorough'
    run = fixruns.judged(('edits',))
    S = fixspace.sequences
    items = []
    add = items.extend
    opts = [(), ('--reorder',), ('--noblank_lines',), ('--comments',),
            ('--update_comments',), ('-m',), ('--quoted_includes_first',),
            ('--reorder', '-m', '--comments', '--noblank_lines')]
    # 1. Every short file over the whole alphabet, all additions.
    for fl in opts:
        add(fixruns.cases(S(ALL, 2), ADDS, 't.cc', fl))
    add(fixruns.cases(S('abvlfgchdikr_xDpILNST' if not deep else ALL, 3, 3),
                      ADDS[:4] if not deep else ADDS))
    # 2. Movable lines only, longer: duplicates in all positions.
    add(fixruns.cases(S('abvfg_c', 4), ADDS[:3]))
    add(fixruns.cases(S('abvfhs_', 5 if deep else 4, 4), ADDS[1:4], rem='ends'))
    # 3. With structure.
    add(fixruns.cases(S('af_xINSTL' if not deep else 'abf_xpINSTLc', 4, 4),
                      [ADDS[1], ADDS[4]]))
    add(fixruns.cases(S('afINSTx' if not deep else 'afIENSTLx_', 5, 5), ADDS[1:2],
                      rem='ends'))
    # 4. Headers, safe and not.
    frames = [(('H',), ('N',)), (('c', 'H'), ('N',)), (('p',), ()), ((), ())]
    body = list(S('abf_cx' if not deep else 'abvfgc_xLT', 3))
    for name in ('t.h', 'd/t.hpp', 't'):
        for fl in (('--nosafe_headers',), ()):
            add(fixruns.cases(fixruns.with_frame(frames, body), ADDS[:3], name,
                              fl, rem='all' if deep else 'ends'))
    for name in ('t.c', 't.cpp', 'T.C', 't.c++', 't.cxx'):
        add(fixruns.cases(S('abf_', 2), ADDS[:3], name))
    items = list(dict.fromkeys((i[0], i[1], tuple(i[2]), i[3], i[4])
                               for i in items))
    res = c.explore('files', run, items, chunk=250)
    c.sample({'file': [l.text for l in fixspace.layout(items[len(items) // 2][0])],
              'removed tokens': items[len(items) // 2][1],
              'added': items[len(items) // 2][2]})
    c.finish(states=len({(i[0], i[3]) for i in items}), transitions=len(items),
             files_changed=sum(1 for r in res if r),
             alphabet={t: fixspace.TOK[t][1] for t in ALL})


main()
