"""C28: added lines land where they take effect and belong.

Every file made of a frame (leading comments, guards, pragma once, whole-file
conditionals) and a body of up to N lines over the line alphabet, x additions of
every kind, x options.  The reference model in fixspace.judge decides scope,
guard, leading comment and neighbourhood; and the results under the layout
options are compared with the default result.
"""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import fixruns
import fixspace

PROP = 'C28'
INC = ['#include "n.h"  // for N']
ADDS = [INC, ['#include <n>'], ['#include <n.h>  // for n'], ['class N;'],
        ['namespace k { class N; }'],
        ['#include "n.h"  // for N', 'namespace k { class N; }', 'class N2;']]
ALL = ''.join(fixspace.TOK)


def strip_comment(l):
    m = re.match(r'\s*#\s*include\s+([<"][^">]*[>"])', l)
    return '#include ' + m.group(1) if m else l


def options(item):
    """Layout options change the layout only."""
    seq, rem, adds, name = item
    if not seq:
        return False            # empty files are left alone
    base = fixruns.apply(seq, rem, adds, name, ())
    text, report, out = base
    lines = out.split('\n')

    def fail(what, other):
        raise Violation(what, {'before': text, 'report': report,
                               'default': out, 'with option': other})

    nb = fixruns.apply(seq, rem, adds, name, ('--noblank_lines',))[2]
    if [l for l in nb.split('\n') if l.strip()] != \
            [l for l in lines if l.strip()]:
        fail('--noblank_lines changes more than blank lines', nb)
    for a in adds:
        bare = strip_comment(a)
        if bare.startswith('#') and bare not in \
                [strip_comment(l) for l in lines]:
            fail('an addition is not written without its comment by default', out)
    cm = fixruns.apply(seq, rem, adds, name, ('--comments',))[2]
    if [strip_comment(l) for l in cm.split('\n')] != \
            [strip_comment(l) for l in lines]:
        fail('--comments changes more than comments', cm)
    up = fixruns.apply(seq, rem, adds, name, ('--update_comments',))[2]
    if up != cm:
        fail('--update_comments differs from --comments', up)
    full = re.search(r'full include-list for .*?:\n(.*)---', report, re.S)
    for a in full.group(1).split('\n') if full else []:
        if a.startswith('#') and '// for' in a:
            got = [l for l in cm.split('\n') if strip_comment(l) ==
                   strip_comment(a)]
            if got and not any(re.sub(r'\s+', ' ', l) == re.sub(r'\s+', ' ', a)
                               for l in got):
                fail('--comments does not write the reason of %r' % a, cm)
    m = fixruns.apply(seq, rem, adds, name, ('-m',))[2]
    norm = re.sub(r'^namespace (\w) \{ (.*?;) \}$',
                  r'namespace \1 {\n\2\n}  // namespace \1', m, flags=re.M)
    if norm != out:
        fail('-m changes more than the namespace format', m)
    ro = fixruns.apply(seq, rem, adds, name, ('--reorder',))[2]
    if sorted(l for l in ro.split('\n') if l.strip()) != \
            sorted(l for l in lines if l.strip()):
        fail('--reorder changes more than the order', ro)
    return out != text


def main():
    c = Check(PROP, binary=False)
    deep = TIER == 'thorough'
    run = fixruns.judged(('place',))
    S = fixspace.sequences
    items = []
    add = items.extend
    add(fixruns.cases(S(ALL, 2), ADDS))
    add(fixruns.cases(S('abvshfgclpxDIHSTLGOR_' if not deep else ALL, 3, 3),
                      ADDS if deep else [ADDS[0], ADDS[4]],
                      rem='all' if deep else 'ends'))
    frames = [(a + b, e) for a in ((), ('c',), ('m',), ('c', '_'), ('c', 'c'),
                                   ('O',), ('R', '_'), ('c', '_', 'm'))
              for b, e in (((), ()), (('H',), ('N',)), (('p',), ()),
                           (('I',), ('N',)), (('p', 'H'), ('N',)),
                           (('H',), ('N', 'c')), (('H',), ('_', 'N', '_')))]
    body = list(S('abvfxcmGTSLINs_' if not deep else 'abvfxcmGTSLDINs_', 2)) + \
        list(S('afxcST_IN' if not deep else 'afvxcSTL_IN', 3, 3))
    for name, fl in (('t.h', ('--nosafe_headers',)), ('t.h', ()),
                     ('t.cc', ())):
        add(fixruns.cases(fixruns.with_frame(frames, body), [ADDS[0], ADDS[3]]
                          if not deep else ADDS, name, fl, rem='ends' if fl or
                          deep else 'ends'))
    if not deep:
        items = [i for i in items if not (i[3] == 't.h' and not i[4] and i[1])]
    # Where each kind of include goes among several groups of includes.
    groups = list(S('abvsxh', 4 if deep else 3, 3)) + \
        list(S('avsx', 5 if deep else 4, 4))
    kinds = [['#include "n.h"'], ['#include <n>'], ['#include <n.h>'],
             ['#include "t.h"'], ['#include "t-inl.h"'], ['class N;']]
    add(fixruns.cases(groups, [k for k in kinds], 't.cc', ()))
    items = list(dict.fromkeys((i[0], i[1], tuple(i[2]), i[3], i[4])
                               for i in items))
    res = c.explore('placement', run, items, chunk=250)
    oitems = list(dict.fromkeys(
        (i[0], i[1], tuple(i[2]), i[3]) for i in
        list(fixruns.cases(S('abvfgc_xhsSTLkd', 3 if deep else 2),
                           ADDS)) +
        list(fixruns.cases(S('abvfgc_xhs' , 3, 3), [ADDS[0], ADDS[5]],
                           rem='ends')) if i[2]))
    res2 = c.explore('options', options, oitems, chunk=100)
    c.sample({'file': [l.text for l in fixspace.layout(items[len(items) // 2][0])],
              'added': items[len(items) // 2][2]})
    c.finish(states=len({(i[0], i[3]) for i in items + oitems}),
             transitions=len(items) + 6 * len(oitems),
             files_changed=sum(1 for r in res + res2 if r),
             alphabet={t: fixspace.TOK[t][1] for t in ALL})


main()
