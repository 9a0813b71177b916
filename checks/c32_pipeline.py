"""C32: the analyser and the fixer, together.

The initial states are the programs of lib/snippets.py laid out in files in many
ways; the transitions are: analyse, hand the report to fix_includes.py, analyse
again, fix again.  Every state must compile; the second analysis must find nothing
that the fixer may do; the second fix must change nothing; what is no include, no
forward declaration and no blank line is the same throughout, and what was written
about a line that stays, stays with it.
"""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx
import fixer
import snippets

PROP = 'C32'
STD = '-std=c++17'
ERROR = re.compile(r'(^|\s)(fatal )?error: ')
LICENSE = '// Copyright (c) somebody.\n//\n// All rights reserved.\n'


def inc_text(l):
    return '#include "%s"' % l if l.endswith('.h') else l


def join(ls):
    return ''.join(l + '\n' for l in ls)


# Each takes the lines and the uses, and gives the text of the file that has both.
FRAMES = {
    'plain': lambda i, u: LICENSE + '\n' + join(i) + '\n' + u,
    'tight': lambda i, u: join(i) + u,
    'nothing': lambda i, u: u,
    'block comment': lambda i, u: '/* Copyright\n * somebody */\n' + join(i) + u,
    'commented': lambda i, u: LICENSE + '\n' + ''.join(
        '// About %s\n%s  // trailing\n' % (re.sub('["#]', '', l), l)
        for l in i) + '\n' + u,
    'blank lines': lambda i, u: '\n' + ''.join(l + '\n\n' for l in i) + '\n\n' + u,
    'apart': lambda i, u: join(i[:1]) + '\nstatic int between;\n\n' + join(i[1:]) +
    '\n' + u,
    'macro between': lambda i, u: join(i[:1]) + '#define BETWEEN 1\n' + join(i[1:]) +
    '\n' + u,
    'not taken': lambda i, u: '#ifdef FEATURE\n#include "p0.h"\n#endif\n' +
    join(i) + '\n' + u,
    'not taken behind': lambda i, u: join(i) + '#ifdef FEATURE\n#include "p0.h"\n'
    '#endif\n\n' + u,
    'taken': lambda i, u: '#if 1\n' + join(i) + '#endif\n\n' + u,
    'other branch': lambda i, u: '#ifdef FEATURE\n#include "x.h"\n#else\n' +
    join(i) + '#endif\n' + u,
    'first outside': lambda i, u: join(i[:1]) + '#ifndef FEATURE\n' + join(i[1:]) +
    '#endif\n' + u,
    'namespace': lambda i, u: join(i) + '\nnamespace w {\n\n' + u + '\n}  // w\n',
    'linkage': lambda i, u: 'extern "C++" {\n' + join(i) + '}\n' + u,
    'pragma once': lambda i, u: '#pragma once\n\n' + join(i) + '\n' + u,
    'late guard': lambda i, u: LICENSE + '\n#ifndef GUARD_\n#define GUARD_\n\n' +
    join(i) + '\n' + u + '\n#endif  // GUARD_\n',
    'spaced': lambda i, u: join(l.replace('#include', '#  include')
                                for l in i) + u,
    'crlf': lambda i, u: (LICENSE + '\n' + join(i) + '\n' + u).replace('\n', '\r\n'),
    'unfinished': lambda i, u: (join(i) + u)[:-1],
    'system': lambda i, u: join(re.sub('"(.*)"', r'<\1>', l) for l in i) + u,
}
IN_SOURCE = [f for f in FRAMES if f not in ('pragma once', 'late guard')]
IN_HEADER = ['plain', 'pragma once', 'late guard', 'commented', 'apart', 'taken',
             'namespace', 'crlf', 'nothing']


def layout(item):
    picks, lines, place, frame, analysis, flags = item
    files, user = {}, ''
    for n, (name, variant) in enumerate(picks):
        hs, u = snippets.family(name, n, variant)
        files.update(hs)
        user += u
    files['x.h'] = cxx.guard('x.h', ''.join('#include "%s"\n' % h
                                            for h in sorted(files)))
    inc = [inc_text(l) for l in lines]
    f = FRAMES[frame]
    if place == 'source':
        files['t.cc'] = f(inc, user)
    elif place == 'header':
        files['t.h'] = f(inc, user)
        files['t.cc'] = '#include "t.h"\n'
    elif place == 'beside':
        files['t.h'] = cxx.guard('t.h', join(inc))
        files['t.cc'] = f(['#include "t.h"'] + inc[:1], user)
    return files


def code(text):
    """What is neither include, declaration, blank, comment nor conditional."""
    res = []
    for l in text.replace('\r', '').split('\n'):
        t = re.sub(r'\s*//.*', '', l)
        if not t.strip() or re.match(r'\s*#\s*(include|if|else|endif)', t) or \
                cxx.FWD.match(t):
            continue
        res.append(l)
    return '\n'.join(res)


def told(text):
    """{include line: (the comment above, the comment behind)}."""
    ls = text.replace('\r', '').split('\n')
    res = {}
    for n, l in enumerate(ls):
        m = cxx.INC.match(l)
        if m:
            above = ls[n - 1] if n and ls[n - 1].startswith('// About') else ''
            res.setdefault(m.group(1), (above, l[m.end():]))
    return res


def disk(files):
    d = box().dir
    res = {}
    for n in files:
        with open(os.path.join(d, n), newline='') as f:
            res[n] = f.read()
    box().present.update(res)
    return res


def fix(state, out, flags):
    box().put(state)
    rc, text, crash = fixer.call(list(flags), out, box().dir)
    after = disk(state)
    if crash or rc:
        raise Violation('fix_includes.py fails: %s' % (crash or rc),
                        {'files': state, 'report': out, 'output': text})
    return after


def analysed(state, args, what, history):
    rc, out = box().iwyu(state, args)
    if rc is None or rc < 0:
        raise Violation('%s: the analysis dies' % what, history + [out])
    if ERROR.search(out):
        if not history:
            return None, out
        raise Violation('%s: the program does not compile' % what,
                        history + [state, out[:1500]])
    rc, rep, out = cxx.analyse(state, args)
    return rep, out


def case(item):
    picks, lines, place, frame, analysis, flags = item
    files = layout(item)
    args = (STD, '-I.') + tuple(x for a in analysis for x in ('-Xiwyu', a)) + \
        ('t.cc',)
    rep, out = analysed(files, args, 'before', [])
    if rep is None:
        return 0
    one = fix(files, out, flags)
    rep2, out2 = analysed(one, args, 'after the fix', [files, out])
    history = {'before': files, 'report': out,
               'after': {n: t for n, t in one.items() if t != files[n]},
               'second report': out2}
    for n in files:
        if n not in rep.files and one[n] != files[n]:
            raise Violation('a file nobody analysed is edited', history)
        if code(one[n]) != code(files[n]):
            raise Violation('the code of %s is not the same' % n, history)
        if LICENSE in files[n] and not one[n].startswith(LICENSE):
            raise Violation('the comment at the top of %s is lost' % n, history)
        if '\r' in files[n] and re.search(r'(?<!\r)\n', one[n]):
            raise Violation('%s: the line ends are mixed' % n, history)
        if frame == 'commented':
            new = told(one[n])
            why = {} if n not in rep.files or '--comments' not in flags and \
                '--update_comments' not in flags else \
                {t.replace('#include ', ''): '  ' + w
                 for t, w in rep.files[n].full if w}
            for t, what in told(files[n]).items():
                what = what[0], why.get(t, what[1])
                if t in new and new[t] != what:
                    raise Violation('%s: the comments on %s are %r, not %r' %
                                    (n, t, new[t], what), history)
    safe = '--nosafe_headers' not in flags
    for n, f in rep2.files.items():
        if f.correct:
            continue
        if f.add or (f.remove and not (safe and n.endswith('.h'))):
            raise Violation('the second analysis asks for more edits of ' + n,
                            history)
    two = fix(one, out2, flags)
    if two != one:
        raise Violation('the second fix changes something', dict(
            history, then={n: t for n, t in two.items() if t != one[n]}))
    return 2 if one == files else 4


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    variants = [(n, v) for n in snippets.SNIPPETS
                for v in range(len(snippets.SNIPPETS[n][1]))]
    sets = [('x.h',), ('struct C0;', 'q0.h'), ('q0.h', 'x.h', 'p0.h')]
    modes = [((), ('--nosafe_headers',)),
             ((), ('--nosafe_headers', '--comments', '--reorder',
                   '--nokeep_iwyu_namespace_format'))]
    more = [((), ()), (('--update_comments',), ('--nosafe_headers',
                                                '--update_comments')),
            (('--no_fwd_decls',), ('--nosafe_headers',)),
            ((), ('--nosafe_headers', '--noblank_lines', '--quoted_includes_first',
                  '--keep_iwyu_namespace_format')),
            (('--cxx17ns',), ('--nosafe_headers', '--noreorder'))]
    frames = [('source', f) for f in IN_SOURCE] + [('header', f) for f in
                                                   IN_HEADER] + \
        [('beside', f) for f in ('plain', 'commented', 'taken', 'apart')]
    # Every family in every frame; every mode with every frame on typical families.
    items = [((nv,), s, place, f) + m for nv in variants for place, f in frames
             for s in (sets if deep else sets[2:])
             for m in (modes + more if deep else modes[1:])]
    items += [((nv,), s, place, f) + m
              for nv in (('typedef pointer', 1), ('using declaration', 1))
              for place, f in frames for s in (sets if deep else sets[1:2])
              for m in modes + more]
    items = list(dict.fromkeys(items))
    r = c.explore('one family', case, items)
    r2 = c.explore('two families', case, [
        ((a, b), s, place, f) + m
        for a, b in zip(variants, variants[7:] + variants[:7])
        for s in (('x.h',), ('q1.h', 'p0.h', 'struct C1;'))
        for place, f in (('source', 'commented'), ('header', 'late guard'))
        for m in (modes + more if deep else modes[:1])])
    res = [x for x in r + r2 if x]
    c.confirm_binding([(layout(i), (STD, '-I.', 't.cc')) for i in items[::501]][:12])
    c.sample({'case': items[40]})
    c.finish(states=len(res) + sum(res), transitions=sum(res), programs=len(res),
             settled_at_once=sum(x == 2 for x in res), frames=len(frames))


if __name__ == '__main__':
    main()
