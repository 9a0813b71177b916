"""C11: misplaced or malformed pragmas are diagnosed and do no harm.

World: words over comments that are, nearly are, or are no pragmas, on lines of
their own and behind includes and declarations, in one file or in two files one
of which includes the other.  The model is the automaton of the pragma language;
a word's diagnostics must be exactly the automaton's, and the report must be that
of the word whose rejected pragmas are ordinary comments.
"""
import functools
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C11'
HEADERS = {
    'a.h': 'struct A { int m; };\n', 'b.h': 'struct B { int m; };\n',
    'pub.h': 'struct Pub {};\n',
    'x.h': '#include "a.h"\n#include "b.h"\n',
}
PRAGMAS = [
    'begin_keep', 'end_keep', 'begin_exports', 'end_exports', 'keep', 'export',
    'private', 'private, include "pub.h"', 'private, include pub.h',
    'private, include', 'private,', 'private include "pub.h"',
    'no_include "a.h"', 'no_include <a.h>', 'no_include a.h', 'no_include',
    'no_include "a.h', 'no_include "a.h>', 'no_forward_declare A',
    'no_forward_declare', 'friend "t.cc"', 'friend', 'associated', 'always_keep',
    'nonsense', '', 'begin_export', 'begin_exports now', 'end_exports, now',
    'keepsake', 'keep-it', 'exported', 'Keep', 'keep because', 'keep, because',
    'export, because', 'export it', ' keep', 'end_keep_', 'begin_keep;', '"keep"',
]
# What is no pragma at all.
PLAIN = ['// IWYU pragma keep', '// see IWYU pragma: nonsense', '/**/',
         '//IWYU pragma: nonsense', '// iwyu pragma: nonsense',
         '/*  IWYU pragma: nonsense */', '/*\n * IWYU pragma: nonsense */',
         '// IWYU  pragma: nonsense', '/// IWYU pragma: nonsense', '//']
CARRIERS = {'': '', 'i': '#include "a.h"', 'j': '#include "b.h"', 'd': 'struct A;',
            'x': 'int c@;'}
BLOCKS = {'begin_keep': 'end_keep', 'begin_exports': 'end_exports'}
NESTED = '#include "t.h"'


def letter(carrier, pragma, style='//'):
    return (carrier, pragma, style)


def parse(text):
    """(what the pragma is, message if it is malformed)"""
    toks = re.findall(r'"[^"\s]*"\S*|<[^>\s]*>\S*|\S+', text)
    head = toks[0] if toks else None
    quoted = lambda t: re.fullmatch(r'"[^"]+"|<[^>]+>', t)
    if head in ('begin_keep', 'end_keep', 'begin_exports', 'end_exports', 'keep',
                'export', 'private', 'associated', 'always_keep'):
        return head, None
    if head == 'private,' and toks[1:2] == ['include'] and len(toks) > 2:
        return ('private', None) if quoted(toks[2]) else \
            (None, 'Suggested include must be a quoted header')
    if head == 'no_include' and len(toks) > 1:
        return ('no_include', None) if quoted(toks[1]) else \
            (None, 'Inhibited include must be a quoted header')
    if head in ('no_forward_declare', 'friend') and len(toks) > 1:
        return head, None
    return None, 'Unknown or malformed pragma (%s' % text.strip()


def automaton(letters):
    """[message or None per letter, plus (index, message) of open blocks]"""
    res, block = [], None
    for i, (_, pragma, _) in enumerate(letters):
        if pragma is None or pragma in PLAIN or pragma == NESTED:
            res.append(None)
            continue
        kind, wrong = parse(pragma)
        if block:
            if kind == BLOCKS[block[0]]:
                block = None
                res.append(None)
            else:
                res.append('Expected %s pragma' % BLOCKS[block[0]])
        elif kind in BLOCKS:
            block = (kind, i)
            res.append(None)
        elif kind in BLOCKS.values():
            begin = [b for b in BLOCKS if BLOCKS[b] == kind][0]
            res.append('%s without a %s' % (kind, begin))
        else:
            res.append(wrong)
    still = (block[1], '%s without an %s' % (block[0], BLOCKS[block[0]])) \
        if block else None
    return res, still


def render(letters, verdicts, neutral, tag):
    """(text, [(line, column) of each letter's comment])"""
    text, at = '', []
    for i, (carrier, pragma, style) in enumerate(letters):
        code = CARRIERS[carrier].replace('@', tag + str(i))
        if pragma is None:
            comment = ''
        elif pragma in PLAIN or pragma == NESTED:
            comment = pragma
        elif neutral and verdicts[i]:
            comment = '// nothing' if style == '//' else '/* nothing */'
        elif style == '//':
            comment = '// IWYU pragma: ' + pragma
        else:
            comment = '/* IWYU pragma: %s */' % pragma
        lead = code + '  ' if code and comment else code
        at.append((text.count('\n') + 1, len(lead) + 1))
        text += lead + comment + '\n'
    return text, at


HEAD = '#include "x.h"\n'
TAIL = {'t.cc': 'A* p;\nB* q;\n', 't.h': 'extern A* ph;\nextern B* qh;\n'}


def program(words, neutral):
    """words: file -> letters"""
    files = {h: cxx.guard(h, b) for h, b in HEADERS.items()}
    places, expected, still = {}, [], False
    for name, w in words.items():
        verdicts, left_open = automaton(w)
        text, at = render(w, verdicts, neutral, name[-1])
        head = HEAD if name == 't.cc' else '#pragma once\n' + HEAD
        at = [(l + head.count('\n'), c) for l, c in at]
        files[name] = head + text + TAIL[name]
        expected += [(name, at[i], v) for i, v in enumerate(verdicts) if v]
        if left_open:
            expected.append((name, at[left_open[0]], left_open[1]))
            still = True
    if 't.cc' not in words:
        files['t.cc'] = '#include "t.h"\n'
    return files, expected, still


def run(files, args=('-std=c++17', '-I.', 't.cc')):
    rc, rep, out = cxx.analyse(files, args)
    return rep, out


@functools.lru_cache(maxsize=1024)
def neutral_report(key):
    files, _, _ = program(dict(key), True)
    rep, out = run(files)
    return rep.summary(), out


def case(item):
    words = dict(item)
    files, expected, still = program(words, False)
    rep, out = run(files)
    got = []
    for m in re.finditer(r'(?m)^(t\.\w+):(\d+):(\d+): warning: (.*)$', out):
        got.append((m.group(1), (int(m.group(2)), int(m.group(3))), m.group(4)))

    def fail(what):
        raise Violation(what, {'files': files, 'expected': expected,
                               'got': got, 'output': out})
    left = list(got)
    for name, at, message in expected:
        hit = [g for g in left if g[0] == name and g[1] == at and
               g[2].startswith(message)]
        if not hit:
            fail('no diagnostic "%s" at %s:%d:%d' % ((message, name) + at))
        left.remove(hit[0])
    if left:
        fail('unwarranted diagnostic: %s:%s: %s' % left[0])
    if 'pragma' in re.sub(r'(?m)^t\.\w+:\d+:\d+: warning: .*$', '', out) and not any(
            'pragma' in l for l in rep.order):
        text = [l for l in out.split('\n') if 'pragma' in l and 'warning' not in l]
        if any('//' not in l for l in text):
            fail('something else is said about pragmas: %s' % text)
    if expected and not still:
        want, base_out = neutral_report(item)
        if rep.summary() != want:
            fail('a rejected pragma has an effect: %s instead of %s' %
                 (rep.summary(), want))
    return len(expected)


def regex_case(item):
    pattern, dialect = item
    files = {'p.h': cxx.guard('p.h', '// IWYU pragma: private, include "pub.h"\n'
                              '// IWYU pragma: friend %s\nstruct P {};\n' %
                              pattern),
             'pub.h': cxx.guard('pub.h', '#include "p.h"\n'),
             't.cc': '#include "pub.h"\nP p;\n'}
    args = ('-Xiwyu', '--regex=' + dialect, '-I.', 't.cc')
    rc, out = box().iwyu(files, args)
    if rc is None or rc < 0:
        raise Violation('a bad friend pattern ends the analysis (signal %s)' %
                        (rc and -rc), {'files': files, 'args': args,
                                       'output': out},
                        key='friend-pattern-%s' % dialect)
    if 'has correct' not in out:
        raise Violation('a bad friend pattern has an effect',
                        {'files': files, 'args': args, 'output': out})
    return 1


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    styles = ('//', '/*')
    items = []

    def add(letters, files=('t.cc',)):
        for f in files:
            items.append(((f, tuple(letters)),))
    every = [letter(k, p, s) for k in CARRIERS for p in PRAGMAS for s in styles]
    plain = [letter(k, p) for k in CARRIERS for p in PLAIN + [None]]
    for l in every + plain:
        add([l], ('t.cc', 't.h'))
    alone = [letter('', p) for p in PRAGMAS]
    i, d, j = letter('i', None), letter('d', None), letter('j', None)
    for a, b in itertools.product(alone + [i, d], repeat=2):
        add([a, b, i, d], ('t.h',) if not deep else ('t.cc', 't.h'))
    for b in BLOCKS:
        for s in styles:
            for l in every + plain:
                add([letter('', b, s), l, letter('', BLOCKS[b]), j])
                add([letter('', b, s), l])
    core = [letter('', p) for p in list(BLOCKS) + list(BLOCKS.values()) +
            ['keep', 'always_keep', 'nonsense', 'no_include "a.h"']] + [
                i, d, letter('i', 'keep'), letter('i', 'export'),
                letter('d', 'keep')]
    for w in itertools.product(core, repeat=3):
        add(w)
    small = [letter('', p) for p in list(BLOCKS) + list(BLOCKS.values())] + [
        letter('i', 'keep'), letter('j', None)]
    for n in (4, 5) if deep else (4,):
        for w in itertools.product(small, repeat=n):
            add(w, ('t.h',))
    # Two files: blocks belong to the file they are in.
    blocks = [letter('', p) for p in list(BLOCKS) + list(BLOCKS.values())] + [i]
    nested = letter('', NESTED)
    for h in itertools.product(blocks, repeat=2):
        for m in itertools.product(blocks, repeat=3 if deep else 2):
            for at in range(len(m) + 1):
                items.append((('t.h', h),
                              ('t.cc', m[:at] + (nested,) + m[at:])))
    items = list(dict.fromkeys(items))
    res = c.explore('words', case, items)
    c.explore('patterns', regex_case, [
        (p, d) for p in ('*.cc', '[', '(', 't.cc)', 'a{1', '+', '*')
        for d in ('llvm', 'ecmascript')])
    c.confirm_binding([(program(dict(i), False)[0], ('-std=c++17', '-I.', 't.cc'))
                       for i in items[::1777]][:8])
    c.sample({'word': items[-1]})
    c.finish(states=len({w for i in items for _, w in i}),
             transitions=len(items), pragmas=len(PRAGMAS), carriers=len(CARRIERS),
             words_rejected=sum(1 for r in res if r))


if __name__ == '__main__':
    main()
