"""C16: macros count as uses of the headers that define them.

World 1 (histories): all histories of up to three (deep: four) preprocessor events
on one macro - definition, removal, expansion, tests, mention in another macro -
over an associated header and a source file, with every way to include the header
that defines it.  The model is the automaton of the macro's current definition.
World 2 (forms): every syntactic form of using and not using a macro x all
include lists x both files.
World 3 (symbols): every way for a symbol to get into an expansion (body,
argument, concatenation, through a second macro) x the file that defines the macro
x the file that expands it x what is included and declared there; the records of
all four files are compared.
World 4 (reverse): headers whose macros are defined by their includers.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C16'
BATCH = 25
STD = ('-std=c++23', '-I.')
D = '#include "d.h"'
W = '#include "w.h"'

# -- world 1 ------------------------------------------------------------------
# event -> text; "@" is replaced by a number.
EVENTS = {
    'undef': '#undef M', 'def': '#define M 1', 'expand': 'int v@ = M;',
    'ifdef': '#ifdef M\n#endif', 'ifndef': '#ifndef M\n#endif',
    'defined': '#if defined(M)\n#endif', 'if': '#if M\n#endif',
    'elifdef': '#if 0\n#elifdef M\n#endif',
    'default': '#ifndef M\n#define M 1\n#endif', 'body': '#define B@ M',
    'redef': '#undef M\n#define M 1',
}


def step(state, event, here):
    """(new state, is this a use of the definition `state`?, possible?)"""
    if event == 'undef':
        return None, False, True
    if event == 'redef':
        return here, False, True
    if event == 'def':
        return here, False, True
    if event == 'default':
        return (state or here), True, True
    if event == 'expand':
        return state, True, state is not None
    return state, True, True


def histories(depth):
    lines = [(), (W,), (D,), (W, D), (D, W)]
    for hl, cl in itertools.product(lines, [(), (W,), (D,), (W, D)]):
        for first in ('t.h', 'rest'):
            for cmd in (False, True):
                few = len(hl) + len(cl) <= 1 and not (cmd and hl + cl)
                for n in range(1, depth + 1 + few):
                    for k in range(n + 1):
                        for he in itertools.product(EVENTS, repeat=k):
                            for ce in itertools.product(EVENTS, repeat=n - k):
                                yield hl, cl, first, cmd, he, ce


def run_history(item):
    """(files, args, {file: desired lines}) or None when it does not compile."""
    hl, cl, first, cmd, he, ce = item
    state = 'cmd' if cmd else None
    seen = set()
    uses = {'t.h': set(), 't.cc': set()}
    todo = []
    own = ['#include "t.h"'] + list(cl) if first == 't.h' else \
        list(cl) + ['#include "t.h"']
    for l in own:
        if l == '#include "t.h"':
            todo += [('t.h', x) for x in list(hl) + list(he)]
        else:
            todo.append(('t.cc', l))
    todo += [('t.cc', e) for e in ce]
    for f, x in todo:
        if x in (D, W):
            if 'd.h' not in seen:
                seen.add('d.h')
                state = 'd.h'      # the same definition again is allowed
            continue
        new, use, possible = step(state, x, f)
        if not possible:
            return None
        if use and state:
            uses[f].add(state)
        state = new
    text = {}
    for f, events in (('t.h', he), ('t.cc', ce)):
        text[f] = ''.join(EVENTS[e].replace('@', f[-1] + str(i)) + '\n'
                          for i, e in enumerate(events))
    files = {'d.h': cxx.guard('d.h', '#define M 1\n'),
             'w.h': '#pragma once\n#include "d.h"\n',
             't.h': '#pragma once\n' + ''.join(l + '\n' for l in hl) + text['t.h'],
             't.cc': ''.join(l + '\n' for l in own) + text['t.cc']}
    want_h = {D} if 'd.h' in uses['t.h'] else set()
    want_c = {'#include "t.h"'}
    if 'd.h' in uses['t.cc'] and (not want_h or D in cl):
        want_c.add(D)
    # What the header lets its includer define stays possible.
    if 't.cc' in uses['t.h']:
        want_c.add('#include "t.h"')
    args = STD + (('-DM=1',) if cmd else ()) + ('t.cc',)
    return files, args, {'t.h': want_h, 't.cc': want_c}


def history(items):
    """Several histories with headers and macros of their own in one run."""
    files = {'t.h': '', 't.cc': ''}
    want = {'t.h': set(), 't.cc': {'#include "t.h"'}}
    args = list(STD)
    inc = '#include "t.h"'
    parts = {'t.h': ['', ''], 't.cc': ['', '', '']}
    for i, item in enumerate(items):
        fs, ar, w = run_history(item)

        def own(text):
            text = re.sub(r'\b([dw])\.h', r'\g<1>%d.h' % i, text)
            text = re.sub(r'\bM\b', 'M%d' % i, text)
            return re.sub(r'\b([vB])([hc]\d)', r'\g<1>%d\g<2>' % i, text)
        hl, cl, first, cmd, he, ce = item
        files['d%d.h' % i] = cxx.guard('d%d.h' % i, own('#define M 1\n'))
        files['w%d.h' % i] = own(fs['w.h'])
        head = fs['t.h'].split('\n', 1)[1]
        parts['t.h'][0] += own(head)
        pre, post = fs['t.cc'].split(inc + '\n')
        parts['t.cc'][0] += own(pre)
        parts['t.cc'][1] += own(post)
        for f in want:
            want[f] |= {own(l) for l in w[f]}
        if cmd:
            args.append('-DM%d=1' % i)
    files['t.h'] = '#pragma once\n' + parts['t.h'][0]
    files['t.cc'] = parts['t.cc'][0] + inc + '\n' + parts['t.cc'][1]
    args.append('t.cc')
    try:
        rc, rep, out = cxx.analyse(files, args)
        cxx.algebra(files, rep, args)
        for f in want:
            cxx.verdict(files, f, rep, want[f], args)
    except Violation:
        if len(items) > 1:
            for item in items:
                history([item])
        raise
    return len(items)


def batches(items):
    groups = {}
    for h in items:
        groups.setdefault(h[2], []).append(h)
    for g in groups.values():
        for i in range(0, len(g), BATCH):
            yield g[i:i + BATCH]


# -- world 2 ------------------------------------------------------------------
TABLE = ('#define M 1\n#define M2 2\n#define F(x) x\n#define H "z.h"\n'
         '#define E\n#define G() 4\n')
# (text, needs d.h, needs z.h)
FORMS = [(t, True, False) for t in (
    'int v = M;', 'int v = F(1);', 'int v = F (1);', 'int v = F(\n1);',
    'int v = G();', 'E int v;', 'int v = (M);', 'int v[M];', 'int v = -M;',
    '#ifdef M\n#endif', '#ifndef M\n#endif', '#if defined(M)\n#endif',
    '#if defined M\n#endif', '#if !defined(M)\n#endif', '#if M\n#endif',
    '#if M == 1\n#endif', '#if F(1)\n#endif', '#if defined(F)\n#endif',
    '#ifdef F\n#endif', '#ifdef E\n#endif',
    '#if 0\n#elif M\n#endif', '#if 0\n#elif defined(M)\n#endif',
    '#if 0\n#elifdef M\n#endif', '#if 0\n#elifndef M\n#endif',
    '#if 0 && M\n#endif', '#if 1 || M\n#endif', '#if 1\n#ifdef M\n#endif\n#endif',
    '#if 0\n#else\nint v = M;\n#endif',
    '#define L(x) x\nint v = L(M);', '#define L(x) x(3)\nint v = L(F);',
    '#define L(...) __VA_ARGS__\nint v = L(M);',
    '#define L(x, ...) x\nint v = L(M, 2);',
    '#define L M', '#define L F(1)', '#define L(x) F(x)', '#define L G()',
    '#define L F\nint v = L(2);', '#define L(x) #x M', '#define L (M)',
    '#define L defined(M)\n#if L\n#endif',
    '#ifndef M\n#define M 2\n#endif\nint v = M;', '#ifndef M\n#define M 2\n#endif',
    '#define C(a,b) a##b\nint v = C(M,2);',
    '#define C(a,b) a##b\n#define D2(a,b) C(a,b)\nint v = D2(M,2);',
    'template <int N = M> struct Q {};', 'void f(int x = M);', 'enum { e = M };',
    'static_assert(M);', 'struct S { int b : M; };', '#line 9\nint v = M;',
    'int v =\n#ifdef M\n1\n#endif\n;', 'int f() { return M; }',
    'inline int g() { return F(F(1)); }', '#if 1 + M\n#endif',
    'int v = M; // M', '[[maybe_unused]] E static int v;',
    'alignas(8 * M) int v;', '_Pragma("GCC poison notM") int v = M;')]
FORMS += [(t, True, True) for t in ('#include H',)]
FORMS += [(t, True, False) for t in ('#if __has_include(H)\n#endif',)]
FORMS += [(t, False, False) for t in (
    'int v;', 'int F;', 'int F = 2;', 'namespace F {}', 'const char* s = "M";',
    'char c = \'M\';', '// M', '/* F(1) */', 'int notM;', 'int M_;',
    '#define S(x) #x\nconst char* s = S(M);', 'const char* s = R"(M)";',
    '#if 0\nint v = M;\n#endif', '#if 1\n#else\nint v = M;\n#endif',
    '#if 1\n#elif M\n#endif', '#if 1\n#elifdef M\n#endif',
    '#if 1\n#elifndef M\n#endif', '#if 0\n#if M\n#endif\n#endif',
    '#if 0\n#ifdef M\n#endif\n#endif', '#if 0\n#elif 1\n#elif M\n#endif',
    '#if 0\n#define L M\n#endif', '#if 0\n#include H\n#endif',
    '#define L F', '#define L(x) #x', '#define L G', '#define L "M"',
    '#define L(M) M\nint v = L(2);', '#define L(M) #M', '#define L(F) F(1)',
    '#define L(E, M) E\nint v = L(1, 2);', '#define L M_',
    '#undef M', '#undef F', '#undef M\n#define M 2\nint v = M;', '#define M 1',
    '#undef M\n#ifdef M\n#endif', '#undef M\n#if M\n#endif',
    '#undef F\n#define F(x) 2\nint v = F(1);',
    '#undef M\n#define L M', '#pragma M', '#ifdef XM\n#endif',
    '#if defined(XM)\n#endif', '#if XM\n#endif')]
LINES = (D, W, '#include "z.h"', '#include "n.h"')


def form(item):
    """The form in t.cc or in t.h after all include lines."""
    (text, d, z), where, lines = item
    body = ''.join(l + '\n' for l in lines)
    files = {'d.h': cxx.guard('d.h', TABLE), 'w.h': '#pragma once\n' + D + '\n',
             'z.h': '#pragma once\n', 'n.h': '#pragma once\nint n();\n'}
    if where == 't.cc':
        files['t.cc'] = body + text + '\n'
        f = 't.cc'
    else:
        files['t.cc'] = '#include "t.h"\n'
        files['t.h'] = '#pragma once\n' + body + text + '\n'
        f = 't.h'
    args = STD + ('t.cc',)
    rc, rep, out = cxx.analyse(files, args)
    want = {D} if d else set()
    if not z:
        cxx.algebra(files, rep, args)
        cxx.verdict(files, f, rep, want, args)
    else:
        # The line "#include H" is no line our reader understands; the header it
        # names is unused, but d.h must be there.
        r = rep.files[f]
        got = {t for t, _ in cxx.lines_of(files[f])} - {t for t, _, _ in r.remove}
        if D not in got | set(r.adds()):
            raise Violation('%s: no include of d.h' % f, {
                'files': files, 'report': r.summary()})
    if f == 't.h':
        cxx.verdict(files, 't.cc', rep, {'#include "t.h"'}, args)
    return 1


# -- world 3 ------------------------------------------------------------------
A_H = ('struct A { int m; enum { e }; };\nvoid fa(int);\n'
       'template <class X> struct T { X m; };\n#define MA 1\nenum class K : int { k };\nenum { eu };\n'
       'template <class X> X ft(X x) { return x; }\n')
# kind: (use with hole for the name, name, suffix for pasting, is fwd use)
KINDS = {
    'value': ('@ vv;', 'A', False), 'size': ('int vv = sizeof(@);', 'A', False),
    'pointer': ('@* vv;', 'A', True), 'ref': ('void gg(@&);', 'A', True),
    'call': ('void gg() { @(1); }', 'fa', False),
    'address': ('auto vv = &@;', 'fa', False),
    'member': ('int vv = A::e;', None, False),
    'enumerator': ('int vv = @;', 'eu', False),
    'macro': ('int vv = @;', 'MA', False),
    'template': ('@<int> vv;', 'T', False),
    'cast': ('auto* vv = (@*)nullptr;', 'A', True),
    'new': ('void gg() { new @; }', 'A', False),
    'base': ('struct vv : @ {};', 'A', False),
    'function template': ('int vv = @(1);', 'ft', False),
    'scoped': ('@* vv;', 'K', True),
}
DECL = {'A': 'struct A;', 'K': 'enum class K : int;'}


def shapes(kind):
    text, name, _ = KINDS[kind]
    full = text.replace('@', name or '')
    res = {'body': (['#define X ' + full], 'X'),
           'body()': (['#define X() ' + full], 'X()'),
           'two bodies': (['#define X Y', '#define Y ' + full], 'X')}
    if name:
        res.update({
            'all of it': (['#define X(...) __VA_ARGS__'], 'X(%s)' % full),
            'nested argument': (['#define X(t) t'], 'X(X(%s))' % full),
        })
    if name and kind not in ('value', 'template'):
        # (A variable is constructed where its name is, a symbol of the body.)
        hole = text.replace('@', 't')
        res.update({
            'argument': (['#define X(t) ' + hole], 'X(%s)' % name),
            'passed on': (['#define X(t) Y(t)', '#define Y(t) ' + hole],
                          'X(%s)' % name),
            'body to argument': (['#define X Y(%s)' % name, '#define Y(t) ' + hole],
                                 'X'),
            'pasted': (['#define X(a, b) ' + text.replace('@', 'a##b')],
                       'X(%s, %s)' % (name[:1], name[1:])),
        })
    return res


def responsible(shape, kind, where_x, where_y, user, hint):
    """(file charged with the symbol, does the hint's declaration stay?)"""
    if shape in ('all of it', 'argument', 'passed on', 'nested argument'):
        return user
    if shape == 'pasted':
        return user
    if shape == 'body to argument':
        return where_x
    if shape == 'two bodies':
        return where_y
    return where_x


def symbols(item):
    kind, shape, where_x, where_y, user, minc, hint, tinc = item
    text, name, fwd = KINDS[kind]
    defs, use = shapes(kind)[shape]
    two = len(defs) == 2
    files = {'a.h': cxx.guard('a.h', A_H), 'x.h': '#pragma once\n#include "a.h"\n'}
    order = ['n.h', 'm.h', 't.h', 't.cc']
    incs = {f: [] for f in order}
    incs['t.h'] += list(tinc)
    incs['t.cc'].append('#include "t.h"')
    incs['m.h'] += list(minc)
    body = {f: '' for f in order}
    body[where_x] += defs[0] + '\n'
    if two:
        body[where_y] += defs[1] + '\n'
        if where_y != where_x and where_y == 'n.h':
            incs[where_x].append('#include "n.h"')
    if where_x == 'm.h':
        incs['t.h' if user == 't.h' else 't.cc'].append('#include "m.h"')
    if hint:
        body[where_x] = DECL['A'] + '\n' + body[where_x]
    body[user] += use + '\n'
    for f in order:
        files[f] = ('' if f == 't.cc' else '#pragma once\n') + ''.join(
            l + '\n' for l in incs[f]) + body[f]
    # The model.
    full = {f: set() for f in order}
    fwds = {f: set() for f in order}
    stay = {f: set() for f in order}
    charged = responsible(shape, kind, where_x, where_y, user, hint)
    sym = 'A' if kind == 'member' else name
    if hint and charged != user and charged == where_x and sym == 'A':
        charged = user
        stay[where_x].add(DECL['A'])
    if fwd:
        fwds[charged].add(DECL[sym])
    else:
        full[charged].add('#include "a.h"')
    if where_x == 'm.h':
        full[user].add('#include "m.h"')
    if two and where_y != where_x:
        full[where_x].add('#include "%s"' % where_y)
    want = {}
    for f in ('n.h', 'm.h', 't.h'):
        want[f] = set(full[f])
    t = want['t.cc'] = {'#include "t.h"'}
    present = set(incs['t.cc'])
    t |= {l for l in full['t.cc'] if l in present or l not in want['t.h']}
    t.discard('#include "t.cc"')
    for f in order:
        # A definition among the desired headers satisfies a declaration.
        if '#include "a.h"' in want[f]:
            continue
        if f == 't.cc' and (want['t.h'] & (fwds[f] | {'#include "a.h"'})):
            continue
        want[f] |= fwds[f] | stay[f]
    for f in order:
        want[f].discard('#include "%s"' % f)
    return files, want, order


SARGS = STD + ('-Xiwyu', '--check_also=m.h', '-Xiwyu', '--check_also=n.h', 't.cc')


def symbol(item):
    files, want, order = symbols(item)
    rc, rep, out = cxx.analyse(files, SARGS)
    cxx.algebra(files, rep, SARGS)
    for f in order:
        if f in ('t.h', 't.cc') or f in rep.files:
            cxx.verdict(files, f, rep, want[f], SARGS)
        elif want[f]:
            raise Violation('no record for ' + f, {'files': files})
    return 1


def symbol_items(deep):
    X = '#include "x.h"'
    A = '#include "a.h"'
    for kind in KINDS:
        for shape, (defs, use) in shapes(kind).items():
            for wx in ('m.h', 't.h', 't.cc'):
                for user in ('t.h', 't.cc'):
                    if wx == 't.cc' and user == 't.h':
                        continue
                    wys = ['n.h', wx] if len(defs) == 2 else [wx]
                    for wy in wys:
                        for minc in (((), (A,), (X,), (A, X)) if wx == 'm.h'
                                     else ((),)):
                            for hint in (False, True):
                                if hint and KINDS[kind][1] != 'A':
                                    continue
                                tincs = [(X,), (A,), (X, A), (A, X)]
                                if deep:
                                    tincs += [(W, X), (X, W), (X, X), (A, A)]
                                for tinc in tincs:
                                    yield (kind, shape, wx, wy, user, minc,
                                           hint, tinc)


# -- world 4 ------------------------------------------------------------------
RUSES = {'int r = M;': True, '#ifdef M\n#endif': True, '#if M\n#endif': True,
         '#ifndef M\n#define M 2\n#endif': True, '': False, '#undef M': False,
         '#if 0\nint r = M;\n#endif': False, '#define S_(x) #x': False}
VIS = {'plain': '', 'private': '// IWYU pragma: private\n',
       'mapped': '// IWYU pragma: private, include "q.h"\n', 'public': ''}


def reverse(item):
    """r.h uses a macro that one of its includers may have defined before."""
    definers, use, vis, lines, used = item
    files = {'r.h': cxx.guard('r.h', VIS[vis] + use + '\nstruct S { int m; };\n')}
    files['q.h'] = '#pragma once\n#include "r.h"\n'
    files['p.h'] = '#pragma once\n%s#include "r.h"\n' % (
        '#define M 1\n' if 'p.h' in definers else '')
    files['t.cc'] = ''.join('#include "%s"\n' % l for l in lines)
    if 't.cc' in definers:
        files['t.cc'] = '#define M 1\n' + files['t.cc']
    files['t.cc'] += 'S v;\n' if used else ''
    args = STD
    if vis == 'public':
        files['m.imp'] = ('[{"include": ["\\"x.h\\"", "private", '
                          '"\\"r.h\\"", "public"]}]')
        args += ('-Xiwyu', '--mapping_file=m.imp')
    args += ('t.cc',)
    state = 't.cc' if 't.cc' in definers else None
    for l in lines:
        if l == 'p.h' and 'p.h' in definers:
            state = 'p.h'
        break
    if state is None and use.startswith('int'):
        return 0        # does not compile
    user = state if RUSES[use] else None
    cands = {'plain': ['r.h'], 'private': [], 'mapped': ['q.h'],
             'public': ['r.h']}[vis]
    if user == 'p.h' and vis != 'public':
        cands = ['p.h'] + [x for x in cands if x != 'r.h']
    if not cands:
        cands = ['r.h']
    need = [set()]
    if used:
        here = [x for x in cands if x in lines]
        need = [{x} for x in (here or cands)]
    keep = {'r.h'} if user == 't.cc' and 'r.h' in lines else set()
    wants = [{'#include "%s"' % x for x in n | keep} for n in need]
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    for w in wants[:-1]:
        try:
            cxx.verdict(files, 't.cc', rep, w, args)
            return 1
        except Violation:
            pass
    cxx.verdict(files, 't.cc', rep, wants[-1], args)
    return 1


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    hist = [h for h in histories(3 if deep else 2) if keep_history(h, deep)]
    done = c.explore('histories', history, list(batches(hist)))
    forms = [(f, w, l) for f in FORMS for w in ('t.cc', 't.h')
             for l in cxx.ordered_subsets(LINES, 4 if deep else 2)
             if D in l or W in l]
    c.explore('forms', form, forms)
    syms = list(symbol_items(deep))
    c.explore('symbols', symbol, syms)
    revs = [(d, u, v, l, x) for d in cxx.subsets(('t.cc', 'p.h')) for u in RUSES
            for v in VIS for l in cxx.ordered_subsets(('p.h', 'r.h', 'q.h'))
            if l for x in (False, True)]
    c.explore('reverse', reverse, revs)
    c.confirm_binding([(run_history(h)[0], run_history(h)[1]) for h in hist
                       if run_history(h)][:6] +
                      [(symbols(s)[0], SARGS) for s in syms[::311]][:6])
    c.sample({k: v for k, v in symbols(syms[-1])[0].items()})
    c.finish(states=len(hist), transitions=sum(len(h[4]) + len(h[5])
                                               for h in hist),
             histories=sum(r or 0 for r in done), forms=len(forms),
             symbol_programs=len(syms))


def keep_history(h, deep):
    return run_history(h) is not None


if __name__ == '__main__':
    main()
