"""C17: typedefs and signatures provide what their author includes.

World 1: every entity that names type A (typedef, alias, alias template, function
and method by return, value or convertible reference) x every prefix of its header
(all ordered selections of: a forward declaration, the defining header, a header
that includes it, a declaration after the entity; the defining header public or
private behind a public one) x every use x every include list of the user.
World 2: a second typedef, function or class in a second header between them.
World 3: a function declared by two headers with different intents.
The model: the entity provides A unless its own file declares A before it and does
not itself include the (public) header of A; the last typedef before A decides.
The records of the providing headers are compared, too.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C17'
A_H = 'struct A { A(); A(int); int m; void f(); A operator+(int); };\n' \
      'struct B { explicit B(int); B(); int m; };\n'
FWD, INC, SEE = 'struct A;', '#include "a.h"', '#include "x.h"'
PUB = '#include "pub.h"'
LATE = 'late'
TYPEDEFS = {'typedef': 'typedef A D;', 'alias': 'using D = A;',
            'const': 'typedef const A D;', 'template': None,
            'member': None}
VALUE_USES = ['D v;', 'int v = sizeof(D);', 'int r(D& x) { return x.m; }',
              'void r(D* x) { x->f(); }', 'D* r() { return new D; }',
              'struct Z : D {};', 'struct Z { D m; };', 'void r(D* x) { delete x; }',
              'void r() { D(); }', 'int v = D(1).m;', 'D v[2];',
              'void r() { try { } catch (D&) { } }',
              'int r(D* x) { return x[1].m; }', 'auto r(D* x) { return *x + 1; }',
              'int D::*v = &D::m;', 'D r() { return 1; }', 'void r(D) {}']
FWD_USES = ['D* v;', 'void r(D&);', 'extern D v;', 'D** v;', 'struct Z { D* m; };']
DEREF = 'int r(D x) { return (*x).m; }'
# kind: (entity, [(use, needs the definition from elsewhere if not provided,
#                  needs it always, needs a declaration)])
CALL = [('void r() { d(); }', 'provided'), ('auto r() { return 1, d(), 2; }',
                                            'provided'),
        ('auto* p = &d;', 'none')]
ENTITIES = {
    'typedef': ('typedef A D;', 'value'),
    'alias': ('using D = A;', 'value'),
    'alias template': ('template <class> using D_ = A;\nusing D = D_<int>;',
                       'value'),
    'pointer typedef': ('typedef A* D;', [
        ('D v;', 'none'), ('int r(D x) { return x->m; }', 'provided'),
        ('void r(D x) { delete x; }', 'provided'), ('D v = nullptr;', 'none'),
        (DEREF, 'provided')]),
    'return': ('A d();', CALL),
    'return const': ('const A d();', CALL),
    'method return': ('struct D { A d(); };', [
        ('void r(D& x) { x.d(); }', 'provided'), ('D v;', 'none')]),
    'static method': ('struct D { static A d(); };', [
        ('void r() { D::d(); }', 'provided')]),
    'inline return': None,
    'return reference': ('A& d();', [
        ('void r() { d(); }', 'none'), ('int r() { return d().m; }', 'always')]),
    'return pointer': ('A* d();', [
        ('void r() { d(); }', 'none'), ('int r() { return d()->m; }', 'always')]),
    'by value': ('void d(A);', [
        ('void r() { d(1); }', 'provided'), ('auto* p = &d;', 'none')]),
    'by const reference': ('void d(const A&);', [
        ('void r() { d(1); }', 'provided'), ('auto* p = &d;', 'none')]),
    'by reference': ('void d(A&);', [('auto* p = &d;', 'none')]),
    'second parameter': ('void d(int, A);', [
        ('void r() { d(1, 2); }', 'provided')]),
    'method parameter': ('struct D { void d(A); };', [
        ('void r(D& x) { x.d(1); }', 'provided')]),
    'operator parameter': ('struct D {};\nvoid operator+(D, const A&);', [
        ('void r(D x) { x + 1; }', 'provided')]),
}
ENTITIES = {k: v for k, v in ENTITIES.items() if v}
# Does the declaration by itself make the file responsible for A?
NEVER = ('return reference', 'return pointer', 'by reference')


def uses(kind):
    u = ENTITIES[kind][1]
    if u == 'value':
        return ([(x, 'provided') for x in VALUE_USES] +
                [(x, 'none') for x in FWD_USES])
    return u


def a_files(private):
    files = {'x.h': '#pragma once\n#include "%s"\n' % ('pub.h' if private else
                                                       'a.h')}
    files['a.h'] = cxx.guard('a.h', ('// IWYU pragma: private, include "pub.h"\n'
                                     if private else '') + A_H)
    if private:
        files['pub.h'] = '#pragma once\n#include "a.h"\n'
    return files, (PUB if private else INC)


def header(prefix, entity, extra=()):
    late = LATE in prefix
    lines = [l for l in prefix if l != LATE]
    return '#pragma once\n' + ''.join(l + '\n' for l in list(extra) + lines) + \
        entity + '\n' + (FWD + '\n' if late else '')


def provides(prefix, right):
    return right in prefix or FWD not in prefix


def own_record(prefix, right, kind):
    """Lines wanted in the header that names A."""
    if kind in NEVER:
        return {FWD}
    if provides(prefix, right):
        return {right}
    return {FWD}


ARGS = ('-std=c++17', '-I.', '-Xiwyu', '--check_also=d.h', '-Xiwyu',
        '--check_also=e.h', 't.cc')


def check(files, wants):
    rc, rep, out = cxx.analyse(files, ARGS)
    cxx.algebra(files, rep, ARGS)
    for f, w in wants.items():
        if f not in rep.files:
            present = {t for t, _ in cxx.lines_of(files[f])}
            if present != w:
                raise Violation('no record for ' + f, {'files': files})
            continue
        cxx.verdict(files, f, rep, w, ARGS)


def user_wants(need, provided, right, lines, via='d.h'):
    w = {'#include "%s"' % via}
    if need == 'always' or need == 'provided' and not provided:
        w.add(right)
    return w


def single(item):
    kind, prefix, private, (use, need), before, after = item
    files, right = a_files(private)
    entity = ENTITIES[kind][0]
    fix = lambda ls: [right if l == INC else l for l in ls]
    prefix, before, after = fix(prefix), fix(before), fix(after)
    files['d.h'] = header(prefix, entity)
    files['t.cc'] = ''.join(l + '\n' for l in before + ['#include "d.h"'] + after
                            ) + use + '\n'
    p = provides(prefix, right)
    wants = {'d.h': own_record(prefix, right, kind),
             't.cc': user_wants(need, p, right, before + after)}
    if use == DEREF and p:
        try:
            check(files, wants)
        except Violation as e:
            # Is it exactly the known one: the definition is wanted as well?
            check(files, {'d.h': wants['d.h'], 't.cc': wants['t.cc'] | {right}})
            raise Violation('a use through `(*x).m` of a pointer typedef that '
                            'provides the class', e.detail,
                            key='deref-of-pointer-typedef')
        return 1
    check(files, wants)
    return 1


# -- chains -------------------------------------------------------------------
# second entity over D (a typedef of A in d.h): (text, uses)
SECOND = {
    'typedef': ('typedef D E;', 'value'), 'alias': ('using E = D;', 'value'),
    'return': ('D e();', [('void r() { e(); }', 'provided')]),
    'by value': ('void e(D);', [('void r() { e(1); }', 'provided')]),
    'by const reference': ('void e(const D&);', [
        ('void r() { e(1); }', 'provided')]),
    'pointer': ('D* e();', [('int r() { return e()->m; }', 'provided'),
                            ('void r() { e(); }', 'none')]),
    'pointer typedef': ('typedef D* E;', [
        ('int r(E x) { return x->m; }', 'provided'), ('E v;', 'none')]),
    'method': ('struct E { D e(); };', [('void r(E& x) { x.e(); }', 'provided')]),
    'member pointer': ('struct E { D* p; };', [
        ('int r(E& x) { return x.p->m; }', 'provided'), ('E v;', 'none')]),
    'variable': ('extern D e;', [('int v = e.m;', 'provided'),
                                 ('D* r() { return &e; }', 'D')]),
}


def second_uses(kind):
    u = SECOND[kind][1]
    if u == 'value':
        import re
        return ([(re.sub(r'\bD\b', 'E', x), 'provided') for x in VALUE_USES] +
                [(re.sub(r'\bD\b', 'E', x), 'none') for x in FWD_USES])
    return u


def chain(item):
    first, dp, second, ep, (use, need), after = item
    files, right = a_files(False)
    files['d.h'] = header(dp, ENTITIES[first][0])
    files['e.h'] = header(ep, SECOND[second][0], ['#include "d.h"'])
    files['t.cc'] = ''.join(l + '\n' for l in ('#include "e.h"',) + after) + \
        use + '\n'
    p = provides(dp, right)
    want = user_wants(need, p, right, after, 'e.h')
    if need == 'D':
        want.add('#include "d.h"')
    # What e.h includes beside d.h is not used there.
    check(files, {'d.h': own_record(dp, right, first), 'e.h': {'#include "d.h"'},
                  't.cc': want})
    return 1


# -- two declarations ---------------------------------------------------------
def redeclared(item):
    entity, use, dp, ep, order, after = item
    files, right = a_files(False)
    files['d.h'] = header(dp, entity)
    files['e.h'] = header(ep, entity)
    files['t.cc'] = ''.join('#include "%s"\n' % o for o in order) + ''.join(
        l + '\n' for l in after) + use + '\n'
    rc, rep, out = cxx.analyse(files, ARGS)
    cxx.algebra(files, rep, ARGS)
    seen = [dp if o == 'd.h' else ep for o in order]
    p = any(provides(x, right) for x in seen)
    f = rep.files['t.cc']
    rm = {(t, a) for t, a, _ in f.remove}
    left = {t for t, n in cxx.lines_of(files['t.cc']) if (t, n) not in rm}
    got = left | set(f.adds())
    if (right in got) == p:
        raise Violation('t.cc: a.h is %s' % ('wrongly wanted' if p else 'missing'),
                        {'files': files, 'report': f.summary()})
    return 1


# -- overriding functions --------------------------------------------------------
OVERRIDDEN = {
    'return': ('virtual A get(); virtual ~%s();', 'A get() override;',
               'void r(%s& x) { x.get(); }'),
    'const': ('virtual A get() const; virtual ~%s();', 'A get() const override;',
              'void r(const %s& x) { x.get(); }'),
}


def override(item):
    """The declaration that is overridden decides, not the overriding one."""
    kind, bp, dp, levels, user, after = item
    files, right = a_files(False)
    base, over, use = OVERRIDDEN[kind]
    files['d.h'] = header(bp, 'struct D { %s };' % (base % 'D'))
    files['e.h'] = header(dp, 'struct E : D { %s };' % over, ['#include "d.h"'])
    names = ['D', 'E', 'F'][:levels]
    if levels == 3:
        files['f.h'] = header((FWD,), 'struct F : E { %s };' % over,
                              ['#include "e.h"'])
    top = {'D': 'd.h', 'E': 'e.h', 'F': 'f.h'}
    files['t.cc'] = '#include "%s"\n' % top[names[-1]] + ''.join(
        l + '\n' for l in after) + use % user + '\n'
    rc, rep, out = cxx.analyse(files, ARGS)
    cxx.algebra(files, rep, ARGS)
    f = rep.files['t.cc']
    rm = {(t, a) for t, a, _ in f.remove}
    left = {t for t, n in cxx.lines_of(files['t.cc']) if (t, n) not in rm}
    got = left | set(f.adds())
    p = provides(bp, right)
    if (right in got) == p:
        raise Violation('t.cc: a.h is %s' % ('wrongly wanted' if p else 'missing'),
                        {'files': files, 'report': f.summary()})
    return 1


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    pre = [p for n in range(1, 4 if deep else 3)
           for p in itertools.permutations((FWD, INC, SEE), n)]
    late = [(INC, LATE), (SEE, LATE)]
    lists = [((), ()), ((INC,), ()), ((), (INC,)), ((), (SEE,)), ((SEE,), ())]
    if deep:
        lists += [((), (INC, SEE)), ((SEE,), (INC,)), ((), (SEE, FWD)),
                  ((FWD,), (SEE,)), ((), (SEE, SEE))]
    else:
        lists += [((), (SEE, INC))]
    items = []
    for kind in ENTITIES:
        for u in uses(kind):
            for p in pre + late:
                if p in late and kind in NEVER:
                    continue    # (a late declaration does not help here)
                for private in (False, True):
                    for b, a in lists:
                        # A must be complete where a definition is needed.
                        if not ({INC, SEE} & (set(p) | set(b) | set(a))):
                            continue
                        items.append((kind, p, private, u, b, a))
    c.explore('single', single, items)
    chains = [(first, dp, s, ep, u, after)
              for first in ('typedef', 'alias', 'alias template')
              for dp in pre for s in SECOND
              for ep in [()] + (pre if deep else pre[:3] + pre[3:5])
              for u in second_uses(s)
              for after in ((SEE,), (INC,)) + (((SEE, INC),) if deep else ())
              if deep or first == 'typedef' or ep in ((), (FWD,), (INC,))]
    c.explore('chains', chain, chains)
    reds = [(e, u, dp, ep, o, after)
            for e, u in (('void d(A);', 'void r() { d(1); }'),
                         ('void d(const A&);', 'void r() { d(1); }'),
                         ('void d(int, const A&);', 'void r() { d(1, 2); }'))
            for dp in pre for ep in pre
            for o in (('d.h', 'e.h'), ('e.h', 'd.h'), ('d.h',), ('e.h',))
            for after in ((SEE,), (INC,))]
    c.explore('redeclared', redeclared, reds)
    overs = [(k, bp, dp, n, u, after) for k in OVERRIDDEN for bp in pre
             for dp in [()] + pre for n in (2, 3) for u in 'DEF'[:n]
             for after in ((SEE,), (INC,))]
    c.explore('overriding', override, overs)
    files, right = a_files(True)
    files.update({'d.h': header((FWD, PUB), 'typedef A D;'),
                  'e.h': header((FWD,), 'typedef D E;', ['#include "d.h"']),
                  't.cc': '#include "e.h"\nE v;\n'})
    c.confirm_binding([(files, ARGS)])
    c.sample(files)
    c.finish(states=len(pre) * len(ENTITIES) * 2,
             transitions=len(items) + len(chains) + len(reds) + len(overs),
             entities=len(ENTITIES), second_entities=len(SECOND))


if __name__ == '__main__':
    main()
