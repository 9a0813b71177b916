"""C02: a use that needs only a declaration asks for no more than that.

World: types of every forward-declarable kind, defined in headers that the file
includes, includes indirectly or only declares, in every order; one to three uses
of one or two types.  The model is a small lattice: declaration uses, typedef
uses (full unless the author declared the type himself and does not include it)
and full uses; the maximum over the uses of a type decides between its header,
a forward declaration and nothing.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C02'
ARGS = ('-std=c++17', 't.cc')
# type as used -> (definition, forward declaration as printed)
TYPES = {
    'S': ('struct S { int m; void f(); };', 'struct S;'),
    'K': ('class K { public: int m; void f(); };', 'class K;'),
    'W': ('union W { int m; void f(); };', 'union W;'),
    'T<int>': ('template <typename X> struct T { X m; void f() {} };',
               'template <typename X> struct T;'),
    'V<int, 1>': ('template <typename X, int I> class V { public: X m; '
                  'void f() {} };', 'template <typename X, int I> class V;'),
    'n::S': ('namespace n { struct S { int m; void f(); }; }',
             'namespace n { struct S; }'),
    'n::k::Z': ('namespace n { namespace k { class Z { public: int m; void f(); '
                '}; } }', 'namespace n { namespace k { class Z; } }'),
    'n::T<int*>': ('namespace n { template <typename X> struct T { X m; '
                 'void f() {} }; }',
                 'namespace n { template <typename X> struct T; }'),
    'O': ('enum O : int { o1 };', 'enum O : int;'),
    'Q': ('enum class Q { q1 };', 'enum class Q;'),
}
ENUMS = ('O', 'Q')
DECL = {
    'pointer': 'X* a@;', 'extern pointer': 'extern X* a@;',
    'reference parameter': 'void r@(X&);', 'rvalue reference': 'void r@(X&&);',
    'pointer parameter': 'void r@(const X*);',
    'value parameter of declaration': 'void r@(X);',
    'reference parameter of definition': 'void r@(const X&) {}',
    'returned pointer': 'X* r@();', 'returned value of declaration': 'X r@();',
    'pointer function': 'X* r@(X* p) { return p; }',
    'field pointer': 'struct D@ { X* p; };',
    'field reference': 'struct D@ { X& p; };',
    'method parameter': 'struct D@ { void m(X); };',
    'method result': 'struct D@ { X m(); };',
    'virtual method': 'struct D@ { virtual X m(X); };',
    'extern value': 'extern X a@;', 'static field': 'struct D@ { static X s; };',
    'pointer through template': 'template <class Y> struct L@ { Y* p; }; '
    'L@<X> a@;',
    'function template on pointer': 'template <class Y> void l@(Y*) {} '
    'void r@(X* p) { l@(p); l@<X>(p); }',
    'reinterpret_cast': 'void r@(void* p) { (void)reinterpret_cast<X*>(p); }',
    'static_cast': 'void r@(void* p) { (void)static_cast<X*>(p); }',
    'C cast': 'void r@(void* p) { (void)(X*)p; }',
    'equality': 'bool r@(X* p, X* q) { return p == q || !p; }',
    'relation': 'bool r@(X* p, X* q) { return p < q; }',
    'pointer to pointer': 'X** a@;', 'array of pointers': 'X* a@[3];',
    'lambda parameter': 'auto l@ = [](X*) {};',
    'passing a pointer': 'void q@(X*); void r@(X* p) { q@(p); }',
    'passing a reference': 'void q@(X&); void r@(X* p) { q@(*p); }',
    'dereference': 'X& r@(X* p) { return *p; }',
    'conditional': 'X* r@(X* p, X* q, bool b) { return b ? p : q; }',
    'assignment': 'void r@(X* p, X* q) { p = q; }',
    'pointer to pointer arithmetic': 'X** r@(X** p) { return p + 1; }',
    'pointer to pointer increment': 'X** r@(X**& p) { return ++p; }',
    'subscript of pointers': 'X* r@(X** p) { return p[1]; }',
    'integer arithmetic nearby': 'int r@(X*, int i) { return ++i + 1; }',
    'sizeof pointer': 'int a@ = sizeof(X*);',
    'static pointer': 'struct D@ { static X* s; };',
    'decltype': 'extern X* e@; decltype(e@) d@;',
    'conversion to void': 'void* r@(X* p) { return p; }',
    'address of reference': 'void r@(X& p) { X* q = &p; (void)q; }',
    'local pointer': 'void r@() { X* p = nullptr; (void)p; }',
    'new array of pointers': 'void r@() { X** p = new X*[3]; delete[] p; }',
    'constant pointer': 'X* const a@ = nullptr;',
    'variadic': 'template <class... Y> struct L@ {}; L@<X, int> a@;',
    'trailing result': 'auto r@() -> X*;',
    'static assertion': 'static_assert(sizeof(X*) > 1, "");',
    'condition declaration': 'void r@(X* p) { if (X* q = p) (void)q; }',
    'friend function': 'struct D@ { friend void g@(X*); };',
    'constructor parameter': 'struct D@ { D@(X*); explicit D@(X&, int); };',
    'default argument': 'void r@(X* = nullptr);',
    'operator': 'struct D@ {}; D@ operator+(D@, X&);',
    'conversion operator': 'struct D@ { operator X*(); };',
    'non-type parameter': 'template <X* Y> struct L@ {};',
    'initialiser list': 'X* a@[] = {nullptr};',
    'union field': 'union D@ { X* p; int i; };',
    'inside a namespace': 'namespace z@ { X* a; }',
    'C linkage': 'extern "C" { void r@(X*); }',
    'null result': 'X* r@() { return nullptr; }',
    'volatile': 'void r@(volatile X*);',
    'this field': 'struct D@ { X* p; X* g() { return this->p; } };',
    'range over pointers': 'void r@(X* (&p)[2]) { for (X* q : p) (void)q; }',
    'const_cast': 'X* r@(const X* p) { return const_cast<X*>(p); }',
    'new with argument': 'struct D@ { D@(X*) {} }; '
    'D@* r@(X* p) { return new D@(p); }',
    'specialisation for it': 'template <class Y> struct L@ {}; '
    'template <> struct L@<X> {};',
    'deleted function': 'void r@(X*) = delete;',
    'noexcept': 'void r@(X*) noexcept;',
    'capture of pointer': 'void r@(X* p) { auto l = [p] { return p; }; (void)l; }',
    'auto pointer': 'void r@(X* p) { auto q = p; (void)q; }',
    'comma': 'X* r@(X* p) { return (p, p); }',
    'switch free loop': 'void r@(X* p) { for (X* q = p; q; ) break; }',
}
TYPEDEF = {
    'typedef': 'typedef X* P@;', 'alias': 'using P@ = X*;',
    'typedef of value': 'typedef X P@;', 'function type': 'typedef void (*P@)(X);',
    'alias template': 'template <class Y> using P@ = X*;',
    'template default': 'template <class Y = X> struct L@ {};',
    'member alias': 'struct D@ { using P = X*; P p; };',
}
FULL = {
    'value': 'X a@;', 'sizeof': 'int a@ = sizeof(X);',
    'member': 'bool r@(X* p) { return p->m == 0; }', 'base': 'struct D@ : X {};',
    'value parameter': 'void r@(X) {}', 'arithmetic': 'X* r@(X* p) { return p + 1; }',
}
NEED = dict([(k, 'decl') for k in DECL] + [(k, 'typedef') for k in TYPEDEF] +
            [(k, 'full') for k in FULL])
# In a header, the author of such a declaration provides the result type, too.
RESULT = ('returned value of declaration', 'method result', 'virtual method')


def need_of(t, k, header):
    if t in ENUMS and NEED[k] == 'full':
        return 'decl'            # an opaque declaration is a complete type
    return 'typedef' if header and k in RESULT else NEED[k]


TEXT = dict(DECL, **TYPEDEF)
TEXT.update(FULL)


def model(lines, homes, uses, order):
    """What a file with these lines and uses should have.

    lines: present includes/declarations, in order, as ('inc', header) or
    ('fwd', type) or ('other', header); homes: type -> header that defines it;
    uses: [(type, need)]; order: for each use, the lines before it."""
    direct = {h for k, h in lines if k == 'inc'}
    want = set()
    declare = {}
    for (t, need), before in zip(uses, order):
        if need == 'typedef':
            relaxed = ('fwd', t) in before and homes[t] not in direct
            need = 'decl' if relaxed else 'full'
        if need == 'full':
            want.add(homes[t])
        declare.setdefault(t, set()).add(need)
    return ({'#include "%s"' % h for h in want} |
            {TYPES[t][1] for t in declare if homes[t] not in want})


def sources(homes):
    files = {}
    for h in set(homes.values()):
        files[h] = cxx.guard(h, ''.join(TYPES[t][0] + '\n' for t in sorted(homes)
                                        if homes[t] == h))
    files['x.h'] = cxx.guard('x.h', ''.join('#include "%s"\n' % h
                                            for h in sorted(set(homes.values()))))
    return files


def line(x):
    return {'inc': '#include "%s"', 'other': '#include "%s"'}.get(
        x[0], '%s') % (TYPES[x[1]][1] if x[0] == 'fwd' else x[1]) + '\n'


def case(item):
    homes, lines, uses, late = item
    homes = dict(homes)
    files = sources(homes)
    text = ''.join(line(x) for x in lines)
    text += ''.join(TEXT[k].replace('X', t).replace('@', str(n)) + '\n'
                    for n, (t, k) in enumerate(uses))
    need = [(t, need_of(t, k, late)) for t, k in uses]
    want = model(lines, homes, need, [lines] * len(uses))
    if late:
        # The uses are in a header that nothing else shares.
        files['t.h'] = cxx.guard('t.h', text)
        files['t.cc'] = '#include "t.h"\n'
        name = 't.h'
    else:
        files['t.cc'] = text
        name = 't.cc'
    rc, rep, out = cxx.analyse(files, ARGS)
    cxx.verdict(files, name, rep, want, ARGS)
    cxx.algebra(files, rep, ARGS)
    if late:
        cxx.verdict(files, 't.cc', rep, {'#include "t.h"'}, ARGS)
    return len(want)


def shared(item):
    """The associated header and the source file both use the type."""
    t, hlines, huse, slines, suse = item
    homes = {t: 'd.h'}
    files = sources(homes)
    files['t.h'] = cxx.guard('t.h', ''.join(map(line, hlines)) + TEXT[huse]
                             .replace('X', t).replace('@', '8') + '\n')
    files['t.cc'] = '#include "t.h"\n' + ''.join(map(line, slines)) + TEXT[
        suse].replace('X', t).replace('@', '9') + '\n'
    rc, rep, out = cxx.analyse(files, ARGS)
    hwant = model(hlines, homes, [(t, need_of(t, huse, True))], [hlines])
    cxx.verdict(files, 't.h', rep, hwant, ARGS)
    inc, fwd = '#include "d.h"', TYPES[t][1]
    need = need_of(t, suse, False)
    if need == 'typedef' and not any(k != 'fwd' for k, _ in hlines + slines):
        need = 'decl'            # the definition is nowhere in sight
    swant = model(slines, homes, [(t, need)], [slines])
    if inc in hwant:
        # What the header includes need not be added, nor declared.
        swant = {inc} & swant & {line(x)[:-1] for x in slines}
    elif swant == {fwd} and ('fwd', t) in hlines and ('fwd', t) not in slines:
        swant = set()
    cxx.verdict(files, 't.cc', rep, swant | {'#include "t.h"'}, ARGS)
    cxx.algebra(files, rep, ARGS)


def prefixes(types, homes):
    """Ordered present lines that make every type visible."""
    hs = sorted(set(homes.values()))
    pool = [('inc', h) for h in hs] + [('fwd', t) for t in types] + \
        [('other', 'x.h')]
    for p in cxx.ordered_subsets(pool):
        yield p


def visible(lines, homes, uses):
    for t, k in uses:
        if ('other', 'x.h') in lines or ('inc', homes[t]) in lines:
            continue
        if NEED[k] != 'full' and ('fwd', t) in lines and t not in TYPEDEF:
            continue
        return False
    return True


def usable(t, k):
    return not (t in ENUMS and k in ('member', 'base')) and \
        not (k == 'base' and t == 'W') and \
        not (k == 'member alias' and False)


# The kinds tried on the less usual types in the quick tier.
FEW = [
    'pointer',
    'pointer parameter',
    'returned value of declaration',
    'method parameter',
    'static field',
    'static_cast',
    'pointer to pointer',
    'passing a reference',
    'pointer to pointer arithmetic',
    'sizeof pointer',
    'address of reference',
    'variadic',
    'friend function',
    'conversion operator',
    'inside a namespace',
    'this field',
    'specialisation for it',
    'auto pointer',
    'alias',
    'template default',
    'member',
]


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    items = []
    for t in TYPES:
        homes = {t: 'd.h'}
        for k in TEXT:
            if not usable(t, k):
                continue
            if not deep and t not in ('S', 'n::k::Z', 'T<int>', 'O') and \
                    k not in FEW:
                continue
            for p in prefixes([t], homes):
                if visible(p, homes, [(t, k)]):
                    for late in ((False, True) if deep or t == 'S' else (False,)):
                        items.append((tuple(homes.items()), p, ((t, k),), late))
    c.explore('single uses', case, items)
    n1 = len(items)

    some = ['pointer', 'value parameter of declaration', 'dereference',
            'typedef', 'value', 'member']
    seq = []
    pairs = [('S', 'n::k::Z')] if not deep else \
        [('S', 'n::k::Z'), ('T<int>', 'K'), ('O', 'W')]
    for a, b in pairs:
        for homes in ({a: 'd.h', b: 'd.h'}, {a: 'd.h', b: 'e.h'}):
            for n in (2, 3):
                if n == 3:
                    kinds = some if deep else ['pointer', 'dereference',
                                             'value']
                else:
                    kinds = some
                for us in itertools.product([(t, k) for t in (a, b)
                                             for k in kinds], repeat=n):
                    if not all(usable(t, k) for t, k in us):
                        continue
                    if us[0][0] != a:
                        continue
                    ts = sorted({t for t, _ in us})
                    h = {t: homes[t] for t in homes if True}
                    for p in prefixes(ts, h):
                        if not deep and (len(p) > 2 or (n == 3 and len(p) > 1)):
                            continue
                        if deep and n == 3 and len(p) > 2:
                            continue
                        if visible(p, h, us):
                            seq.append((tuple(h.items()), p, us, False))
    c.explore('sequences', case, seq)

    both = []
    for t in (['S', 'n::k::Z'] if not deep else
              ['S', 'n::k::Z', 'T<int>', 'W', 'n::T<int*>']):
        homes = {t: 'd.h'}
        for hp in prefixes([t], homes):
            for sp in prefixes([t], homes):
                if not deep and len(hp) + len(sp) > 3:
                    continue
                for hk in some:
                    for sk in some:
                        if visible(hp, homes, [(t, hk)]) and visible(
                                hp + sp, homes, [(t, sk)]) and usable(
                                t, hk) and usable(t, sk):
                            both.append((t, hp, hk, sp, sk))
    c.explore('header and source', shared, both)
    c.confirm_binding([(dict(sources({'S': 'd.h'}), **{
        't.cc': '#include "x.h"\n' + TEXT[k].replace('X', 'S').replace('@', '1')
        + '\n'}), ARGS) for k in list(TEXT)[::13]])
    c.sample({'type': 'n::k::Z', 'lines': ['#include "x.h"', TYPES['n::k::Z'][1]],
              'use': TEXT['dereference']})
    c.finish(states=len(set(items + seq)) + len(set(both)),
             transitions=n1 + len(seq) + len(both),
             kinds=len(TEXT), types=len(TYPES), single=n1, sequences=len(seq),
             shared=len(both))


if __name__ == '__main__':
    main()
