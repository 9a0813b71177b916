"""Small families of headers with a user: the world of the whole-program checks.

A snippet has bodies for the headers p#.h and q#.h (without their includes), the
includes or declarations q#.h may start with, and the text of the user.  # is the
number of the family, so that several can be used together.
"""

# name: (p body, q prefixes, q body, user)
I = '#include "p#.h"\n'
SNIPPETS = {
    'value': ('struct C# { int m; };', [''], 'void q#();',
              'C# a#; void r#() { q#(); }'),
    'typedef': ('struct C# { int m; };', [I, 'struct C#;\n'], 'typedef C# Q#;',
                'int r#(Q#* p) { return p->m; }'),
    'typedef pointer': ('struct C# { int m; };', [I, 'struct C#;\n'],
                        'typedef C#* Q#;', 'int r#(Q# p) { return p->m; }'),
    'typedef only': ('struct C# { int m; };', [I, 'struct C#;\n'],
                     'typedef C# Q#;', 'Q#* r#(Q#* p) { return p; }'),
    'alias template': ('template <class X> struct C# { X m; };', [I],
                       'template <class X> using Q# = C#<X>;',
                       'int r#(Q#<int>& p) { return p.m; }'),
    'returned value': ('struct C# { int m; };', [I, 'struct C#;\n'], 'C# q#();',
                       'int r#() { return q#().m; }'),
    'returned reference': ('struct C# { int m; };', [I, 'struct C#;\n'],
                           'C#& q#();', 'int r#() { return q#().m; }'),
    'returned pointer passed': ('struct C# { int m; };', [I, 'struct C#;\n'],
                                'C#* q#(); void q#(C#*);',
                                'void r#() { q#(q#()); }'),
    'autocast': ('struct C# { C#(int); };', [I, 'struct C#;\n'],
                 'void q#(const C#&);', 'void r#() { q#(1); }'),
    'value parameter': ('struct C# { int m; };', [I, 'struct C#;\n'],
                        'void q#(C#); C#& q#();', 'void r#() { q#(q#()); }'),
    'derived': ('struct C# { int m; void f(); };', [I], 'struct Q# : C# {};',
                'void r#(Q#& p) { p.f(); p.m = 1; }'),
    'derived conversion': ('struct C# { int m; };', [I], 'struct Q# : C# {};',
                           'C#* r#(Q#* p) { return p; }'),
    'derived static cast': ('struct C# { int m; };', [I], 'struct Q# : C# {};',
                            'Q#* r#(C#* p) { return static_cast<Q#*>(p); }'),
    'derived call': ('struct C# {}; void f#(C#*);', [I], 'struct Q# : C# {};',
                     'void r#(Q#* p) { f#(p); }'),
    'covariant': ('struct C# { virtual C#* f(); };', [I],
                  'struct Q# : C# { Q#* f() override; };',
                  'struct D# : Q# { D#* f() override; };'),
    'virtual override': ('struct C# { virtual void f(); };', [''],
                         'struct Q#;', 'struct D# : C# { void f() override; '
                         'void g(Q#*); };'),
    'member through field': ('struct C# { int m; void f(); };', [I],
                             'struct Q# { C# c; C#* p; };',
                             'void r#(Q#& q) { q.c.f(); q.p->m = 1; }'),
    'member pointer field': ('struct C# { int m; };', [I, 'struct C#;\n'],
                             'struct Q# { C#* p; };',
                             'int r#(Q#& q) { return q.p->m; }'),
    'template argument': ('struct C# { int m; };', [''],
                          'template <class X> struct Q# { X x; int f() { return '
                          'x.m; } };', 'int r#(Q#<C#>& q) { return q.f(); }'),
    'template pointer argument': ('struct C# { int m; ~C#(); };', [''],
                                  'template <class X> struct Q# { X* x; '
                                  '~Q#() { delete x; } };',
                                  'void r#() { Q#<C#> q; }'),
    'template declared argument': ('struct C# { int m; };', [''],
                                   'template <class X> struct Q# { X* x; };',
                                   'Q#<C#>* r#(Q#<C#> q);'),
    'template default argument': ('struct C# { int m; };', [I],
                                  'template <class X = C#> struct Q# { X x; };',
                                  'int r#(Q#<>& q) { return q.x.m; }'),
    'template template': ('template <class X> struct C# { X m; };', [''],
                          'template <template <class> class X> struct Q# { '
                          'X<int> x; };', 'Q#<C#> a#;'),
    'function template': ('struct C# { int m; void f(); };', [''],
                          'template <class X> void q#(X* x) { x->f(); }',
                          'void r#(C#* p) { q#(p); }'),
    'function template ref': ('struct C# { int m; void f(); };', [''],
                              'template <class X> void q#(const X&) {}',
                              'void r#(C#& p) { q#(p); }'),
    'specialisation': ('template <class X> struct C# { X m; };', [I],
                       'struct Q#; template <> struct C#<Q#> { int s; };',
                       'int r#(C#<Q#>& q) { return q.s; }'),
    'partial specialisation': ('template <class X> struct C# { X m; };', [I],
                               'template <class X> struct C#<X*> { int s; };',
                               'int r#(C#<int*>& q) { return q.s; }'),
    'operator': ('struct C# {};', [I, 'struct C#;\n'],
                 'int operator+(const C#&, int);',
                 'int r#(const C#& c) { return c + 1; }'),
    'stream-like': ('struct C# {}; C#& operator<<(C#&, int);', [I],
                    'struct Q# {}; C#& operator<<(C#&, const Q#&);',
                    'void r#(C#& c, Q#& q) { c << 1 << q; }'),
    'begin and end': ('struct C# { int a[2]; };', [I],
                      'inline int* begin(C#& c) { return c.a; } '
                      'inline int* end(C#& c) { return c.a + 2; }',
                      'int r#(C#& c) { for (int i : c) return i; return 0; }'),
    'macro body': ('struct C# { int m; C#(int); };', [I],
                   '#define Q#(x) C# x##v(1)\n', 'void r#() { Q#(a); }'),
    'macro argument': ('struct C# { int m; };', [''],
                       '#define Q#(x) x\n', 'Q#(C# a#;)'),
    'macro calls': ('void c#();', [I], '#define Q#() c#()\n',
                    'void r#() { Q#(); }'),
    'macro constant': ('#define P# 1\n', [I], '#define Q# P#\n', 'int a# = Q#;'),
    'enum': ('enum C# { e# };', [''], 'enum class Q# { v };',
             'C# a# = e#; Q# b# = Q#::v;'),
    'opaque enum': ('enum C# : int { e# };', ['', I], 'void q#(int);',
                    'void r#(C# c) { q#(c); }'),
    'nested class': ('struct C# { struct N { int m; }; };', [I],
                     'struct Q# { C#::N n; };',
                     'int r#(C#::N* n, Q#& q) { return n->m + q.n.m; }'),
    'nested typedef': ('struct C# { int m; };', [I],
                       'struct Q# { typedef C# T; };',
                       'int r#(Q#::T* n) { return n->m; }'),
    'using declaration': ('namespace p# { struct C# { int m; }; }',
                          [I, 'namespace p# { struct C#; }\n'],
                          'using p#::C#;', 'int r#(C#* c) { return c->m; }'),
    'namespace alias': ('namespace p# { struct C# { int m; }; }', [I],
                        'namespace q# = p#;', 'q#::C# a#;'),
    'using in namespace': ('namespace p# { struct C# { int m; }; }', [I],
                           'namespace q# { using p#::C#; }', 'q#::C# a#;'),
    'inline function': ('struct C# { int m; };', ['struct C#;\n'],
                        'inline C#* q#(C#* p) { return p; }',
                        'int r#(C#* p) { return q#(p)->m; }'),
    'default argument': ('struct C# { int m; };', [I],
                         'void q#(C# = C#());', 'void r#() { q#(); }'),
    'static member': ('struct C# { static int s; };', [I],
                      'inline int q#() { return C#::s; }',
                      'int r#() { return q#() + C#::s; }'),
    'constructor arguments': ('struct C# { C#(int); };', [I],
                              'struct Q# { Q#(C#); Q#(const C#&, int); };',
                              'Q# a#(1); Q# b#(2, 3);'),
    'conversion operator': ('struct C# { int m; };', [I],
                            'struct Q# { operator C#(); };',
                            'int r#(Q#& q) { C# c = q; return c.m; }'),
    'smart pointer': ('struct C# { void f(); ~C#(); };', [''],
                      'template <class X> struct Q# { X* p; X* operator->() '
                      '{ return p; } ~Q#(); };',
                      'void r#(Q#<C#>& q) { q->f(); }'),
    'container': ('struct C# { int m; };', [''],
                  'template <class X> struct Q# { X* p; void add(const X&); '
                  'X& operator[](int i) { return p[i]; } };',
                  'void r#(Q#<C#>& q, C#& c) { q.add(c); q[1].m = 2; }'),
    'type alias member': ('struct C# { int m; };', [''],
                          'template <class X> struct Q# { typedef X T; };',
                          'int r#(Q#<C#>::T& c) { return c.m; }'),
    'decltype': ('struct C# { int m; };', [I], 'extern C# q#;',
                 'int r#(decltype(q#)& c) { return c.m + q#.m; }'),
    'auto': ('struct C# { int m; };', [I, 'struct C#;\n'], 'C#& q#();',
             'int r#() { auto& c = q#(); return c.m; }'),
    'sizeof member': ('struct C# { int m; };', [I], 'struct Q# { C# c; };',
                      'int a# = sizeof(Q#::c);'),
    'array parameter': ('struct C# { int m; };', [I, 'struct C#;\n'],
                        'extern C# q#[];', 'int r#() { return 1; } '
                        'C#* a#() { return 0; }'),
    'lambda': ('struct C# { int m; };', [''],
               'template <class F> void q#(F f) { f(); }',
               'void r#(C#* c) { q#([c] { c->m = 1; }); }'),
    'friend': ('struct C# { int m; };', ['struct C#;\n'],
               'class Q# { friend struct C#; int i; };',
               'int r#(Q#*, C#* c) { return c->m; }'),
    'crtp': ('template <class X> struct C# { void f() { static_cast<X*>(this)'
             '->g(); } };', [''], 'struct Q# { void g(); };',
             'struct D# : C#<D#> { Q# q; void g() { q.g(); } }; '
             'void r#(D#& d) { d.f(); }'),
    'variadic': ('struct C# { int m; };', [''],
                 'template <class... X> struct Q# : X... {};',
                 'int r#(Q#<C#>& q) { return q.m; }'),
    'exception': ('struct C# { int m; };', [''], 'struct Q# { Q#(int); };',
                  'void r#() { try { throw Q#(1); } catch (const C#& c) { '
                  '(void)c.m; } }'),
    'new and delete': ('struct C# { C#(int); ~C#(); };', [''],
                       'struct Q# { ~Q#(); };',
                       'void r#(Q#* q) { C#* c = new C#(1); delete c; '
                       'delete q; }'),
    'field reference': ('struct C# { int m; };', ['struct C#;\n'],
                        'struct Q# { C#& c; Q#(C#& x) : c(x) {} };',
                        'int r#(C#& c) { Q# q(c); return q.c.m; }'),
    'explicit instantiation': ('struct C# { int m; };', [''],
                               'template <class X> struct Q# { X x; '
                               'int f() { return x.m; } };',
                               'template struct Q#<C#>;'),
    'union': ('union C# { int m; char c; };', [I], 'struct Q# { C# u; };',
              'int r#(Q#* q, C#* c) { return q->u.m + c->m; }'),
    'extern template': ('struct C# { int m; };', [''],
                        'template <class X> struct Q# { X x; };',
                        'extern template struct Q#<C#>;'),
    'literal': ('struct C# { int m; };', [I],
                'inline C# operator"" _q#(unsigned long long) { return C#(); }',
                'int r#() { return (1_q#).m; }'),
    'ternary base': ('struct C# { int m; };', [I],
                     'struct Q# : C# {}; struct R# : C# {};',
                     'C#* r#(Q#* q, R#* r, bool b) { return b ? (C#*)q : r; }'),
    'pointer arithmetic': ('struct C# { int m; };', ['struct C#;\n'],
                           'C#* q#();', 'C#* r#(int i) { return q#() + i; }'),
    'pointer increment': ('struct C# { int m; };', ['struct C#;\n'],
                          'extern C#* q#;', 'void r#() { ++q#; q#--; }'),
    'indexing': ('struct C# { int m; };', ['struct C#;\n'], 'C#* q#();',
                 'C#& r#(int i) { return q#()[i]; }'),
    'forward only': ('struct C# { int m; };', ['struct C#;\n'], 'C#* q#();',
                     'C#* r#(bool b) { return b ? q#() : nullptr; }'),
    'final template': ('template <class X> class C# final { X x; };', [I],
                       'struct Q# final { C#<int> c; };',
                       'C#<int>* r#(C#<int>* c, Q#* q) { return q ? nullptr : c; }'),
    'final class': ('class C# final { int m; };', [I], 'void q#(const C#&);',
                    'void r#(C#* c) { q#(*c); }'),
    'attributed class': ('class [[nodiscard]] C# { int m; };', [I],
                         'C#* q#();', 'C#* r#(C#* c) { return c; }'),
    'defaults in template': ('template <class X, class Y = X, int N = 3> '
                             'struct C# { X x[N]; };', [I], 'C#<int>* q#();',
                             'C#<int>* r#() { return q#(); }'),
    'pack template': ('template <class... X> class C# final : public X... {};', [I],
                      'C#<>* q#();', 'C#<>* r#(C#<>& c) { return &c; }'),
    'nested namespaces': ('namespace p# { inline namespace i { namespace k { '
                          'class C# final { int m; }; } } }', [I],
                          'p#::k::C#* q#();',
                          'p#::k::C#* r#(p#::k::C#& c) { return &c; }'),
    'scoped enum pointer': ('enum class C# : unsigned char { e };', [I],
                            'C#* q#();', 'C#* r#() { return q#(); }'),
    'class in class': ('struct C# { int m; };', [''], 'struct Q#;',
                       'struct D# { Q#* q; struct E { C# c; }; E e; };'),
}


def number(s, n):
    """Replaces # but for preprocessor uses of it."""
    for a, b in (('##', '\1\1'), ('#include', '\1include'),
                 ('#define', '\1define'), ('#if', '\1if'), ('#endif', '\1endif')):
        s = s.replace(a, b)
    return s.replace('#', str(n)).replace('\1', '#')


def family(name, n, variant):
    """(headers, user text) of one family."""
    import cxx
    p, pre, q, user = SNIPPETS[name]
    ph, qh = 'p%d.h' % n, 'q%d.h' % n
    return ({ph: cxx.guard(ph, number(p, n) + '\n'),
             qh: cxx.guard(qh, number(pre[variant] + q, n) + '\n')},
            number(user, n) + '\n')
