"""C01: every fully used symbol is provided by a direct include.

World: three headers, each declaring one of everything; an include graph over
them; a source file (or its header) that directly includes some of them, in some
order, and makes one or two uses.  The model says: the file ends up including
exactly the headers that declare what it uses.
"""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
from harness import *  # noqa
import cxx

PROP = 'C01'
HEADER = '''struct C# {
  C#();
  explicit C#(long);
  int m;
  void f();
  void cf() const;
  int operator[](int) const;
  C#* operator->();
  operator bool() const;
  static int s;
  static int sf();
  enum E { ce };
  typedef int T;
  struct N {};
  template <typename X> X tf(X x) { return x; }
  C#* begin();
  C#* end();
};
C# operator+(C#, C#);
void f#();
void f#(C#&);
extern int v#;
enum E# { e# };
enum class S# { a };
typedef int T#;
using U# = int;
template <typename X> struct P# { X t; void pf(); typedef X PT; };
template <typename X> struct Q# : P#<X> {};
template <typename X> X g#(X x) { return x; }
template <typename X> using A# = X*;
template <typename X> const X tv# = X();
#define M# 1
#define F#(x) (x)
#define EMPTY#
namespace n# {
void h();
struct Z {};
inline namespace in { struct Y {}; }
}
const int k# = 1;
union W# { int a; char b; };
struct R# { int only; };
struct V# { virtual ~V#(); };
struct I# : C# {};
struct O# { int om; };
void cl#(int*);
template <typename X> concept N# = sizeof(X) > 0;
enum class B# : char { b1, b2 };
struct LC# { constexpr LC#() {} int x = 1; };
inline int operator""_u#(unsigned long long) { return 0; }
'''
# Every use needs the definition (or any declaration, for what has just one)
# from header #; @ numbers the uses.
KINDS = {
    'variable': 'C# a@;',
    'array': 'C# a@[2];',
    'static array size': 'int a@[k#];',
    'field': 'struct D@ { C# c; };',
    'base': 'struct D@ : C# {};',
    'private base': 'class D@ : private virtual V# {};',
    'sizeof': 'int a@ = sizeof(C#);',
    'alignof': 'int a@ = alignof(C#);',
    'return in definition': 'C# r@() { return C#(); }',
    'parameter in definition': 'void r@(C#) {}',
    'member through pointer': 'int r@(C#* p) { return p->m; }',
    'member through reference': 'void r@(C#& p) { p.f(); }',
    'const method': 'void r@(const C#& p) { p.cf(); }',
    'subscript': 'int r@(const C#& p) { return p[0]; }',
    'arrow operator': 'int r@(C#& p) { return p->m; }',
    'conversion to bool': 'bool r@(C#& p) { return p ? true : false; }',
    'member template': 'int r@(C#& p) { return p.tf(1); }',
    'range for': 'void r@(C#& p) { for (C#& c : p) { (void)&c; } }',
    'free operator': 'void r@(C#& p) { p + p; }',
    'new': 'C#* r@() { return new C#; }',
    'new array': 'C#* r@() { return new C#[2]; }',
    'delete': 'void r@(C#* p) { delete p; }',
    'increment': 'C#* r@(C#* p) { return ++p; }',
    'decrement': 'void r@(C#*& p) { --(p); }',
    'post-increment': 'void r@(C#** p) { (*p)++; }',
    'pointer addition': 'C#* r@(C#* p) { return 1 + p; }',
    'referenced pointer sum': 'C#* r@(C#*& p) { return p + 1; }',
    'pointer difference': 'long r@(C#* p, C#* q) { return p - q; }',
    'pointer assignment': 'void r@(C#* p) { p += 2; }',
    'pointer subscript': 'void r@(C#* p) { (void)p[1]; }',
    'dereference copy': 'void r@(C#* p) { C# c(*p); }',
    'functional cast': 'void r@() { C#(3l); }',
    'static cast': 'void r@() { (void)static_cast<C#>(3l); }',
    'catch': 'void r@() { try { } catch (C#&) { } }',
    'throw': 'void r@() { throw C#(); }',
    'catch by pointer': 'void r@() { try { } catch (C*#) { } }'.replace('*#', '#*'),
    'catch by value': 'void r@() { try { } catch (C# c) { } }',
    'catch const pointer': 'void r@() { try { } catch (const C#* const& c) { } }',
    'function try block': 'void r@() try { } catch (const C#& c) { }',
    'throw pointee': 'void r@(C#* p) { throw *p; }',
    'typeid of type': 'namespace std { class type_info { public: int m; }; }\n'
    'void r@() { (void)typeid(C#); }',
    'noexcept of call': 'bool r@() { return noexcept(f#()); }',
    'sizeof expression': 'int r@(C#& p) { return sizeof p; }',
    'sizeof reference type': 'int a@ = sizeof(C#&);',
    'alignas': 'alignas(C#) char a@[100];',
    'offsetof': 'int a@ = __builtin_offsetof(C#, m);',
    'type trait': 'bool a@ = __is_empty(C#);',
    'base-of trait': 'struct D@ {}; bool a@ = __is_base_of(D@, C#);',
    'decltype of member': 'void r@(C#* p) { decltype(p->m) x = 1; (void)x; }',
    'lambda initialiser capture': 'void r@(C#* p) { auto l = [q = *p] {}; }',
    'lambda parameter': 'auto l@ = [](C# c) {};',
    'generic lambda': 'void r@(C#& p) { [](auto& x) { x.f(); }(p); }',
    'structured binding': 'void r@(W#* p) { auto& [x] = *p; }'.replace(
        'W#', 'R#'),
    'designated initialiser': 'void r@() { W# w{.a = 1}; (void)w; }',
    'pseudo-destructor': 'void r@(C#* p) { p->~C#(); }',
    'conditional expression': 'int r@(C#& p, bool b) { return b ? p.m : 1; }',
    'comma operand': 'int r@(C#& p) { return 0, p.m; }',
    'list initialisation': 'void r@() { C# c{1l}; (void)&c; }',
    'returned temporary member': 'int r@() { return C#().m; }',
    'array of arrays': 'C# a@[2][3];',
    'array parameter size': 'void r@(C# (&a)[2]) { (void)sizeof(a); }',
    'class pointer compare': 'struct D@ : C# {}; bool r@(D@* p, C#* q) '
    '{ return p == q; }',
    'static_cast down': 'struct D@ : C# {}; D@* r@(C#* p) { return '
    'static_cast<D@*>(p); }',
    'override': 'struct D@ : V# { ~D@() override; };',
    'specialised function': 'template <> char g#<char>(char x) { return x; }',
    'template template argument': 'template <template <typename> class X> struct '
    'L@ { X<int> x; }; L@<P#> a@;',
    'dependent base': 'template <typename X> struct L@ : P#<X> {};',
    'dependent member': 'template <typename X> struct L@ { P#<X> p; };',
    'in template body': 'template <typename X> int r@(X x) { return k#; }',
    'if constexpr': 'template <typename X> int r@(X x) { if constexpr '
    '(sizeof(X) > k#) return 1; else return 2; }',
    'template non-type argument': 'template <int N> struct L@ {}; L@<k#> a@;',
    'array bound of new': 'void r@() { new int[k#]; }',
    'field initialiser': 'struct D@ { int b = k#; };',
    'static member definition': 'int C#::s = 1;',
    'method definition': 'void C#::f() {}',
    'function pointer call': 'void r@() { void (*p)() = &f#; p(); }',
    'switch on enum': 'int r@(E# e) { switch (e) { case e#: return 1; } '
    'return 0; }',
    'friend of members': 'struct D@ { friend void C#::f(); };',
    'using base member': 'struct D@ : C# { using C#::m; };',
    'inherited constructor': 'struct D@ : C# { using C#::C#; };',
    'variadic argument': 'void va@(...); void r@(W#& p) { va@(p); }',
    'pack expansion': 'template <typename... X> void l@(X&... x) { (x.f(), ...); '
    '} void r@(C#& p) { l@(p); }',
    'pointer to pointer arithmetic': 'void r@(C#** p) { (*p) += 1; }',
    'attribute argument': 'struct __attribute__((aligned(k#))) D@ {};',
    'pragma-free macro string': 'const char* a@ = "x" "y" + M#;',
    'macro argument': '#define LM@(x) x\nint a@ = LM@(M#);',
    'macro as type': '#define LM@ C#\nLM@ a@;',
    'elif': '#if 0\n#elif M#\nint a@;\n#endif',
    'ifndef': '#ifndef M#\nint a@;\n#endif',
    'macro in include guard style': '#if !defined(M#)\nint a@;\n#endif',
    'macro in array bound': 'int a@[M#];',
    'goto-free statement expression': 'void r@(C#* p) { ({ p->f(); }); }',
    'compound assignment result': 'void r@(C#& p, C#& q) { p = q; }',
    'implicit move': 'C# r@(C#& p) { return static_cast<C#&&>(p); }',
    'reference to member': 'int& r@(C#& p) { return p.m; }',
    'const_cast': 'void r@(const C#& p) { const_cast<C#&>(p).f(); }',
    'constructor conversion in return': 'C# r@() { return C#(2l); }',
    'new with argument': 'void r@() { new C#(1l); }',
    'static field': 'int r@() { return C#::s; }',
    'static method': 'int r@() { return C#::sf(); }',
    'nested enumerator': 'int a@ = C#::ce;',
    'nested type': 'C#::N a@;',
    'nested typedef': 'C#::T a@;',
    'member pointer': 'int C#::* a@ = &C#::m;',
    'method pointer': 'auto a@ = &C#::f;',
    'function': 'void r@() { f#(); }',
    'function address': 'void (*a@)() = f#;',
    'overload': 'void r@(C#& p) { f#(p); }',
    'extern variable': 'int r@() { return v#; }',
    'variable address': 'int* a@ = &v#;',
    'constant': 'int a@ = k#;',
    'enumerator': 'int a@ = e#;',
    'scoped enumerator': 'S# a@ = S#::a;',
    'enum variable': 'E# a@;',
    'enum parameter': 'void r@(E#);',
    'typedef': 'T# a@;',
    'typedef parameter': 'void r@(T#);',
    'alias': 'U# a@;',
    'alias template': 'A#<int> a@;',
    'class template': 'P#<int> a@;',
    'class template member': 'int r@(P#<int>& p) { return p.t; }',
    'derived template member': 'int r@(Q#<int>& p) { return p.t; }',
    'template nested type': 'P#<int>::PT a@;',
    'explicit instantiation': 'template struct P#<char>;',
    'template base': 'struct D@ : P#<int> {};',
    'template argument': 'template <typename X> struct L@ { X x; }; L@<C#> a@;',
    'template argument of function': 'template <typename X> void l@(X* x) { '
    'x->f(); } void r@(C#* p) { l@(p); }',
    'function template': 'int r@() { return g#(1); }',
    'function template explicit': 'int r@() { return g#<int>(1); }',
    'variable template': 'int r@() { return tv#<int>; }',
    'macro': 'int a@ = M#;',
    'function-like macro': 'int a@ = F#(1);',
    'empty macro': 'EMPTY# int a@;',
    'ifdef': '#ifdef M#\nint a@;\n#endif',
    'if': '#if M#\nint a@;\n#endif',
    'if defined': '#if defined(M#) && 1\nint a@;\n#endif',
    'macro in macro body': '#define LM@ M#\nint a@ = LM@;',
    'namespace function': 'void r@() { n#::h(); }',
    'namespace class': 'n#::Z a@;',
    'inline namespace class': 'n#::Y a@;',
    'using declaration': 'using n#::h;\nvoid r@() { h(); }',
    'using type': 'using n#::Z;\nZ a@;',
    'namespace alias': 'namespace na@ = n#;\nna@::Z a@;',
    'using directive': 'using namespace n#;\nn#::Z a@;',
    'union': 'W# a@;',
    'literal operator': 'int a@ = 1_u#;',
    'lambda body': 'auto l@ = [] { C# c; c.f(); };',
    'lambda capture': 'void r@(C#& p) { auto l = [p] {}; }',
    'default argument': 'void r@(int = k#);',
    'noexcept operand': 'void r@() noexcept(sizeof(C#) > 1);',
    'decltype': 'decltype(v#) r@();',
    'static assert': 'static_assert(sizeof(C#) > 1, "");',
    'enumerator initialiser': 'enum L@ { l@ = k# };',
    'bit-field width': 'struct D@ { int b : k#; };',
    'case label': 'int r@(int i) { switch (i) { case k#: return 1; } return 0; }',
    'inline method body': 'struct D@ { void r(C#* p) { p->f(); } };',
    'constructor initialiser': 'struct D@ : C# { D@() : C#(1l) {} };',
    'deduced auto': 'void r@(C#* p) { auto x = *p; (void)x; }',
    'conditional derived to base': 'struct D@ : C# {}; C#* r@(D@* p) { return p; }',
    'typeid-free dynamic cast': 'struct D@ : V# {}; D@* r@(V#* p) { return '
    'dynamic_cast<D@*>(p); }',
    'template default argument': 'template <int N = k#> struct L@ {};',
    'aggregate': 'struct D@ { C# c[2]; }; D@ a@;',
    'thread-safe local static': 'void r@() { static C# c; }',
    'variadic pack': 'template <typename... X> struct L@ { int a = '
    'sizeof...(X); }; void r@() { L@<n#::Z> l; (void)l; (void)sizeof(n#::Z); }',
}
KINDS.update({
    'pointer subtraction assignment': 'void r@(C#* p) { p -= 2; }',
    'pointer minus': 'C#* r@(C#* p) { return (p) - 1; }',
    'reversed subscript': 'void r@(C#* p) { (void)1[p]; }',
    'subscript of referenced pointer': 'void r@(C#*& p) { (void)p[1]; }',
    'sizeof rvalue reference': 'int a@ = sizeof(C#&&);',
    'alignof reference': 'int a@ = alignof(C#&);',
    'sizeof dereference': 'int r@(C#* p) { return sizeof *p; }',
    'sizeof member': 'int a@ = sizeof(C#::m);',
    'delete array': 'void r@(C#* p) { delete[] p; }',
    'delete referenced pointer': 'void r@(C#*& p) { delete (p); }',
    'typeid of expression': 'namespace std { class type_info { public: int m; '
    '}; }\nvoid r@(C#& p) { (void)typeid(p); }',
    'typeid of reference': 'namespace std { class type_info { public: int m; '
    '}; }\nvoid r@() { (void)typeid(C#&); }',
    'dynamic cast from': 'struct D@ { virtual ~D@(); }; D@* r@(V#* p) { return '
    'dynamic_cast<D@*>(p); }',
    'dynamic cast to': 'struct D@ { virtual ~D@(); }; V#& r@(D@& p) { return '
    'dynamic_cast<V#&>(p); }',
    'dynamic cast to void': 'void* r@(V#* p) { return dynamic_cast<void*>(p); }',
    'upcast': 'C#* r@(I#* p) { return p; }',
    'upcast of reference': 'C#& r@(I#& p) { return p; }',
    'upcast in call': 'void q@(C#*); void r@(I#* p) { q@(p); }',
    'upcast in C style': 'C#* r@(I#* p) { return (C#*)p; }',
    'upcast in condition': 'C#* r@(bool b, C#* c, I#* p) { return b ? p : c; }',
    'upcast in comparison': 'bool r@(C#* c, I#* p) { return c == p; }',
    'upcast in initialiser': 'struct D@ { C#* c; }; void r@(I#* p) { D@ d = {p}; '
    '(void)d; }',
    'upcast of const': 'const C#* r@(I#* const& p) { return p; }',
    'downcast': 'I#* r@(C#* p) { return static_cast<I#*>(p); }',
    'downcast of reference': 'I#& r@(C#& p) { return static_cast<I#&>(p); }',
    'downcast in C style': 'I#* r@(C#* p) { return (I#*)p; }',
    'member pointer upcast': 'int I#::* r@(int C#::* p) { return p; }',
    'member pointer downcast': 'int C#::* r@(int I#::* p) { return '
    'static_cast<int C#::*>(p); }',
    'covariant pointer': 'struct G@ { virtual C#* cv(); }; struct D@ : G@ { I#* '
    'cv() override; };',
    'covariant reference': 'struct G@ { virtual C#& cv(); }; struct D@ : G@ { I#& '
    'cv() override; };',
    'variadic second': 'void va@(int, int, ...); void r@(W#& p) { va@(1, 2, p); }',
    'variadic pointer': 'void r@(void (*va)(...), W#& p) { va(p); }',
    'variadic constructor': 'struct D@ { D@(...); }; void r@(W#& p) { D@ d(p); }',
    'variadic new': 'struct D@ { D@(int, ...); }; void r@(W#& p) { new D@(1, p); }',
    'variadic method': 'struct D@ { void va(int, ...); }; void r@(D@& d, W#& p) { '
    'd.va(1, p); }',
    'variadic last': 'void va@(int, ...); void r@(W#& p) { va@(1, 2, p); }',
    'cleanup attribute': 'void r@() { __attribute__((cleanup(cl#))) int x; }',
    'specialised function declared': 'template <> char g#<char>(char x);',
    'specialised variable': 'template <> const char tv#<char> = 1;',
    'specialised inline variable': 'template <> inline const char tv#<char> = 1;',
    'range initialiser': 'void r@(int (&a)[2]) { for (C# c; int i : a) (void)i; }',
    'range for over temporary': 'void r@() { for (C#& c : C#()) { (void)&c; } }',
    'range for over const': 'void r@(const int (&a)[2]) { for (int i : a) { '
    '(void)(i + k#); } }',
    'if initialiser': 'void r@() { if (C# c; true) (void)&c; }',
    'switch initialiser': 'void r@(int i) { switch (C# c; i) { default: ; } }',
    'condition variable': 'void r@(C#& p) { if (C# c = p) (void)&c; }',
    'while condition': 'void r@(C#& p) { while (p) ; }',
    'for parts': 'void r@(C#* p) { for (int i = 0; i < p->m; ++i) ; }',
    'do condition': 'void r@(C#* p) { do ; while (p->m); }',
    'not operator': 'bool r@(C#& p) { return !p; }',
    'logical and': 'bool r@(C#& p, bool b) { return b && p; }',
    'concept': 'template <N# X> void l@(X);',
    'requires clause': 'template <typename X> requires N#<X> void l@(X);',
    'requires expression': 'template <typename X> void l@(X) requires (requires { '
    '{ 1 } -> N#; });',
    'constrained auto': 'void l@(N# auto x);',
    'constrained variable': 'void r@() { N# auto x = 1; (void)x; }',
    'using enum': 'void r@() { using enum B#; (void)b1; }',
    'enumerator beside declaration': 'enum class B# : char;\nB# a@ = B#::b1;',
    'class beside declaration': 'struct C#;\nC# a@;',
    'member beside declaration': 'struct C#;\nint r@(C#* p) { return p->m; }',
    'template beside declaration': 'template <typename X> struct P#;\nP#<int> a@;',
    'function beside declaration': 'void f#();\nnamespace { void (*a@)(C#&) = f#; }',
    'constexpr variable': 'constexpr LC# a@;',
    'constant from class': 'constexpr int a@ = LC#().x;',
    'explicit object expression': 'auto a@ = &C#::cf;',
    'static through object': 'int r@(C#& p) { return p.s; }',
    'static through pointer': 'int r@(C#* p) { return p->sf(); }',
    'nested enumerator through object': 'int r@(C#& p) { return p.ce; }',
    'member of member': 'struct D@ { C# c; }; int r@(D@& d) { return d.c.m; }',
    'member of array element': 'int r@(C#* (&p)[2]) { return p[1]->m; }',
    'member of call': 'C#* q@(); int r@() { return q@()->m; }',
    'member of reference call': 'C#& q@(); int r@() { return q@().m; }',
    'member of double pointer': 'int r@(C#** p) { return (*p)->m; }',
    'arrow operator chain': 'struct D@ { C#* operator->(); }; int r@(D@& d) { '
    'return d->m; }',
    'swap through pointer': 'void r@(C#* p, C#* q) { C# t(*p); *p = *q; *q = t; }',
    'initialised array': 'void r@(C#& p) { C# a[] = {p, p}; (void)a; }',
    'returned reference copy': 'C#& q@(); void r@() { C# c = q@(); (void)&c; }',
    'temporary bound': 'void r@() { const C#& c = C#(1l); (void)c; }',
    'pointer from new stored': 'C#* a@ = new C#;',
    'placement-free array new': 'C#** r@() { return new C#*[k#]; }',
    'destructor of member': 'struct D@ { ~D@() {} C# c; };',
    'static member of class type': 'struct D@ { static C# c; }; C# D@::c;',
    'inline static member': 'struct D@ { inline static C# c; };',
    'thread local': 'thread_local C# a@;',
    'anonymous union member': 'struct D@ { union { W# w; int i; }; };',
    'nested class of local': 'struct D@ { struct { C# c; } s; };',
    'deduction guide': 'template <typename X> struct L@ { L@(X); }; L@(int) -> '
    'L@<int[k#]>;',
    'deduced class template': 'struct D@ { int i; }; void r@() { P# p{D@()}; '
    '(void)p; }',
    'fold expression': 'template <typename... X> int l@(X... x) { return (k# & '
    '... & x); }',
    'lambda default argument': 'auto l@ = [](int i = k#) { return i; };',
    'lambda return type': 'auto l@ = []() -> C# { return C#(); };',
    'lambda init method': 'void r@(C#* p) { auto l = [q = p->m] { return q; }; '
    '(void)l; }',
    'nested lambda': 'void r@(C#* p) { [p] { [p] { p->f(); }(); }(); }',
    'local class': 'void r@() { struct D { C# c; } d; (void)&d; }',
    'local typedef': 'void r@() { typedef C# D; D d; (void)&d; }',
    'local alias template use': 'template <typename X> using L@ = P#<X>; L@<int> '
    'a@;',
    'alias template argument': 'A#<T#> a@;',
    'enum base': 'enum L@ : T# { l@ };',
    'enum comparison': 'bool r@(E# e) { return e == e#; }',
    'scoped enum switch': 'int r@(B# b) { switch (b) { case B#::b1: return 1; '
    'case B#::b2: return 2; } return 0; }',
    'default member function': 'struct D@ { C# c; D@() = default; };',
    'defaulted comparison': 'struct D@ { int i = k#; bool operator==(const D@&) '
    'const = default; };',
    'operator new array bound': 'char* r@() { return new char[sizeof(C#)]; }',
    'function returned': 'void (*r@())() { return f#; }',
    'function in array': 'void (*a@[])() = {f#};',
    'function reference': 'void (&a@)() = f#;',
    'function in condition': 'int r@() { return f#(), 1; }',
    'noexcept value': 'void r@() noexcept(k# > 0);',
    'explicit value': 'struct D@ { explicit(k# > 0) D@(int); };',
    'static assert of class': 'static_assert(sizeof(P#<int>) > 0, "");',
    'array of templates': 'P#<int> a@[2];',
    'template of template': 'P#<P#<int>> a@;',
    'template method': 'void r@(P#<int>& p) { p.pf(); }',
    'template method definition': 'template <typename X> void P#<X>::pf() {}',
    'template static call': 'template <typename X> void l@() { X::sf(); } void '
    'r@() { l@<C#>(); }',
    'template default type': 'template <typename X = C#> struct L@ { X x; }; '
    'L@<> a@;',
    'sizeof argument': 'template <int N> struct L@ {}; L@<sizeof(C#)> a@;',
    'pointer argument': 'template <int* N> struct L@ {}; L@<&v#> a@;',
    'function argument': 'template <void (*)()> struct L@ {}; L@<f#> a@;',
    'member pointer argument': 'template <int C#::*> struct L@ {}; L@<&C#::m> a@;',
    'macro call in macro': '#define LM@(x) F#(x)\nint a@ = LM@(1);',
    'macro of macro argument': 'int a@ = F#(M#);',
    'macro in conditional arithmetic': '#if M# + 1 > 1\nint a@;\n#endif',
    'type through macro': '#define LM@(x) x\nLM@(C#) a@;',
    'member through macro': '#define LM@(x) (x)->m\nint r@(C#* p) { return LM@(p); '
    '}',
    'asm operand': 'void r@(C#* p) { asm("" : : "r"(p->m)); }',
    'gnu alignof expression': 'int r@(C#& p) { return __alignof__(p); }',
    'gnu typeof': 'void r@(C#& p) { __typeof__(p.m) x = 1; (void)x; }',
    'gnu conditional': 'int r@(C#* p) { return p->m ?: 1; }',
    'compound literal': 'void r@() { (void)(W#){1}; }',
    'constructible trait': 'bool a@ = __is_constructible(C#);',
    'convertible trait': 'struct D@ {}; bool a@ = __is_convertible(C#, D@);',
    'trivial trait': 'bool a@ = __is_trivially_copyable(C#);',
    'has unique representations': 'bool a@ = __has_unique_object_representations('
    'C#);',
    'base-of trait second': 'struct D@ {}; bool a@ = __is_base_of(C#, D@);',
    'bit cast': 'int r@(O#& o) { return __builtin_bit_cast(int, o); }',
    'structured binding copy': 'void r@(R#* p) { auto [x] = *p; (void)x; }',
    'goto over declaration': 'void r@() { goto x; x: C# c; (void)&c; }',
    'nested qualified': 'void r@() { (void)sizeof(n#::in::Y); }',
    'using declared class member': 'using n#::Z;\nstruct D@ { Z z; };',
    'using namespace local': 'void r@() { using namespace n#; h(); }',
    'namespace alias function': 'namespace na@ = n#; void r@() { na@::h(); }',
    'friend class member': 'struct D@ { friend int C#::sf(); };',
    'alignof in default argument': 'void r@(int = alignof(C#));',
    'alignof in typedef': 'typedef char TA@[alignof(C#)];',
    'alignof in template argument': 'template <int N> struct L@ {}; '
    'L@<alignof(C#)>* a@;',
    'alignof in array': 'extern char a@[alignof(C#)];',
    'alignof in condition': 'bool r@() noexcept(alignof(C#) > 1);',
    'sizeof in pointer to array': 'int (*a@)[sizeof(C#)];',
    'typeid in default argument': 'namespace std { class type_info { public: int '
    'm; }; }\nvoid r@(const std::type_info& = typeid(C#));',
    'lambda in default argument': 'void r@(C#* p, int (*)(C#*) = [](C#* p) { '
    'return p->m; });',
    'member pointer of nested': 'int C#::N::* a@;',
})
# Kinds whose pairs are enumerated in depth: one or more of every sort of entity.
DEEP_PAIR = [
    'variable',
    'function',
    'macro',
    'class template',
    'base',
    'typedef',
    'enumerator',
    'namespace class',
    'return in definition',
    'const method',
    'member template',
    'new array',
    'post-increment',
    'pointer assignment',
    'static cast',
    'catch by value',
    'typeid of type',
    'alignas',
    'decltype of member',
    'structured binding',
    'comma operand',
    'array parameter size',
    'specialised function',
    'in template body',
    'field initialiser',
    'switch on enum',
    'variadic argument',
    'pragma-free macro string',
    'ifndef',
    'compound assignment result',
    'constructor conversion in return',
    'nested enumerator',
    'method pointer',
    'extern variable',
    'scoped enumerator',
    'typedef parameter',
    'class template member',
    'template base',
    'function template explicit',
    'empty macro',
    'macro in macro body',
    'using declaration',
    'union',
    'default argument',
    'enumerator initialiser',
    'constructor initialiser',
    'template default argument',
]
PAIR = ['variable', 'function', 'macro', 'class template', 'base', 'typedef',
        'enumerator', 'namespace class']


def use(kind, h, n):
    # '#' is the header's number except where it starts a directive.
    return re.sub(r'#(?!(if|ifdef|ifndef|elif|endif|define|undef)\b)', str(h),
                  KINDS[kind]).replace('@', str(n))


def headers(graph):
    files = {}
    for i in graph:
        name = 'h%d.h' % i
        body = HEADER.replace('#define', '\1').replace('#', str(i)) \
            .replace('\1', '#define')
        files[name] = cxx.guard(name, ''.join('#include "h%d.h"\n' % j
                                              for j in graph[i]) + body)
    return files


def case(item):
    graph, direct, uses, place = item
    graph = dict(enumerate(graph))
    files = headers(graph)
    text = ''.join('#include "h%d.h"\n' % d for d in direct)
    text += ''.join(use(k, h, n) + '\n' for n, (k, h) in enumerate(uses))
    if place == 'source':
        files['t.cc'] = text
        name = 't.cc'
    elif place == 'associated':
        files['t.h'] = cxx.guard('t.h', text)
        files['t.cc'] = '#include "t.h"\n'
        name = 't.h'
    else:                        # the source uses, its header includes nothing
        files['t.h'] = cxx.guard('t.h', 'void unused();\n')
        files['t.cc'] = '#include "t.h"\n' + text
        name = 't.cc'
    args = ('-std=c++20', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    desired = {'#include "h%d.h"' % h for _, h in uses}
    if place == 'beside':
        desired.add('#include "t.h"')
    cxx.verdict(files, name, rep, desired, args)
    cxx.algebra(files, rep, args)
    if place == 'associated':
        cxx.verdict(files, 't.cc', rep, {'#include "t.h"'}, args)
    return rep.files[name].correct


# -- conversions ----------------------------------------------------------------
# How C gives a D (or something derived from it), and what becomes of it.
GIVES = {'pointer': ('operator D*() const;', 'D*'),
         'reference': ('operator D&() const;', 'D&'),
         'const pointer': ('operator const D*() const;', 'const D*'),
         'const reference': ('operator const D&() const;', 'const D&')}
TAKES = {'pointer': ['void g(const B*); void f(const C& c) { g(c); }',
                     'const B* f(const C& c) { return c; }',
                     'void f(C& c) { const B* b = c; (void)b; }',
                     'void f(C& c) { const B* b = nullptr; b = c; (void)b; }',
                     'struct X { X(const B*); }; X f(C& c) { return X(c); }',
                     'auto f(C& c) { return static_cast<const B*>(c); }',
                     'struct Y { const B* b; Y(C& c) : b(c) {} };',
                     'void f(C& c) { auto l = [&c]() -> const B* { return c; }; '
                     '(void)l; }'],
         'reference': ['void g(const B&); void f(const C& c) { g(c); }',
                       'const B& f(const C& c) { return c; }',
                       'void f(C& c) { const B& b = c; (void)b; }',
                       'struct X { X(const B&); }; X f(C& c) { return X(c); }',
                       'struct Y { const B& b; Y(C& c) : b(c) {} };']}


def conversion_case(item):
    """The class that is converted to its base on the way is used in full."""
    give, use, depth, base, lists = item
    op, kind = GIVES[give]
    files = {'b.h': cxx.guard('b.h', 'struct B { int m; };\n'),
             'm.h': cxx.guard('m.h', '#include "b.h"\nstruct M : B {};\n'),
             'd.h': cxx.guard('d.h', '#include "b.h"\nstruct D : B {};\n'
                              if depth == 1 else '#include "m.h"\nstruct D : M {};\n'),
             'c.h': cxx.guard('c.h', 'struct D;\nstruct C { %s };\n' % op),
             'x.h': cxx.guard('x.h', '#include "d.h"\n')}
    text = ''.join('#include "%s"\n' % l for l in lists)
    text += 'struct B;\n' if base else ''
    files['t.cc'] = text + use + '\n'
    args = ('-std=c++17', '-I.', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    f = rep.files['t.cc']
    gone = [r[0] for r in f.remove]
    end = {l for l in ['#include "%s"' % l for l in lists]
           if l not in gone} | set(f.adds())
    want = {'#include "c.h"', '#include "d.h"'}
    if not want <= end or '#include "x.h"' in end:
        raise Violation('t.cc: includes %s instead of %s' % (sorted(end),
                                                             sorted(want)),
                        {'files': files, 'args': args, 'report': f.summary()})
    return 1


# -- contexts -------------------------------------------------------------------
CONTEXTS = {
    'namespace': 'namespace w {\n%s\n}',
    'anonymous namespace': 'namespace { namespace w {\n%s\n} }',
    'linkage': 'extern "C++" {\n%s\n}',
    'class': 'struct W9 {\n%s\n};',
    'nested class': 'class W9 { class X9 {\n%s\n}; };',
    'class template': 'template <typename> struct W9 {\n%s\n};',
    'function': 'void w9() {\n%s\n}',
    'function template': 'template <typename> void w9() {\n%s\n}',
    'lambda': 'auto w9 = [] {\n%s\n};',
    'method of local class': 'void w9() { struct L9 { void f() {\n%s\n} }; }',
    'try block': 'void w9() { try {\n%s\n} catch (...) {} }',
    'inactive alternative': '#if 0\nint none;\n#else\n%s\n#endif',
    'macro argument': '#define ID9(...) __VA_ARGS__\nID9(%s)',
    'macro body': '#define BODY9 %s\nBODY9',
}


def context_case(item):
    """A use is a use wherever it is written."""
    context, kind, h, direct = item
    text = use(kind, h, 0)
    if '#' in text or ('macro' in context and '\n' in text):
        return 0
    files = headers(GRAPH)
    files['t.cc'] = ''.join('#include "h%d.h"\n' % d for d in direct) + \
        CONTEXTS[context] % text + '\n'
    args = ('-std=c++20', 't.cc')
    rc, rep, out = cxx.analyse(files, args, must_compile=False)
    if re.search(r'error: ', out):
        return 0                            # cannot be written there
    cxx.verdict(files, 't.cc', rep, {'#include "h%d.h"' % h}, args)
    cxx.algebra(files, rep, args)
    return 1


GRAPH = {0: (1,), 1: (2,), 2: ()}


def fits(context, kind):
    """Inside a template nothing may depend on it; what a linkage specification
    encloses is kept; a macro does not define classes."""
    text = KINDS[kind]
    if 'beside' in kind:
        return context not in ('linkage', 'class template', 'function',
                               'function template', 'lambda', 'try block',
                               'class', 'nested class', 'method of local class')
    if 'template' in context or context == 'macro body':
        return not re.search(r'\b(D|G|L|va|q|l)@|\(auto', text)
    return True


# -- uses of two headers ----------------------------------------------------------
# what b.h and a.h contain, the source, the headers it uses (None: both, as far as
# they are included directly)
SPLIT = {
    'namespace alias': (
        'namespace nn { struct Z {}; void h(); }',
        '#include "b.h"\nnamespace na = nn;',
        'na::Z z;',
        'ab'),
    'namespace alias function': (
        'namespace nn { struct Z {}; void h(); }',
        '#include "b.h"\nnamespace na = nn;',
        'void f() { na::h(); }',
        'ab'),
    'using function': (
        'namespace nn { void h(); }',
        '#include "b.h"\nusing nn::h;',
        'void f() { h(); }',
        'ab'),
    'using overloads': (
        'namespace nn { void h(); void h(int); }',
        '#include "b.h"\nusing nn::h;',
        'void f() { h(1); }',
        'ab'),
    'using class': (
        'namespace nn { struct Z {}; }',
        '#include "b.h"\nusing nn::Z;',
        'Z z;',
        'ab'),
    'using class template': (
        'namespace nn { template <class X> struct Z {}; }',
        '#include "b.h"\nusing nn::Z;',
        'Z<int> z;',
        'ab'),
    'using function template': (
        'namespace nn { template <class X> void h(X) {} }',
        '#include "b.h"\nusing nn::h;',
        'void f() { h(1); }',
        'ab'),
    'using variable': (
        'namespace nn { extern int v; }',
        '#include "b.h"\nusing nn::v;',
        'int* p = &v;',
        'ab'),
    'using enumerator': (
        'namespace nn { enum E { e }; }',
        '#include "b.h"\nusing nn::e;',
        'int f = e;',
        'ab'),
    'using typedef': (
        'namespace nn { typedef int T; }',
        '#include "b.h"\nusing nn::T;',
        'T t;',
        'ab'),
    'function redeclared': (
        'void f();',
        'void f();',
        'void f() {}',
        'ab'),
    'function redeclared thrice': (
        'void f();',
        '#include "b.h"\nvoid f();',
        'void f();\nvoid f() {}',
        'ab'),
    'variable redeclared': (
        'extern int v;',
        'extern int v;',
        'int v = 1;',
        'ab'),
    'unresolved overloads': (
        'void f(int);',
        'void f(float);',
        'template <class X> void g(X x) { f(x); }',
        None),
    'unresolved operators': (
        'struct B {}; void operator+(B, int);',
        'struct A {}; void operator+(A, int);',
        'template <class X> void g(X x) { x + 1; }',
        None),
    'class and out-of-class operator': (
        'struct B {};',
        '#include "b.h"\nB operator+(B, B);',
        'B f(B& b) { return b + b; }',
        'ab'),
    'class and free function': (
        'struct B {};',
        'struct B; void f(B&);',
        'void r(B& b) { f(b); b = b; }',
        'ab'),
    'derived and base': (
        'struct B { int m; };',
        '#include "b.h"\nstruct A : B {};',
        'int f(A& a) { return a.m; }',
        'a'),
    'derived and base method': (
        'struct B { void m(); };',
        '#include "b.h"\nstruct A : B {};',
        'void f(A& a) { a.m(); }',
        'a'),
    'static of base': (
        'struct B { static int s; };',
        '#include "b.h"\nstruct A : B {};',
        'int f() { return A::s; }',
        'a'),
    'typedef provides': (
        'struct B { int m; };',
        '#include "b.h"\ntypedef B T;',
        'int f(T& a) { return a.m; }',
        'a'),
    'alias provides': (
        'struct B { int m; };',
        '#include "b.h"\nusing T = B;',
        'T t;',
        'a'),
    'typedef of template': (
        'template <class X> struct B { X m; };',
        '#include "b.h"\ntypedef B<int> T;',
        'int f(T& a) { return a.m; }',
        'a'),
    'return type provides': (
        'struct B { int m; };',
        '#include "b.h"\nB g();',
        'int f() { return g().m; }',
        'ab'),
    'method return provides': (
        'struct B { int m; };',
        '#include "b.h"\nstruct A { B g(); };',
        'int f(A& a) { return a.g().m; }',
        'ab'),
    'member type': (
        'struct B { int m; };',
        '#include "b.h"\nstruct A { B b; };',
        'int f(A& a) { return a.b.m; }',
        'ab'),
    'member pointer': (
        'struct B { int m; };',
        'struct B; struct A { B* b; };',
        'int f(A& a) { return a.b->m; }',
        'ab'),
    'macro and what it uses': (
        'extern int v;',
        '#include "b.h"\n#define M v',
        'int f() { return M; }',
        'a'),
    'macro and argument': (
        'extern int v;',
        '#define M(x) (x)',
        'int f() { return M(v); }',
        'ab'),
    'template and argument': (
        'struct B { int m; };',
        'template <class X> struct A { X x; };',
        'A<B> a;',
        'ab'),
    'template and pointer argument': (
        'struct B { int m; };',
        'template <class X> struct A { X* x; int f() { return x->m; } };',
        'int f(A<B>& a) { return a.f(); }',
        'ab'),
    'primary and explicit specialisation': (
        'template <class X> struct B {};',
        '#include "b.h"\ntemplate <> struct B<int> {};',
        'B<int> f;',
        'a'),
    'primary and partial specialisation': (
        'template <class X> struct B {};',
        '#include "b.h"\ntemplate <class X> struct B<X*> {};',
        'B<int*> f;',
        'a'),
    'function specialisation': (
        'template <class X> void g(X) {}',
        '#include "b.h"\ntemplate <> void g<int>(int);',
        'void f() { g(1); }',
        'a'),
    'enum class forward': (
        'enum class E : int { e };',
        'enum class E : int;\nstruct A { E e; };',
        'void f(A& a) { a.e = E::e; }',
        'ab'),
    'method defined': (
        'struct B { void m(); };',
        '#include "b.h"\nstruct A : B { void n(); };',
        'void A::n() { m(); }',
        'a'),
    'conversion operator': (
        'struct B { int m; };',
        'struct B; struct A { operator B() const; };',
        'B f(A& a) { return a; }',
        'ab'),
    'literal': (
        'struct B { int m; };',
        'struct B; B operator""_b(unsigned long long);',
        'int f() { return (1_b).m; }',
        'ab'),
    'deleter': (
        'struct B { ~B(); };',
        'template <class X> struct A { ~A() { delete p; } X* p; };',
        'void f() { A<B> a; (void)a; }',
        'ab'),
    'default template argument': (
        'struct B { int m; };',
        '#include "b.h"\ntemplate <class X = B> struct A { X x; };',
        'A<> a;',
        'a'),
    'friend function': (
        'struct B { friend void g(B); };',
        '#include "b.h"\nvoid g(B);',
        'void f(B& b) { g(b); }',
        'ab'),
    'variable of class': (
        'struct B { int m; };',
        'struct B;\nextern B v;',
        'int f() { return v.m; }',
        'ab'),
    'array of class': (
        'struct B { int m; };',
        'struct B;\nextern B v[];',
        'int f() { return v[0].m; }',
        'ab'),
    'function pointer': (
        'struct B { int m; };',
        'struct B;\nextern B* (*g)();',
        'int f() { return g()->m; }',
        'ab'),
    'base conversion in call': (
        'struct B { int m; };',
        'struct B; void g(B*);',
        'struct D : B {}; void f(D* d) { g(d); }',
        'ab'),
}


def split_case(item):
    """A use that rests on two headers asks for both, or for the one that provides
    the other."""
    name, order = item
    b, a, text, want = SPLIT[name]
    files = {'a.h': cxx.guard('a.h', a + '\n'), 'b.h': cxx.guard('b.h', b + '\n'),
             'x.h': cxx.guard('x.h', '#include "a.h"\n#include "b.h"\n')}
    files['t.cc'] = ''.join('#include "%s.h"\n' % o for o in order) + text + '\n'
    args = ('-std=c++20', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    if want is None:
        want = [o for o in order if o != 'x']
    cxx.verdict(files, 't.cc', rep, {'#include "%s.h"' % w for w in want}, args)
    cxx.algebra(files, rep, args)
    return 1


# -- known findings ---------------------------------------------------------------
KNOWN = {
    'variable-template-argument': (
        'struct C { int x; };', 'template <typename X> constexpr int L = '
        'sizeof(X); int a = L<C>;'),
    'function-template-instantiation': (
        'template <typename X> X g(X x) { return x; }',
        'template char g<char>(char);'),
    'variable-template-instantiation': (
        'template <typename X> X v = X();', 'template char v<char>;'),
    'method-instantiation': (
        'template <typename X> struct P { void f() {} };',
        'template void P<int>::f();'),
    'static-member-instantiation': (
        'template <typename X> struct P { static int s; };\n'
        'template <typename X> int P<X>::s = 1;', 'template int P<int>::s;'),
}


def known_case(item):
    key, direct = item
    header, text = KNOWN[key]
    files = {'h.h': cxx.guard('h.h', header + '\n'),
             'x.h': cxx.guard('x.h', '#include "h.h"\n')}
    files['t.cc'] = '#include "%s.h"\n' % direct + text + '\n'
    args = ('-std=c++20', 't.cc')
    rc, rep, out = cxx.analyse(files, args)
    cxx.algebra(files, rep, args)
    try:
        cxx.verdict(files, 't.cc', rep, {'#include "h.h"'}, args)
    except Violation as e:
        e.key = key
        raise
    return 1


def main():
    c = Check(PROP)
    deep = TIER == 'thorough'
    graphs = [tuple(g[i] for i in range(3)) for g in cxx.dags(3)]
    items = []

    def add(kinds_targets, orders, places):
        for g in graphs:
            gd = dict(enumerate(g))
            for direct in orders:
                r = cxx.reach(gd, direct)
                for number, uses in enumerate(kinds_targets):
                    # every other graph is enough for one of many kinds
                    if not deep and len(uses) == 1 and \
                            (number + graphs.index(g)) % 2:
                        continue
                    if all(h in r for _, h in uses):
                        for p in places:
                            items.append((g, direct, uses, p))
    sub = cxx.subsets(range(3))
    perms = cxx.ordered_subsets(range(3))
    singles = [((k, h),) for k in KINDS for h in range(3)]
    some = [s for s in singles if s[0][1] == 2] if not deep else singles
    add(some, [s for s in perms if len(s) in (1, 2)] if not deep else perms,
        ['source'])
    add(some if deep else [s for s in some], sub if deep else [(0,), (0, 1)],
        ['associated', 'beside'])
    pk = DEEP_PAIR if deep else PAIR[:4]
    pairs = [((a, i), (b, j)) for a in pk for b in pk
             for i in range(3) for j in range(3) if i != j]
    add(pairs, sub, ['source'])
    if deep:
        add([((a, 0), (b, 1), (d, 2)) for a in PAIR[:5] for b in PAIR[:5]
             for d in PAIR[:5]], perms, ['source'])
    res = c.explore('uses', case, items)
    conv = [(g, u, depth, base, lists) for g in GIVES
            for u in TAKES['pointer' if 'pointer' in g else 'reference']
            for depth in (1, 2) for base in (False, True)
            for lists in (('c.h', 'x.h'), ('x.h', 'c.h'), ('c.h', 'd.h'),
                          ('d.h', 'c.h', 'b.h'), ('c.h', 'b.h', 'x.h'))]
    c.explore('conversions', conversion_case, conv)
    ctx = [(x, k, h, d) for x in CONTEXTS for k in KINDS if fits(x, k)
           for h, d in (((2, (0,)), (1, (1,)), (1, (2, 0))) if deep else
                        ((2, (0,)),))]
    written = c.explore('contexts', context_case, ctx).count(1)
    split = [(n, o) for n in SPLIT for o in ('ab', 'ba', 'x', 'bx', 'ax', 'abx',
                                             'xab', 'bax', 'xb', 'xa')]
    c.explore('two headers', split_case, split)
    c.explore('recorded', known_case, [(k, d) for k in KNOWN for d in 'xh'])
    c.confirm_binding([(dict(headers({0: (1,), 1: ()}), **{
        't.cc': '#include "h0.h"\n' + use(k, 1, 0) + '\n'}),
        ('-std=c++20', 't.cc')) for k in list(KINDS)[::9]])
    c.sample({'headers include': graphs[5], 'source includes': [0],
              'use': use('member template', 2, 0)})
    c.finish(states=len({(i[0], i[1], i[2]) for i in items}),
             transitions=len(items) + len(conv) + len(ctx) + len(split), use_kinds=len(KINDS),
             graphs=len(graphs), uses_in_contexts=written, correct_files=sum(1 for r in res if r))


if __name__ == '__main__':
    main()
