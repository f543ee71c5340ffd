// Mocks of existing objects: spied methods, isolation, destructors.
#include "client.hpp"
struct Boom { int v; };
struct K { long a, b; K(long a = 0, long b = 0) : a(a), b(b) {} K(const K &o) : a(o.a), b(o.b) {} K &operator=(const K &o) { a = o.a; b = o.b; return *this; } bool operator==(const K &o) const { return a == o.a && b == o.b; } };
struct C {
    int base = 100, runs = 0, fruns = 0, gruns = 0, sa = 0, sb = 0; K *sk = nullptr; const K *sc = nullptr; double sd = 0;
    virtual int f(int a) { ++runs; ++fruns; sa = a; return base + a; }
    virtual int two(int a, int b) { ++runs; sa = a; sb = b; return a - b; }
    virtual int thr(int a) { ++runs; sa = a; if (a > base) throw Boom{a}; return a; }
    virtual K obj(K k, K &r, const K &c, double d) { ++runs; sk = &r; sc = &c; sd = d; r.b = k.a; return K(k.b, k.a); }
    virtual int &ref(int a) { ++runs; sa = a; return base; }
    virtual void none(int *p) { ++runs; *p = base; }
    virtual int cst(int a) const { const_cast<C *>(this)->sa = a; return base - a; }
    virtual int g(int a) { ++runs; ++gruns; sa = a; return base * 2 + a; }
    virtual int outer(int a) { ++runs; return g(a) + 1; }
    virtual ~C() { ++gone; } static int gone; };
int C::gone;
struct D : C { int f(int a) override { ++runs; ++fruns; sa = a; return base + a + 1; } int g(int a) override { ++runs; ++gruns; sa = a; return 7; } };
#define SMALL(x) ASSUME((x) > -1000 && (x) < 1000)

// ---- spied methods
PROOF(C11, one_argument)(int a, int b) { SMALL(a); SMALL(b); C c_, &c = *launder(&c_); c.base = b; Mock<C> m(c); Spy(Method(m, f)); PROVE(&m.get() == &c, "the mock stands for the object"); int r = c.f(a); PROVE(r == a + b && c.runs == 1 && c.sa == a, "the original runs once with the argument and its result is returned"); r = m.get().f(b); PROVE(r == b + b && c.runs == 2 && c.sa == b, "also the second time"); PROVE((bool)Verify(Method(m, f)).Exactly(2) && (bool)Verify(Method(m, f).Using(a)).Exactly(a == b ? 2 : 1), "calls are recorded"); }
PROOF(C11, two_arguments)(int a, int b) { SMALL(a); SMALL(b); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, two)); int r = c.two(a, b); PROVE(r == a - b && c.sa == a && c.sb == b && c.runs == 1, "two arguments in order"); r = c.two(b, a); PROVE(r == b - a && c.sa == b && c.sb == a && c.runs == 2, "again"); PROVE((bool)Verify(Method(m, two).Using(a, b) + Method(m, two).Using(b, a)).Once(), "recorded in order"); }
PROOF(C11, kinds_of_arguments)(long x, long y, double d) { C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, obj)); for (int i = 0; i < 2; ++i) { K v(x, y), r(5, 6), k(7, 8); K got = c.obj(v, r, k, d); PROVE(got.a == y && got.b == x && c.runs == i + 1, "objects by value"); PROVE(c.sk == &r && c.sc == &k && r.b == x && r.a == 5, "references are the caller's objects"); PROVE(c.sd == d || d != d, "floating point"); } }
PROOF(C11, throwing_original)(int a, int b) { SMALL(a); SMALL(b); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, thr)); for (int i = 0; i < 3; ++i) { int x = i == 1 ? b : a, got = 0, th = 0; try { got = c.thr(x); } catch (Boom &e) { th = 1; got = e.v; } PROVE(got == x && th == (x > 100) && c.runs == i + 1 && c.sa == x, "the original runs; its result or exception reaches the caller; also after an exception"); } PROVE((bool)Verify(Method(m, thr)).Exactly(3), "recorded"); }
PROOF(C11, reference_result)(int a) { C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, ref)); PROVE(&c.ref(a) == &c.base && &c.ref(a) == &c.base && c.runs == 2, "a returned reference"); }
PROOF(C11, no_result)(int b) { C c_, &c = *launder(&c_); c.base = b; Mock<C> m(c); Spy(Method(m, none)); int x = 0; c.none(&x); PROVE(x == b && c.runs == 1, "void methods"); x = 0; c.none(&x); PROVE(x == b && c.runs == 2, "again"); }
PROOF(C11, const_method)(int a) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(ConstOverloadedMethod(m, cst, int(int))); const C &k = c; PROVE(k.cst(a) == 100 - a && c.sa == a, "const methods"); PROVE(k.cst(a) == 100 - a, "again"); }
PROOF(C11, inner_calls)(int a) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, outer)); Spy(Method(m, g)); PROVE(c.outer(a) == 201 + a && c.runs == 2 && c.gruns == 1, "calls made by the original go through the object"); PROVE((bool)Verify(Method(m, g)).Once() && (bool)Verify(Method(m, outer)).Once(), "both are recorded"); When(Method(m, g)).AlwaysReturn(5); PROVE(c.outer(a) == 6 && c.gruns == 1, "a stubbed inner method"); }
PROOF(C11, others_run_original)(int a, int r) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, f)); When(Method(m, two)).AlwaysReturn(r); PROVE(c.g(a) == 200 + a && c.gruns == 1 && c.runs == 1, "methods that are neither spied nor stubbed run their original"); PROVE(c.two(a, a) == r && c.runs == 1, "a stubbed one does not"); PROVE(c.f(a) == 100 + a && c.runs == 2, "a spied one does"); }
PROOF(C11, derived_object)(int a) { SMALL(a); D d_; C &c = *launder((C *)&d_); Mock<C> m(c); Spy(Method(m, f)); PROVE(c.f(a) == 101 + a && c.fruns == 1, "the original is the object's own"); PROVE(c.g(a) == 7, "others too"); PROVE(c.f(a) == 101 + a && c.fruns == 2, "again"); }
PROOF(C11, spied_then_stubbed)(int a, int e, int r) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, f)); When(Method(m, f).Using(e)).AlwaysReturn(r); int got = c.f(a); PROVE(got == (a == e ? r : 100 + a) && c.runs == (a != e), "the stubbing takes its calls, the spy the others"); Spy(Method(m, f)); PROVE(c.f(a) == 100 + a, "spied again"); }
PROOF(C11, spied_with_criteria)(int a, int e) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); When(Method(m, f)).AlwaysReturn(1); Spy(Method(m, f).Using(Gt(e))); int got = c.f(a); PROVE(got == (a > e ? 100 + a : 1) && c.runs == (a > e), "criteria of a spy"); }
PROOF(C11, without_verify)(int a) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); SpyWithoutVerify(Method(m, f)); PROVE(c.f(a) == 100 + a && c.runs == 1 && c.sa == a, "SpyWithoutVerify"); PROVE(c.f(a) == 100 + a && c.runs == 2, "again"); }
PROOF(C11, two_objects)(int a, int b1, int b2) { SMALL(a); SMALL(b1); SMALL(b2); C c1_, &c1 = *launder(&c1_), c2_, &c2 = *launder(&c2_); c1.base = b1; c2.base = b2; Mock<C> m1(c1), m2(c2); Spy(Method(m1, f), Method(m2, f)); PROVE(c1.f(a) == b1 + a && c2.f(a) == b2 + a && c1.runs == 1 && c2.runs == 1, "every object runs its own"); PROVE((bool)Verify(Method(m1, f) + Method(m2, f)).Once(), "recorded per mock"); }
PROOF(C11, several_in_one_phrase)(int a) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, f), Method(m, g), Method(m, two)); PROVE(c.g(a) == 200 + a && c.gruns == 1 && c.fruns == 0, "the second method"); PROVE(c.f(a) == 100 + a && c.fruns == 1 && c.gruns == 1, "the first method"); PROVE(c.two(a, 1) == a - 1 && c.runs == 3, "the third"); }

// ---- isolation
#define METHS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
#define V(i) virtual int m##i(int a) { return base + i * 100 + a; }
struct W0 { int base = 0; virtual ~W0() { ++gone; } METHS(V) static int gone; };
struct W1 { int base = 0; V(0) V(1) V(2) V(3) V(4) virtual ~W1() { ++gone; } V(5) V(6) V(7) V(8) V(9) V(10) V(11) static int gone; };
struct W2 { int base = 0; METHS(V) virtual ~W2() { ++gone; } static int gone; };
int W0::gone, W1::gone, W2::gone;
template<class W> static int call(W &w, int i, int a) { switch (i) {
#define CALL(i) case i: return w.m##i(a);
    METHS(CALL) } return 0; }
template<class W> static bool as(W &w, int hit, int r, int a) { bool ok = true; for (int i = 0; i < 12; ++i) ok = ok && call(w, i, a) == (i == hit ? r : w.base + i * 100 + a); return ok; }
template<class W> static bool unmocked(W &w, int hit, int r, int a) { bool ok = true; for (int i = 0; i < 12; ++i) { int got = -5; int how = ends([&] { got = call(w, i, a); }); ok = ok && (i == hit ? how == RETURNED && got == r : how == UNEXPECTED); } return ok; }
#define POS(Wn, i) static void Wn##_pos##i(int a, int r) { Wn::gone = 0; SMALL(a); Wn w_, &w = *launder(&w_), o_, &o = *launder(&o_); { Mock<Wn> m(w), own; When(Method(m, m##i)).AlwaysReturn(r); PROVE(as(w, i, r, a), "exactly method " #i " of exactly this object is redirected"); PROVE(as(o, -1, 0, a), "another object is not"); When(Method(own, m##i)).AlwaysReturn(r); PROVE(unmocked(own.get(), i, r, a) && as(w, i, r, a), "an owned mock on its own"); } PROVE(as(w, -1, 0, a) && Wn::gone == 0, "the object is back to its original behaviour"); }
#define POS0(i) POS(W0, i)
#define POS1(i) POS(W1, i)
#define POS2(i) POS(W2, i)
METHS(POS0) METHS(POS1) METHS(POS2)
PROOF(C12, inside_an_original)(int a, int r) { SMALL(a); SMALL(r); C c_, &c = *launder(&c_); Mock<C> m(c); When(Method(m, g)).AlwaysReturn(r); Spy(Method(m, outer)); PROVE(c.outer(a) == r + 1 && c.gruns == 0 && c.runs == 1, "a stubbed method answers a call made by a spied original"); PROVE(c.g(a) == r && c.f(a) == 100 + a, "afterwards too"); PROVE((bool)Verify(Method(m, g)).Exactly(2), "both calls are recorded"); }
PROOF(C12, position_0_dtor_first)(int a, int r) { W0_pos0(a, r); }
PROOF(C12, position_1_dtor_first)(int a, int r) { W0_pos1(a, r); }
PROOF(C12, position_2_dtor_first)(int a, int r) { W0_pos2(a, r); }
PROOF(C12, position_3_dtor_first)(int a, int r) { W0_pos3(a, r); }
PROOF(C12, position_4_dtor_first)(int a, int r) { W0_pos4(a, r); }
PROOF(C12, position_5_dtor_first)(int a, int r) { W0_pos5(a, r); }
PROOF(C12, position_6_dtor_first)(int a, int r) { W0_pos6(a, r); }
PROOF(C12, position_7_dtor_first)(int a, int r) { W0_pos7(a, r); }
PROOF(C12, position_8_dtor_first)(int a, int r) { W0_pos8(a, r); }
PROOF(C12, position_9_dtor_first)(int a, int r) { W0_pos9(a, r); }
PROOF(C12, position_10_dtor_first)(int a, int r) { W0_pos10(a, r); }
PROOF(C12, position_11_dtor_first)(int a, int r) { W0_pos11(a, r); }
PROOF(C12, position_0_dtor_inside)(int a, int r) { W1_pos0(a, r); }
PROOF(C12, position_1_dtor_inside)(int a, int r) { W1_pos1(a, r); }
PROOF(C12, position_2_dtor_inside)(int a, int r) { W1_pos2(a, r); }
PROOF(C12, position_3_dtor_inside)(int a, int r) { W1_pos3(a, r); }
PROOF(C12, position_4_dtor_inside)(int a, int r) { W1_pos4(a, r); }
PROOF(C12, position_5_dtor_inside)(int a, int r) { W1_pos5(a, r); }
PROOF(C12, position_6_dtor_inside)(int a, int r) { W1_pos6(a, r); }
PROOF(C12, position_7_dtor_inside)(int a, int r) { W1_pos7(a, r); }
PROOF(C12, position_8_dtor_inside)(int a, int r) { W1_pos8(a, r); }
PROOF(C12, position_9_dtor_inside)(int a, int r) { W1_pos9(a, r); }
PROOF(C12, position_10_dtor_inside)(int a, int r) { W1_pos10(a, r); }
PROOF(C12, position_11_dtor_inside)(int a, int r) { W1_pos11(a, r); }
PROOF(C12, position_0_dtor_last)(int a, int r) { W2_pos0(a, r); }
PROOF(C12, position_1_dtor_last)(int a, int r) { W2_pos1(a, r); }
PROOF(C12, position_2_dtor_last)(int a, int r) { W2_pos2(a, r); }
PROOF(C12, position_3_dtor_last)(int a, int r) { W2_pos3(a, r); }
PROOF(C12, position_4_dtor_last)(int a, int r) { W2_pos4(a, r); }
PROOF(C12, position_5_dtor_last)(int a, int r) { W2_pos5(a, r); }
PROOF(C12, position_6_dtor_last)(int a, int r) { W2_pos6(a, r); }
PROOF(C12, position_7_dtor_last)(int a, int r) { W2_pos7(a, r); }
PROOF(C12, position_8_dtor_last)(int a, int r) { W2_pos8(a, r); }
PROOF(C12, position_9_dtor_last)(int a, int r) { W2_pos9(a, r); }
PROOF(C12, position_10_dtor_last)(int a, int r) { W2_pos10(a, r); }
PROOF(C12, position_11_dtor_last)(int a, int r) { W2_pos11(a, r); }
PROOF(C12, all_methods)(int a, int r) { SMALL(a); SMALL(r); W1 w_, &w = *launder(&w_); { Mock<W1> m(w);
#define STUB(i) When(Method(m, m##i)).AlwaysReturn(r + i);
    METHS(STUB) bool ok = true; for (int i = 0; i < 12; ++i) ok = ok && call(w, i, a) == r + i; PROVE(ok, "every method has its own stubbing"); } PROVE(as(w, -1, 0, a), "original again"); }
PROOF(C12, destructor_stub)(int a) { W1::gone = 0; W1 w_, *w = launder(&w_); int n = 0; { Mock<W1> m(*w); When(Dtor(m)).AlwaysDo([&] { ++n; }); When(Method(m, m5)).AlwaysReturn(9); w->~W1(); PROVE(n == 1 && W1::gone == 0, "an explicit destructor call is intercepted"); delete w; PROVE(n == 2 && W1::gone == 0, "delete is intercepted"); PROVE(w->m4(1) == 401 && w->m5(1) == 9 && w->m6(1) == 601, "methods next to it"); PROVE((bool)Verify(Dtor(m)).Exactly(2), "recorded"); } PROVE(n == 2 && W1::gone == 0, "the end of the mock does not run it"); w->~W1(); PROVE(n == 2 && W1::gone == 1, "the original destructor is back"); new (w) W1; }
PROOF(C12, destructor_first)(int a) { W0::gone = 0; int n = 0; Mock<W0> m; When(Dtor(m)).AlwaysDo([&] { ++n; }); When(Method(m, m0)).AlwaysReturn(3); W0 *w = &m.get(); w->~W0(); delete w; PROVE(n == 2 && W0::gone == 0 && w->m0(a) == 3, "destructor in the first place"); PROVE(ends([&] { w->m1(a); }) == UNEXPECTED, "other methods"); }
PROOF(C12, destructor_last)(int a) { W2::gone = 0; int n = 0; Mock<W2> m; When(Dtor(m)).AlwaysDo([&] { ++n; }); When(Method(m, m11)).AlwaysReturn(3); W2 *w = &m.get(); w->~W2(); delete w; PROVE(n == 2 && W2::gone == 0 && w->m11(a) == 3, "destructor in the last place"); PROVE(ends([&] { w->m10(a); }) == UNEXPECTED, "other methods"); }
PROOF(C12, destructor_actions)(int a) { int n = 0; Mock<W1> m; When(Dtor(m)).Do([&] { n += 1; }).Do([&] { n += 10; }); W1 *w = &m.get(); delete w; PROVE(n == 1, "first"); w->~W1(); PROVE(n == 11, "second"); }
PROOF(C12, many_mocks)(int a, int r1, int r2) { SMALL(a); W1 w1_, &w1 = *launder(&w1_), w2_, &w2 = *launder(&w2_); { Mock<W1> m1(w1); When(Method(m1, m3)).AlwaysReturn(r1); { Mock<W1> m2(w2); When(Method(m2, m7)).AlwaysReturn(r2); PROVE(as(w1, 3, r1, a) && as(w2, 7, r2, a), "each mock its own object"); } PROVE(as(w1, 3, r1, a) && as(w2, -1, 0, a), "the end of one"); } PROVE(as(w1, -1, 0, a), "the end of both"); Mock<W1> m3(w1); When(Method(m3, m7)).AlwaysReturn(r2); PROVE(as(w1, 7, r2, a), "mocked again"); }
PROOF(C12, values_of_the_object)(int a, int v) { C::gone = 0; SMALL(v); SMALL(a); C c_, &c = *launder(&c_); c.base = v; c.sa = a; { Mock<C> m(c); When(Method(m, f)).AlwaysReturn(1); c.f(a); PROVE(c.base == v && c.sa == a && c.runs == 0, "data members are not touched"); } PROVE(c.base == v && c.f(1) == v + 1 && C::gone == 0, "nor at the end"); }
struct B0 { virtual int f(int) { return 1; } virtual int f(int, int) { return 2; } virtual int f(double) const { return 3; } virtual int g() const { return 4; } virtual ~B0() {} };
struct D0 : B0 { using B0::f; int f(int) override { return 11; } virtual int h() { return 12; } int g() const override { return 14; } virtual int f(char) { return 13; } };
static bool d0(D0 &x, int hit, int r) { int want[6] = {11, 2, 3, 14, 12, 13}; if (hit >= 0) want[hit] = r; return x.f(1) == want[0] && x.f(1, 2) == want[1] && const_cast<const D0 &>(x).f(1.0) == want[2] && x.g() == want[3] && x.h() == want[4] && x.f('a') == want[5]; }
PROOF(C12, overload_int)(int r) { D0 d_, &d = *launder(&d_), e_, &e = *launder(&e_); { Mock<D0> m(d); When(OverloadedMethod(m, f, int(int))).AlwaysReturn(r); PROVE(d0(d, 0, r) && d0(e, -1, 0), "exactly this overload"); } PROVE(d0(d, -1, 0), "back"); }
PROOF(C12, overload_int_int)(int r) { D0 d_, &d = *launder(&d_), e_, &e = *launder(&e_); { Mock<D0> m(d); When(OverloadedMethod(m, f, int(int, int))).AlwaysReturn(r); PROVE(d0(d, 1, r) && d0(e, -1, 0), "exactly this overload"); } PROVE(d0(d, -1, 0), "back"); }
PROOF(C12, overload_const)(int r) { D0 d_, &d = *launder(&d_), e_, &e = *launder(&e_); { Mock<D0> m(d); When(ConstOverloadedMethod(m, f, int(double))).AlwaysReturn(r); PROVE(d0(d, 2, r) && d0(e, -1, 0), "exactly this overload"); } PROVE(d0(d, -1, 0), "back"); }
PROOF(C12, overridden_in_derived)(int r) { D0 d_, &d = *launder(&d_), e_, &e = *launder(&e_); { Mock<D0> m(d); When(Method(m, g)).AlwaysReturn(r); PROVE(d0(d, 3, r) && d0(e, -1, 0), "exactly this method"); } PROVE(d0(d, -1, 0), "back"); }
PROOF(C12, new_in_derived)(int r) { D0 d_, &d = *launder(&d_), e_, &e = *launder(&e_); { Mock<D0> m(d); When(Method(m, h)).AlwaysReturn(r); When(OverloadedMethod(m, f, int(char))).AlwaysReturn(13); PROVE(d0(d, 4, r) && d0(e, -1, 0), "exactly this method"); } PROVE(d0(d, -1, 0), "back"); }
PROOF(C12, original_throws)(int a) { SMALL(a); ASSUME(a > 100); C c_, &c = *launder(&c_); { Mock<C> m(c); Spy(Method(m, thr)); ends([&] { c.thr(a); }); When(Method(m, f)).AlwaysThrow(Boom{1}); ends([&] { c.f(a); }); PROVE(c.g(a) == 200 + a, "others"); } PROVE(c.f(a) == 100 + a && c.g(a) == 200 + a, "back to the original after exceptions"); }
