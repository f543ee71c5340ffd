// Reset, clearing, data members, default values, life of stubbings.
#include "client.hpp"
struct Obj {     // counts its lives; never lives twice at one place
    static int made, gone, bad; int a, b; Obj *self;
    Obj(int a = -1, int b = -2) : a(a), b(b), self(this) { ++made; } Obj(const Obj &o) : a(o.a), b(o.b), self(this) { if (o.self != &o) ++bad; ++made; } Obj &operator=(const Obj &o) { if (o.self != &o || self != this) ++bad; a = o.a; b = o.b; return *this; }
    ~Obj() { if (self != this) ++bad; self = nullptr; ++gone; } bool operator==(const Obj &o) const { return a == o.a && b == o.b; } static int alive() { return made - gone; } };
int Obj::made, Obj::gone, Obj::bad;
struct Boom {};
static int boom() { throw Boom(); }
struct B { virtual int f(int) = 0; virtual int g(int) = 0; virtual Obj v(Obj) = 0; virtual ~B() {} int x; Obj o; double d; Obj p; char c; long last; };
struct C { int base = 100; virtual int f(int x) { return base + x; } virtual int g(int x) { return base - x; } virtual Obj v(Obj o) { return Obj(o.a, base); } virtual ~C() { ++gone; } static int gone; };
int C::gone;
#define SMALL(x) ASSUME((x) > -1000 && (x) < 1000)

// ---- Reset
PROOF(C09, unmocked_again)(int r, int a) { Mock<B> m; When(Method(m, f)).AlwaysReturn(r); When(Method(m, g)).AlwaysReturn(r); m.get().f(a); m.Reset(); Listen l; PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED && ends([&] { m.get().g(a); }) == UNEXPECTED && l.r.unexpected == 2 && l.r.unmocked == 2, "methods are unmocked again"); }
PROOF(C09, history_is_empty)(int a, int b) { Mock<B> m; When(Method(m, f)).AlwaysReturn(1); When(Method(m, g)).AlwaysReturn(1); m.get().f(a); m.get().g(a); m.Reset(); Fake(Method(m, f), Method(m, g)); PROVE((bool)Verify(Method(m, f)).Never() && (bool)Verify(Method(m, g)).Never(), "no earlier call is visible"); VerifyNoOtherInvocations(m); m.get().f(b); PROVE((bool)Verify(Method(m, f)).Exactly(1) && (bool)Verify(Method(m, f).Using(b)).Exactly(1), "later calls are"); }
PROOF(C09, no_old_stubbing)(int e, int a, int r) { Mock<B> m; When(Method(m, f)).AlwaysReturn(1); When(Method(m, f).Using(e)).Return(2, 3); m.get().f(e); m.Reset(); When(Method(m, f).Using(Ne(e))).AlwaysReturn(r); int got = 0; Listen l; int how = ends([&] { got = m.get().f(a); }); PROVE(how == (a == e ? UNEXPECTED : RETURNED) && got == (a == e ? 0 : r), "only the new stubbing answers"); PROVE(l.r.unmocked == 0 && l.r.unexpected == (a == e), "and the method counts as mocked"); }
PROOF(C09, reset_twice)(int a, int r) { Mock<B> m; m.Reset(); When(Method(m, f)).AlwaysReturn(1); m.Reset(); m.Reset(); When(Method(m, f)).AlwaysReturn(r); PROVE(m.get().f(a) == r, "stubbed again"); PROVE((bool)Verify(Method(m, f)).Once(), "history"); }
PROOF(C09, spied_object_again)(int a, int r) { SMALL(a); C c_, &c = *launder(&c_); { Mock<C> m(c); When(Method(m, f)).AlwaysReturn(r); Spy(Method(m, g)); PROVE(c.f(a) == r && c.g(a) == 100 - a, "mocked"); m.Reset(); PROVE(c.f(a) == 100 + a && c.g(a) == 100 - a, "the original methods run"); When(Method(m, g)).AlwaysReturn(r); PROVE(c.g(a) == r && c.f(a) == 100 + a, "stubbed again"); PROVE((bool)Verify(Method(m, g)).Once(), "history"); } PROVE(c.f(a) == 100 + a && c.g(a) == 100 - a, "original at the end"); }
PROOF(C09, members_again)(int v, int w, int z) { Mock<B> m; m.Stub(&B::x, v); m.Stub(&B::o, v, w); m.get().last = z; int n = Obj::alive(); m.Reset(); PROVE(Obj::alive() == n - 1, "the stubbed object is destroyed"); PROVE(m.get().x == 0 && m.get().last == 0 && m.get().o.a == 0, "members read as zero"); m.Stub(&B::x, w); m.Stub(&B::o, w, v); PROVE(m.get().x == w && m.get().o.a == w && m.get().o.b == v && Obj::bad == 0, "stubbed again"); }
PROOF(C09, destructor_again)(int a) { Mock<B> m; int n = 0; When(Dtor(m)).AlwaysDo([&] { n += 1; }); delete &m.get(); PROVE(n == 1, "stubbed"); m.Reset(); Listen l; B *p = &m.get(); p->~B(); delete p; PROVE(n == 1 && l.r.all() == 0, "the old destructor stub is gone"); When(Dtor(m)).AlwaysDo([&] { n += 10; }); delete &m.get(); PROVE(n == 11, "stubbed again"); }
PROOF(C09, other_mock_untouched)(int a, int r, int v) { Mock<B> m, n; When(Method(m, f)).AlwaysReturn(1); When(Method(n, f)).Return(r, r); n.Stub(&B::x, v); n.get().f(a); m.Reset(); PROVE(n.get().x == v && n.get().f(a) == r, "the other mock keeps members and actions"); PROVE((bool)Verify(Method(n, f).Using(a)).Exactly(2), "and its history"); }
PROOF(C09, action_left_over)(int a, int r) { Mock<B> m; When(Method(m, f)).Return(1, 2, 3); m.get().f(a); m.Reset(); When(Method(m, f)).Return(r); PROVE(m.get().f(a) == r, "new action"); PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED, "no action is left over"); }
PROOF(C09, verified_marks)(int a) { Mock<B> m; Fake(Method(m, f)); m.get().f(a); Verify(Method(m, f)); m.Reset(); Fake(Method(m, f)); m.get().f(a); PROVE(!(bool)VerifyNoOtherInvocations(m), "the new call is not verified"); }

// ---- clearing the history
PROOF(C10, forgets_calls)(int a, int b) { Mock<B> m; Fake(Method(m, f), Method(m, g)); m.get().f(a); m.get().g(b); Verify(Method(m, f)); m.ClearInvocationHistory(); PROVE((bool)Verify(Method(m, f)).Never() && (bool)Verify(Method(m, g)).Never() && (bool)VerifyNoOtherInvocations(m) && (bool)VerifyNoOtherInvocations(Method(m, f)), "no verification sees them"); m.get().g(a); PROVE((bool)Verify(Method(m, g).Using(a)).Exactly(1) && (bool)Verify(Method(m, f)).Never(), "later calls are seen"); }
PROOF(C10, keeps_actions)(int a, int r1, int r2, int r3) { Mock<B> m; When(Method(m, f)).Return(r1, r2).AlwaysReturn(r3); m.get().f(a); m.ClearInvocationHistory(); PROVE(m.get().f(a) == r2, "the remaining action"); m.ClearInvocationHistory(); PROVE(m.get().f(a) == r3, "the always action"); PROVE((bool)Verify(Method(m, f)).Once(), "history since"); }
PROOF(C10, keeps_times)(int a, int r) { Mock<B> m; When(Method(m, f)).Return(3_Times(r)); m.get().f(a); m.ClearInvocationHistory(); PROVE(m.get().f(a) == r && m.get().f(a) == r, "two uses remain"); PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED, "and no more"); }
PROOF(C10, keeps_used_up)(int a, int r) { Mock<B> m; When(Method(m, f)).AlwaysReturn(5); When(Method(m, f)).Return(r); m.get().f(a); m.ClearInvocationHistory(); PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED, "used up stays used up"); }
PROOF(C10, keeps_stubbings)(int e, int a) { Mock<B> m; When(Method(m, f)).AlwaysReturn(1); When(Method(m, f).Using(Gt(e))).AlwaysReturn(2); m.ClearInvocationHistory(); PROVE(m.get().f(a) == (a > e ? 2 : 1), "criteria and order stay"); }
PROOF(C10, keeps_members)(int v, int w) { Mock<B> m; m.Stub(&B::x, v); m.Stub(&B::o, v, w); m.get().last = w; int n = Obj::alive(), k = Obj::made; m.ClearInvocationHistory(); PROVE(m.get().x == v && m.get().o.a == v && m.get().o.b == w && m.get().last == w, "members keep their values"); PROVE(Obj::alive() == n && Obj::made == k, "no object is made or destroyed"); }
PROOF(C10, keeps_unmocked_and_destructor)(int a) { Mock<B> m; int n = 0; When(Dtor(m)).AlwaysDo([&] { ++n; }); delete &m.get(); m.ClearInvocationHistory(); delete &m.get(); PROVE(n == 2, "the destructor stub stays"); Listen l; PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED && l.r.unmocked == 1, "an unmocked method stays unmocked"); }
PROOF(C10, other_mock_untouched10)(int a) { Mock<B> m, n; Fake(Method(m, f), Method(n, f)); m.get().f(a); n.get().f(a); m.ClearInvocationHistory(); PROVE((bool)Verify(Method(n, f).Using(a)).Once() && (bool)Verify(Method(m, f)).Never(), "the other mock keeps its history"); PROVE(!(bool)Verify(Method(n, f) + Method(m, f)).Once(), "also in a common sequence"); }
PROOF(C10, spy_stays)(int a) { SMALL(a); C c_, &c = *launder(&c_); Mock<C> m(c); Spy(Method(m, f)); When(Method(m, g)).AlwaysReturn(3); c.f(a); m.ClearInvocationHistory(); PROVE(c.f(a) == 100 + a && c.g(a) == 3, "spied and stubbed methods stay"); PROVE((bool)Verify(Method(m, f)).Once(), "history since"); }
PROOF(C10, objects_released)(int a) { Mock<B> m; When(Method(m, v)).AlwaysReturn(Obj(1)); int n = Obj::alive(); m.get().v(Obj(a)); m.get().v(Obj(a)); PROVE(Obj::alive() == n + 2, "the history keeps the arguments"); m.ClearInvocationHistory(); PROVE(Obj::alive() == n && Obj::bad == 0, "and releases them"); }

// ---- life of stubbings
PROOF(C15, everything_released)(int a, int b, int e) { { Mock<B> w; Fake(Method(w, v)); w.get().v(Obj(1)); } long h = verif_live(); int n = Obj::alive();
    { Mock<B> m; Obj cap(a); When(Method(m, v).Using(Obj(e, e))).Return(Obj(1), Obj(2)).Throw(Obj(3)); When(Method(m, f).Matching([cap](int x) { return x == cap.a; })).AlwaysDo([cap](int) { return cap.b; }); Method(m, g) = [cap](int x) { return cap.a; }; m.Stub(&B::p, cap);
      ends([&] { m.get().v(Obj(a, b)); }); ends([&] { m.get().v(Obj(e, e)); }); ends([&] { m.get().v(Obj(e, e)); }); ends([&] { m.get().v(Obj(e, e)); }); ends([&] { m.get().v(Obj(e, e)); }); ends([&] { m.get().f(b); }); ends([&] { m.get().g(b); }); Verify(Method(m, g)); (bool)Verify(Method(m, v).Using(Obj(a, b))); }
    PROVE(Obj::alive() == n && Obj::bad == 0, "every object is destroyed exactly once"); PROVE(verif_live() == h, "every heap object is released"); }
PROOF(C15, released_by_reset)(int a, int e) { Mock<B> m; int n; long h; Fake(Method(m, f)); m.Reset(); n = Obj::alive(); h = verif_live(); { Obj cap(a); When(Method(m, v).Using(Obj(e, e))).AlwaysReturn(Obj(1)); When(Method(m, f)).AlwaysDo([cap](int) { return cap.b; }); } ends([&] { m.get().v(Obj(a, a)); }); m.get().f(a); m.Reset(); PROVE(Obj::alive() == n && Obj::bad == 0, "every object is destroyed exactly once"); PROVE(verif_live() == h, "every heap object is released"); }
PROOF(C15, used_up_actions)(int a, int b) { int n = Obj::alive(); { Mock<B> m; { Obj cap(b); When(Method(m, f)).Do([cap](int) { return cap.a; }).Do([cap](int) -> int { throw Boom(); }).Return(3); } PROVE(m.get().f(a) == b, "first"); PROVE(ends([&] { m.get().f(a); }) == OTHER, "second"); PROVE(m.get().f(a) == 3, "third"); } PROVE(Obj::alive() == n && Obj::bad == 0, "every action is destroyed exactly once"); }
PROOF(C15, abandoned_return)(int a, int r) { Mock<B> m; When(Method(m, f)).AlwaysReturn(r); int n = Obj::alive(); { Obj cap(a); try { When(Method(m, f)).Do([cap](int) { return 1; }).Return(boom()); PROVE(false, "not reached"); } catch (Boom &) {} } PROVE(m.get().f(a) == r, "the abandoned phrase adds nothing"); PROVE(Obj::alive() == n && Obj::bad == 0, "and keeps nothing"); }
PROOF(C15, abandoned_criteria)(int a, int r) { Mock<B> m; When(Method(m, f)).AlwaysReturn(r); try { When(Method(m, f).Using(boom())).AlwaysReturn(1); } catch (Boom &) {} try { When(Method(m, f).Using(a)).Return(1), boom(); } catch (Boom &) {} PROVE(m.get().f(a) == r, "the abandoned phrases add nothing"); }
PROOF(C15, abandoned_first)(int a) { Mock<B> m; try { When(Method(m, f)).Return(1).Return(boom()); } catch (Boom &) {} PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED, "no stubbing"); PROVE((bool)Verify(Method(m, f)).Never(), "no call"); }
PROOF(C15, not_before_the_end)(int a, int r, int q) { Mock<B> m; When(Method(m, f)).AlwaysReturn(q); int in = 0; (void)(When(Method(m, f)).Return(r), in = m.get().f(a)); PROVE(in == q, "within the statement the old stubbing answers"); PROVE(m.get().f(a) == r, "after it the new one"); PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED, "with one action"); }
PROOF(C15, phrase_in_variables)(int a, int r, int q) { Mock<B> m; { auto ctx = Method(m, f); auto p = When(ctx); auto p2 = p; p2.Return(r); p.Return(q); PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED, "not yet"); } PROVE(m.get().f(a) == r, "first"); PROVE(m.get().f(a) == q, "second"); PROVE(ends([&] { m.get().f(a); }) == UNEXPECTED, "copies add no second stubbing"); }
PROOF(C15, one_stubbing_each)(int a, int r) { Mock<B> m, n; Fake(Method(m, f), Method(m, g), Method(n, f)); PROVE(m.get().f(a) == 0 && m.get().g(a) == 0 && n.get().f(a) == 0, "all named methods"); PROVE(ends([&] { n.get().g(a); }) == UNEXPECTED, "and no other"); Method(m, f) = [=](int) { return r; }; PROVE(m.get().f(a) == r && m.get().f(a) == r, "assignment"); }
PROOF(C15, mocks_in_turn)(int a) { { Mock<B> w; Fake(Method(w, f)); w.get().f(a); } long h = verif_live(); for (int i = 0; i < 3; ++i) { Mock<B> m; Fake(Method(m, f)); m.get().f(a); Verify(Method(m, f)); VerifyNoOtherInvocations(m); } PROVE(verif_live() == h, "no heap object stays"); }
PROOF(C15, spy_released)(int a) { SMALL(a); C c_, &c = *launder(&c_); { Mock<C> w(c); Spy(Method(w, f)); c.f(a); } long h = verif_live(); int n = Obj::alive(); { Mock<C> m(c); Spy(Method(m, f), Method(m, v)); When(Method(m, g)).Return(1); c.f(a); c.v(Obj(a)); } PROVE(verif_live() == h && Obj::alive() == n && Obj::bad == 0, "everything is released"); }

// ---- data members
PROOF(C17, members)(int v, int w, double d, char ch) { int n = Obj::alive(); { Mock<B> m; B &b = m.get(); PROVE(b.x == 0 && b.o.a == 0 && b.d == 0 && b.p.a == 0 && b.c == 0 && b.last == 0, "members that are not stubbed read as zero"); m.Stub(&B::o, v, w); PROVE(b.o.a == v && b.o.b == w && b.o.self == &b.o && b.x == 0 && b.d == 0 && b.p.a == 0 && b.p.b == 0 && b.c == 0 && b.last == 0, "constructed from the arguments; nothing else changes"); m.Stub(&B::x, w); m.Stub(&B::c, ch); m.Stub(&B::last, (long)v); PROVE(b.x == w && b.c == ch && b.last == v && b.o.a == v && b.o.b == w && b.p.a == 0 && b.d == 0, "further members"); m.Stub(&B::p); PROVE(b.p.a == -1 && b.p.b == -2 && b.o.a == v && b.last == v, "default construction"); PROVE(Obj::alive() == n + 2 && &m.get() == &b, "two objects live"); } PROVE(Obj::alive() == n && Obj::bad == 0, "each is destroyed exactly once"); }
PROOF(C17, written_values_stay)(int v, int w, int a) { Mock<B> m; m.Stub(&B::o, 1, 2); m.Stub(&B::x, 3); m.get().o.a = v; m.get().x = w; m.get().last = v; When(Method(m, f)).AlwaysReturn(1); m.get().f(a); m.Stub(&B::c, 'c'); m.ClearInvocationHistory(); PROVE(m.get().o.a == v && m.get().o.b == 2 && m.get().x == w && m.get().last == v && m.get().c == 'c', "values written through the object stay"); PROVE(m.get().f(a) == 1, "methods work next to members"); }
PROOF(C17, stubbed_twice)(int v, int w) { int n = Obj::alive(); { Mock<B> m; m.Stub(&B::o, v, v); m.Stub(&B::o, w, w); PROVE(m.get().o.a == w && m.get().o.b == w, "the later one"); PROVE(Obj::alive() == n + 1, "one object lives"); } PROVE(Obj::alive() == n && Obj::bad == 0, "destroyed exactly once"); }
PROOF(C17, stubbed_after_reset)(int v) { int n = Obj::alive(); { Mock<B> m; m.Stub(&B::o, v, 1); m.Stub(&B::p, v, 1); m.Reset(); PROVE(Obj::alive() == n, "Reset destroys"); PROVE(m.get().o.a == 0 && m.get().p.b == 0 && m.get().last == 0, "and clears"); m.Stub(&B::p, v, 2); PROVE(m.get().p.a == v && m.get().p.b == 2 && m.get().o.a == 0, "again"); m.Reset(); m.Reset(); PROVE(Obj::alive() == n, "Reset destroys again"); } PROVE(Obj::alive() == n && Obj::bad == 0, "destroyed exactly once"); }
PROOF(C17, two_mocks)(int v, int w) { Mock<B> m, k; m.Stub(&B::o, v, w); PROVE(k.get().o.a == 0 && k.get().x == 0, "the object of another mock is not touched"); k.Stub(&B::o, w, v); PROVE(m.get().o.a == v && k.get().o.a == w, "each has its own"); m.Reset(); PROVE(k.get().o.a == w && k.get().o.b == v, "Reset of one"); }
PROOF(C17, last_member)(int v) { struct L { virtual void f() = 0; long a; long z; }; Mock<L> m; m.Stub(&L::z, (long)v); PROVE(m.get().z == v && m.get().a == 0, "the last member"); m.get().a = 7; m.Reset(); PROVE(m.get().z == 0 && m.get().a == 0, "reset to zero"); }

// ---- default values
struct NoDef { int n; NoDef(int k) : n(k) {} }; struct Def { int n; long k; Def() : n(17), k(4) {} Def(const Def &o) : n(o.n), k(o.k) {} Def &operator=(const Def &o) { n = o.n; k = o.k; return *this; } }; struct Zero { int n; long k; int *p; }; struct Fragile { int v; Fragile() : v(5) {} Fragile(const Fragile &o) : v(o.v) {} Fragile(Fragile &&o) : v(o.v) { o.v = 0; } };
enum Color { RED = 1 }; enum class Scoped : short { A = 3 };
#define TYPES(X) X(0, bool) X(1, char) X(2, signed char) X(3, unsigned char) X(4, short) X(5, unsigned short) X(6, int) X(7, unsigned) X(8, long) X(9, unsigned long) X(10, long long) X(11, unsigned long long) X(12, float) X(13, double) X(14, char16_t) X(15, char32_t) X(16, wchar_t) X(17, Color) X(18, Scoped) X(19, IntP) X(20, CharP)
typedef int *IntP; typedef const char *CharP;
struct T {
#define D(i, t) virtual t f##i(int) = 0;
    TYPES(D) virtual void none(int) = 0; virtual NoDef nodef(int) = 0; virtual Def def(int) = 0; virtual Zero zero(int) = 0; virtual Fragile frag(int) = 0; virtual std::string str(int) = 0; virtual int &ref(int) = 0; virtual const Def &cref(int) = 0; virtual Fragile &fref(int) = 0; virtual Def *ptr(int) = 0; virtual ~T() {} };
// a scalar type: Fake, Return(), AlwaysReturn()
template<class t_> static t_ zero() { return t_(); }
#define SC(i, t) static void scalar_##i(int a) { Mock<T> m; Fake(Method(m, f##i)); PROVE(m.get().f##i(a) == zero<t>() && m.get().f##i(a) == zero<t>(), "Fake: zero of " #t); When(Method(m, f##i)).AlwaysReturn(); PROVE(m.get().f##i(a) == zero<t>() && m.get().f##i(a) == zero<t>(), "AlwaysReturn(): zero of " #t); When(Method(m, f##i)).Return(); PROVE(m.get().f##i(a) == zero<t>(), "Return(): zero of " #t); PROVE(ends([&] { m.get().f##i(a); }) == UNEXPECTED, "one use"); }
TYPES(SC)
PROOF(C19, scalars_small)(int a) { scalar_0(a); scalar_1(a); scalar_2(a); scalar_3(a); scalar_4(a); scalar_5(a); scalar_14(a); }
PROOF(C19, scalars_wide)(int a) { scalar_6(a); scalar_7(a); scalar_8(a); scalar_9(a); scalar_10(a); scalar_11(a); scalar_15(a); }
PROOF(C19, scalars_other)(int a) { scalar_12(a); scalar_13(a); scalar_16(a); scalar_17(a); scalar_18(a); scalar_19(a); scalar_20(a); }
PROOF(C19, objects)(int a) { Mock<T> m; Fake(Method(m, def), Method(m, zero), Method(m, ptr)); for (int i = 0; i < 2; ++i) { Def d = m.get().def(a); PROVE(d.n == 17 && d.k == 4, "the value of the default constructor"); d.n = 0; Zero z = m.get().zero(a); PROVE(z.n == 0 && z.k == 0 && z.p == nullptr, "a value-initialised aggregate"); PROVE(m.get().ptr(a) == nullptr, "null"); } }
PROOF(C19, move_sensitive)(int a) { Mock<T> m; Fake(Method(m, frag)); for (int i = 0; i < 3; ++i) { Fragile f = m.get().frag(a); PROVE(f.v == 5, "the same default on every call"); } When(Method(m, frag)).Return().Return().AlwaysReturn(); for (int i = 0; i < 4; ++i) { Fragile f = m.get().frag(a); PROVE(f.v == 5, "also from Return() and AlwaysReturn()"); } }
PROOF(C19, references)(int a) { Mock<T> m; Fake(Method(m, ref), Method(m, cref), Method(m, fref)); PROVE(m.get().ref(a) == 0 && m.get().cref(a).n == 17 && m.get().fref(a).v == 5, "references to default values"); PROVE(m.get().ref(a) == 0 && m.get().fref(a).v == 5, "again"); }
PROOF(C19, no_default)(int a) { Mock<T> m; Fake(Method(m, nodef)); for (int i = 0; i < 2; ++i) { bool th = false; try { m.get().nodef(a); } catch (DefaultValueInstatiationException &) { th = true; } PROVE(th, "DefaultValueInstatiationException"); } When(Method(m, nodef)).Return(); bool th = false; try { m.get().nodef(a); } catch (DefaultValueInstatiationException &) { th = true; } PROVE(th, "also from Return()"); }
PROOF(C19, no_result)(int a) { Mock<T> m; Listen l; Fake(Method(m, none)); m.get().none(a); m.get().none(a); When(Method(m, none)).AlwaysReturn(); m.get().none(a); PROVE(l.r.all() == 0 && (bool)Verify(Method(m, none)).Exactly(3), "void methods do nothing"); }
PROOF(C19, strings)(int a) { Mock<T> m; Fake(Method(m, str)); PROVE(m.get().str(a).empty() && m.get().str(a).empty(), "the empty string"); }
PROOF(C19, with_criteria)(int a, int e) { Mock<T> m; Listen l; Fake(Method(m, f6).Using(e)); int got = 9; int how = ends([&] { got = m.get().f6(a); }); PROVE(how == (a == e ? RETURNED : UNEXPECTED) && got == (a == e ? 0 : 9), "criteria count"); PROVE(l.r.unexpected == (a != e) && l.r.unmocked == 0, "unmatched, not unmocked"); }
PROOF(C19, after_values)(int a, int r) { Mock<T> m; When(Method(m, f6)).Return(r).Return().Return(r); PROVE(m.get().f6(a) == r, "value"); PROVE(m.get().f6(a) == 0, "default"); PROVE(m.get().f6(a) == r, "value again"); }
PROOF(C19, unmocked)(int a, bool other) { Mock<T> m; Listen l; if (other) { Fake(Method(m, f6)); m.get().f6(a); } PROVE(ends([&] { m.get().f7(a); }) == UNEXPECTED && l.r.unexpected == 1 && l.r.unmocked == 1, "one unmocked event and the exception"); PROVE(ends([&] { m.get().none(a); }) == UNEXPECTED && l.r.unexpected == 2 && l.r.unmocked == 2, "every time"); PROVE(ends([&] { m.get().str(a); }) == UNEXPECTED && l.r.unmocked == 3, "also with an object result"); PROVE(ends([&] { m.get().ref(a); }) == UNEXPECTED && l.r.unmocked == 4 && l.r.all() == 4, "also with a reference result"); }
PROOF(C19, faked_destructor)(int a) { Mock<T> m; Listen l; Fake(Dtor(m)); T *p = &m.get(); delete p; p->~T(); PROVE(l.r.all() == 0, "a faked destructor does nothing"); }
