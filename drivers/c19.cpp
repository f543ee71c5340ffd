#include "world.hpp"
using namespace world;
enum Color { RED = 1 }; enum class Scoped : short { A = 3 };
struct Agg { int a; double b; char c[5]; std::string s; }; struct Ctor { int n; Ctor() : n(17) {} }; struct Big { long v[30]; }; struct NoDef { int n; NoDef(int k) : n(k) {} }; struct Derived : NoDef { Derived(int a, int b) : NoDef(a + b) {} std::string s; }; struct Abs { virtual void f() = 0; }; union U { int i; double d; }; struct Fragile { int v = 5; std::string s = "five"; Fragile() {} Fragile(const Fragile &o) : v(o.v), s(o.s) {} Fragile(Fragile &&o) : v(o.v), s(std::move(o.s)) { o.v = 0; o.s.clear(); } };
#define TYPES(X) X(0, bool) X(1, char) X(2, signed char) X(3, unsigned char) X(4, short) X(5, unsigned short) X(6, int) X(7, unsigned) X(8, long) X(9, unsigned long) X(10, long long) X(11, unsigned long long) X(12, float) X(13, double) X(14, long double) X(15, char16_t) X(16, char32_t) X(17, wchar_t) X(18, Color) X(19, Scoped) X(20, int *) X(21, const char *) X(22, Abs *) X(23, FnP) X(24, MemP) X(25, std::nullptr_t) X(26, std::string) X(27, Agg) X(28, Ctor) X(29, Big) X(30, VecI) X(31, std::shared_ptr<int>) X(32, MapII) X(33, FunI) X(34, U) X(35, PairSI) X(36, void **) X(37, const int *) X(38, Fragile)
typedef int (*FnP)(int); typedef int Agg::*MemP; typedef std::vector<int> VecI; typedef std::map<int, int> MapII; typedef std::function<int()> FunI; typedef std::pair<std::string, int> PairSI;
static bool eq(Agg const &a, Agg const &b) { return a.a == b.a && a.b == b.b && !std::memcmp(a.c, b.c, 5) && a.s == b.s; } static bool eq(Ctor const &a, Ctor const &b) { return a.n == b.n; } static bool eq(Big const &a, Big const &b) { return !std::memcmp(&a, &b, sizeof a); } static bool eq(FunI const &a, FunI const &b) { return !a == !b; } static bool eq(Fragile const &a, Fragile const &b) { return a.v == b.v && a.s == b.s; } static bool eq(U const &a, U const &b) { return a.i == b.i; } template<class T> bool eq(T const &a, T const &b) { return a == b; }
static void spoil(...) {} static void spoil(std::string &s) { s = "spoiled"; } static void spoil(int &s) { s = 99; } static void spoil(Fragile &f) { f.v = 8; } static void spoil(VecI &v) { v.assign(3, 3); } static void spoil(Agg &a) { a.a = 5; a.s = "x"; }
struct IT {
#define D(i, T) virtual T f##i(int, std::string) = 0;
    TYPES(D)
    virtual void v(int) = 0; virtual NoDef n1(int) = 0; virtual Derived n2() = 0; virtual int &ri() = 0; virtual const std::string &rs(int) = 0; virtual NoDef &rn() = 0; virtual Agg &ra() = 0; virtual const int cc() = 0; virtual Abs &rab() = 0; virtual std::string *ps() = 0; virtual Fragile &rf() = 0; virtual const Fragile &rcf(int) = 0; virtual ~IT() = default; };
enum { N = 39 };
// how: 0 Fake, 1 Return(), 2 AlwaysReturn(), 3 Return().Return()
template<class C> void set(C &&ctx, int how) { switch (how) { case 0: Fake(ctx); break; case 1: When(ctx).Return(); break; case 2: When(ctx).AlwaysReturn(); break; default: When(ctx).Return().Return(); } }
static int uses(int how) { return how == 1 ? 1 : how == 3 ? 2 : 3; }
SCENARIO_N(values, 2000, 2) {
    Mock<IT> m; Adapter rec; int k = c.pick(N), how = c.pick(4);
    switch (k) {
#define E(i, T) case i: { set(Method(m, f##i), how); for (int r = 0; r < uses(how); ++r) { T got = m.get().f##i(r, "s"); T want{}; CHECK(eq(got, want), "default value of " #T ", call ", r); spoil(got); } break; }
        TYPES(E) }
    drv::same(rec.evs.size(), size_t(0), "events");
}
SCENARIO_N(others, 1500, 1) {
    Mock<IT> m; Adapter rec; int k = c.pick(14), how = c.pick(4); int n = uses(how);
    for (int z = 0; z < 1; ++z) switch (k) {
        case 0: set(Method(m, v), how); for (int r = 0; r < n; ++r) m.get().v(r); break;
        case 1: set(Method(m, n1), how); for (int r = 0; r < n; ++r) { bool th = false; try { m.get().n1(r); } catch (DefaultValueInstatiationException &) { th = true; } CHECK(th, "no DefaultValueInstatiationException"); } break;
        case 2: set(Method(m, n2), how); for (int r = 0; r < n; ++r) { bool th = false; try { m.get().n2(); } catch (DefaultValueInstatiationException &e) { th = !e.what().empty(); } CHECK(th, "no DefaultValueInstatiationException"); } break;
        case 3: set(Method(m, ri), how); for (int r = 0; r < n; ++r) drv::same(m.get().ri(), 0, "int reference"); break; case 4: set(Method(m, rs), how); for (int r = 0; r < n; ++r) drv::same(m.get().rs(1), std::string(), "string reference"); break;
        case 5: set(Method(m, ra), how); for (int r = 0; r < n; ++r) CHECK(eq(m.get().ra(), Agg{}), "aggregate reference"); break; case 6: set(Method(m, ps), how); for (int r = 0; r < n; ++r) CHECK(m.get().ps() == nullptr, "string pointer"); break; case 7: { Mock<IT> o; set(Method(m, f6), how); set(Method(o, f6), 2); int a = m.get().f6(1, ""), b = o.get().f6(1, ""); drv::same(a + b, 0, "two mocks"); break; }
        case 12: set(Method(m, rf), how); for (int r = 0; r < n; ++r) { CHECK(eq(m.get().rf(), Fragile{}), "reference to a class, call ", r); } break; case 13: set(Method(m, rcf), how); for (int r = 0; r < n; ++r) { CHECK(eq(m.get().rcf(r), Fragile{}), "const reference to a class, call ", r); } break;
        case 8: When(Method(m, f6)).Return(5).Return(); drv::same(m.get().f6(1, ""), 5, "explicit value"); drv::same(m.get().f6(1, ""), 0, "default value"); break; case 9: { Fake(Method(m, f6), Method(m, f26), Method(m, v), Method(m, f13)); drv::same(m.get().f6(1, ""), 0, "int"); drv::same(m.get().f26(1, ""), std::string(), "string"); m.get().v(1); drv::same(m.get().f13(1, ""), 0.0, "double"); break; }
        case 10: { Fake(Method(m, f6).Using(1, _)); drv::same(m.get().f6(1, "q"), 0, "criteria"); bool th = false; try { m.get().f6(2, "q"); } catch (UnexpectedMethodCallException &) { th = true; } CHECK(th, "criteria not met"); rec.evs.clear(); break; } default: { Fake(Dtor(m)); IT *p = &m.get(); delete p; p->~IT(); break; } }
    drv::same(rec.evs.size(), size_t(0), "events");
}
// methods that were never stubbed
SCENARIO_N(unmocked, 2000, 1.5) {
    Mock<IT> m; Adapter rec; struct Cnt : EventHandler { int n = 0; void handle(const UnexpectedMethodCallEvent &e) override { n += e.getUnexpectedType() == UnexpectedType::Unmocked ? 1 : 100; } void handle(const SequenceVerificationEvent &) override { n += 1000; } void handle(const NoMoreInvocationsVerificationEvent &) override { n += 1000; } } cnt; Fakeit.addEventHandler(cnt);
    if (c.flip()) { int s = c.pick(3); if (s == 0) Fake(Method(m, f6)); else if (s == 1) Fake(Method(m, v)); else Fake(Dtor(m)); if (s == 0) m.get().f6(1, "a"); if (s == 1) m.get().v(1); }
    std::unordered_set<Invocation *> before; m.getActualInvocations(before); int n = c.range(1, 3);
    for (int r = 0; r < n; ++r) { int k = c.pick(N + 9); bool th = false, other = false; int e0 = cnt.n; size_t a0 = rec.evs.size(); std::string txt; c.notef("call method ", k); if (k == 6 || k == N) k = 7; try { switch (k) {
#define Z(i, T) case i: m.get().f##i(r, "s"); break;
        TYPES(Z) case N + 1: m.get().n1(1); break; case N + 2: m.get().n2(); break; case N + 3: m.get().ri(); break; case N + 4: m.get().rs(1); break; case N + 5: m.get().rn(); break; case N + 6: m.get().ra(); break; case N + 7: m.get().cc(); break; default: m.get().ps(); } } catch (UnexpectedMethodCallException &e) { th = true; txt = e.what(); } catch (...) { other = true; }
        CHECK(th && !other, "call of method ", k, " does not throw UnexpectedMethodCallException"); drv::same(cnt.n - e0, 1, "unmocked events at the handler"); drv::same(rec.evs.size() - a0, size_t(1), "events at the adapter"); CHECK(rec.evs.back().kind == 3 && rec.evs.back().ut == UnexpectedType::Unmocked, "kind of the event"); CHECK(txt.find("unmocked") != std::string::npos, "text of the exception: ", txt); }
    std::unordered_set<Invocation *> after; m.getActualInvocations(after); CHECK(before == after, "an unmocked call is in the history");
}
// the value stays the default for very many calls
SCENARIO_N(very_often, 6, 4) {
    Mock<IT> m; Adapter rec; int k = c.pick(3); c.notef("kind ", k); const int n = (1 << 20) + 5; if (k == 0) Fake(Method(m, f6)); else if (k == 1) When(Method(m, f6)).AlwaysReturn(); else Fake(Method(m, v));
    for (int i = 0; i < n; ++i) { int g = -1; try { if (k == 2) { m.get().v(i); g = 0; } else g = int(m.get().f6(i, "s")); } catch (UnexpectedMethodCallException &) {} if (g != 0) CHECK(false, "call ", i + 1, " of a faked method gives ", g); if (i % 512 == 0) m.ClearInvocationHistory(); }
}
// a class with many methods: every place reports its unmocked calls
#define MV(n) virtual int m##n(int a) { return (1##n - 1000) * 10 + a; }
#define MT(p) MV(p##0) MV(p##1) MV(p##2) MV(p##3) MV(p##4) MV(p##5) MV(p##6) MV(p##7) MV(p##8) MV(p##9)
#define MH(p) MT(p##0) MT(p##1) MT(p##2) MT(p##3) MT(p##4) MT(p##5) MT(p##6) MT(p##7) MT(p##8) MT(p##9)
struct ManyPlaces { MH(0) MH(1) MH(2) virtual ~ManyPlaces() {} MH(3) MH(4) MH(5) };
#define FAR(X) X(000) X(001) X(031) X(032) X(063) X(064) X(065) X(099) X(100) X(127) X(128) X(255) X(256) X(299) X(300) X(510) X(511) X(598) X(599)
static const int farm[] = {0, 1, 31, 32, 63, 64, 65, 99, 100, 127, 128, 255, 256, 299, 300, 510, 511, 598, 599};
static int callfar(ManyPlaces &o_, int n, int a) { auto &o = drv::hide(o_); switch (1000 + n) {
#define FC(i) case 1##i: return o.m##i(a);
    FAR(FC) } return -5; }
SCENARIO_N(many_places, 100, 0.5) {
    Adapter rec; Mock<ManyPlaces> m; bool faked = c.flip(); if (faked) Fake(Method(m, m100)); if (c.flip()) { When(Method(m, m065)).AlwaysReturn(9); m.Reset(); faked = false; } int k = c.pick(19); c.notef("method ", farm[k]); bool th = false; int r = -1; size_t e0 = rec.evs.size();
    try { r = callfar(m.get(), farm[k], 2); } catch (UnexpectedMethodCallException &) { th = true; } bool want = !(faked && farm[k] == 100); drv::same(th, want, "exception of an unmocked call"); drv::same(rec.evs.size() - e0, size_t(want), "events"); if (!want) drv::same(r, 0, "result of a faked method");
}
DRIVER_MAIN
