#include "world.hpp"
using namespace world;
// classes with the destructor at different places among twelve methods
#define METHS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
template<int P> struct Wide;
static int destroyed = 0, deleted = 0;
#define V(i) virtual int m##i(int a) { return i * 100 + a; }
template<> struct Wide<0> { virtual ~Wide() { ++destroyed; } METHS(V) int pad = 7; static void operator delete(void *p) { ++deleted; ::operator delete(p); } };
template<> struct Wide<1> { V(0) V(1) V(2) virtual ~Wide() { ++destroyed; } V(3) V(4) V(5) V(6) V(7) V(8) V(9) V(10) V(11) int pad = 7; static void operator delete(void *p) { ++deleted; ::operator delete(p); } };
template<> struct Wide<2> { METHS(V) virtual ~Wide() { ++destroyed; } int pad = 7; static void operator delete(void *p) { ++deleted; ::operator delete(p); } };
template<int P> int call(Wide<P> &o_, int i, int a) { auto &o = drv::hide(o_); switch (i) {
#define C(i) case i: return o.m##i(a);
    METHS(C) } return 0; }
template<int P> void stub(Mock<Wide<P>> &m, int i, int v) { switch (i) {
#define S(i) case i: When(Method(m, m##i)).AlwaysReturn(v); break;
    METHS(S) } }
template<int P> void spyit(Mock<Wide<P>> &m, int i) { switch (i) {
#define Y(i) case i: Spy(Method(m, m##i)); break;
    METHS(Y) } }
enum { UNM = -1 };
template<int P> int probe(Wide<P> &o, int i, int a) { try { return call(o, i, a); } catch (UnexpectedMethodCallException &) { return UNM; } }

// objects: 0,1 mocks of existing objects, 2 plain object, 3,4 owned mocks
template<int P> void isolation(drv::Choices &c) {
    typedef Wide<P> W; Adapter rec; W o[3]; std::unique_ptr<Mock<W>> k[5]; k[0].reset(new Mock<W>(o[0])); k[1].reset(new Mock<W>(o[1])); k[3].reset(new Mock<W>()); k[4].reset(new Mock<W>());
    int want[5][12]; for (int x = 0; x < 5; ++x) for (int i = 0; i < 12; ++i) want[x][i] = x < 3 ? -2 : UNM;   // -2: original
    auto check = [&](const char *when) { for (int x = 0; x < 5; ++x) for (int i = 0; i < 12; ++i) { if (x >= 3 && !k[x]) continue; W &w = x < 3 ? o[x] : k[x]->get(); int a = (i + x) % 5; int e = want[x][i] == -2 ? i * 100 + a : want[x][i]; drv::same(probe(w, i, a), e, when, ": method ", i, " of object ", x); if (x < 3) drv::same(w.pad, 7, "data member of object ", x); } };
    int n = c.range(1, 6); for (int s = 0; s < n; ++s) {
        static const int tg[] = {0, 1, 3, 4}; int x = tg[c.pick(4)], i = c.pick(12), op = c.pick(6); if (!k[x]) continue;
        if (op == 4) { c.notef("destroy mock ", x); k[x].reset(); if (x < 2) for (int &w : want[x]) w = -2; }
        else if (op == 5 && x < 2) { c.notef("spy method ", i, " of object ", x); spyit(*k[x], i); want[x][i] = -2; }
        else { c.notef("stub method ", i, " of object ", x); stub(*k[x], i, 5000 + s); want[x][i] = 5000 + s; }
        check("after the step");
    }
    for (auto &p : k) p.reset(); for (int x = 0; x < 3; ++x) for (int &w : want[x]) w = -2; check("after the mocks");
}
SCENARIO_N(isolation_dtor_first, 3000, 1.5) { isolation<0>(c); }
SCENARIO_N(isolation_dtor_inside, 3000, 1.5) { isolation<1>(c); }
SCENARIO_N(isolation_dtor_last, 3000, 1.5) { isolation<2>(c); }

// destructor stubs: explicit calls and delete, next to method stubs
template<int P> void dtors(drv::Choices &c) {
    typedef Wide<P> W; Adapter rec; int runs = 0, kind = c.pick(3), hist = 0; bool owned = c.flip(); W *o = new W; destroyed = deleted = 0; std::unique_ptr<Mock<W>> m(owned ? new Mock<W>() : new Mock<W>(*o)); std::unique_ptr<Mock<W>> other(new Mock<W>()); W plain;
    int pos = c.pick(13); if (pos < 12) stub(*m, pos, 77);
    switch (kind) { case 0: Fake(Dtor((*m))); break; case 1: When(Dtor((*m))).AlwaysDo([&] { ++runs; }); break; default: When(Dtor((*m))).Do([&] { ++runs; }).AlwaysDo([&] { runs += 10; }); }
    int p2 = c.pick(13); if (p2 < 12 && p2 != pos) stub(*m, p2, 88);
    int n = c.range(0, 3), want = 0; W *x = &m->get(); for (int i = 0; i < n; ++i) { if (c.flip()) { c.note("delete"); delete x; } else { c.note("explicit"); x->~W(); } ++hist; want += kind == 0 ? 0 : kind == 1 || i == 0 ? 1 : 10; drv::same(runs, want, "actions of the destructor stub"); drv::same(destroyed, 0, "real destructors run"); drv::same(deleted, 0, "memory released");
        for (int j = 0; j < 12; ++j) { int e = j == pos ? 77 : j == p2 ? 88 : owned ? UNM : j * 100 + 1; drv::same(probe(*x, j, 1), e, "method ", j, " next to the destructor stub"); } }
    auto &mm = *m; bool b = Verify(Dtor(mm)).Exactly(hist); CHECK(b, "recorded destructor calls");
    W *ox = &other->get(); if (c.flip()) ox->~W(); else delete ox; drv::same(runs, want, "other mock's destructor"); drv::same(destroyed, 0, "real destructors run by the other mock");
    { W tmp; } drv::same(destroyed, 1, "a plain object is destroyed"); { W *h = new W; delete h; } drv::same(destroyed, 2, "a plain object is deleted"); drv::same(deleted, 1, "its memory"); drv::same(runs, want, "stub actions for plain objects");
    m.reset(); drv::same(destroyed, 2, "real destructor runs after the end of the mock"); drv::same(runs, want, "stub actions at the end of the mock");
    for (int j = 0; j < 12; ++j) drv::same(probe(*o, j, 2), j * 100 + 2, "method ", j, " after the mock"); delete o; drv::same(destroyed, 3, "the object's destructor works again"); drv::same(deleted, 2, "the object's memory is released"); drv::same(runs, want, "no stub action any more");
}
SCENARIO_N(dtor_first, 3000, 1) { dtors<0>(c); }
SCENARIO_N(dtor_inside, 3000, 1) { dtors<1>(c); }
SCENARIO_N(dtor_last, 3000, 1) { dtors<2>(c); }

// overloads, const methods, inherited methods and hidden names
struct B0 { virtual int f(int) { return 1; } virtual int f(int, int) { return 2; } virtual int f(double) const { return 3; } virtual int g() const { return 4; } virtual ~B0() {} };
struct D0 : B0 { using B0::f; int f(int) override { return 11; } virtual int h() { return 12; } int g() const override { return 14; } virtual int f(char) { return 13; } };
SCENARIO_N(overloads, 3000, 1) {
    Adapter rec; D0 obj, plain; bool owned = c.flip(); std::unique_ptr<Mock<D0>> mp(owned ? new Mock<D0>() : new Mock<D0>(obj)); Mock<D0> &m = *mp; int want[6]; const int orig[6] = {11, 2, 3, 14, 12, 13}; for (int i = 0; i < 6; ++i) want[i] = owned ? UNM : orig[i];
    int n = c.range(1, 4); for (int s = 0; s < n; ++s) { int i = c.pick(6); switch (i) { case 0: When(OverloadedMethod(m, f, int(int))).AlwaysReturn(50 + s); break; case 1: When(OverloadedMethod(m, f, int(int, int))).AlwaysReturn(50 + s); break; case 2: When(ConstOverloadedMethod(m, f, int(double))).AlwaysReturn(50 + s); break; case 3: When(Method(m, g)).AlwaysReturn(50 + s); break; case 4: When(Method(m, h)).AlwaysReturn(50 + s); break; default: When(OverloadedMethod(m, f, int(char))).AlwaysReturn(50 + s); } want[i] = 50 + s;
        for (int r = 0; r < 2; ++r) { D0 &x = drv::hide(r ? plain : m.get()); for (int j = 0; j < 6; ++j) { int g; try { switch (j) { case 0: g = x.f(1); break; case 1: g = x.f(1, 2); break; case 2: g = const_cast<const D0 &>(x).f(1.0); break; case 3: g = x.g(); break; case 4: g = x.h(); break; default: g = x.f('a'); } } catch (UnexpectedMethodCallException &) { g = UNM; } drv::same(g, r ? orig[j] : want[j], r ? "plain object, method " : "mocked object, method ", j); } } }
    mp.reset(); if (!owned) { D0 &obj_ = obj; auto &obj = drv::hide(obj_); drv::same(obj.f(1) + obj.f(1, 2) + obj.h() + obj.g() + obj.f('a'), 11 + 2 + 12 + 14 + 13, "after the mock"); }
}
// ids are chosen by the caller: any pairwise different ids, next to the destructor
struct IdI { virtual int a(int) = 0; virtual int b(int) = 0; virtual ~IdI() {} virtual int c_(int) = 0; virtual void g() = 0; };
template<int A, int B, int C> void ids(drv::Choices &c) {
    Mock<IdI> m; Adapter rec; int d = 0, g = 0; auto x = m.template stub<A>(&IdI::a); auto y = m.template stub<B>(&IdI::c_); auto z = m.template stub<C>(&IdI::g); int order = c.pick(6); bool first = c.flip();
    auto dt = [&] { When(Dtor(m)).AlwaysDo([&] { ++d; }); }; if (first) dt();
    for (int i = 0; i < 3; ++i) switch ((order + i * (order < 3 ? 1 : 2)) % 3) { case 0: When(x).AlwaysReturn(11); break; case 1: When(y).AlwaysReturn(22); break; default: When(z).AlwaysDo([&] { ++g; }); }
    if (!first) dt();
    int n = c.range(1, 5), wd = 0, wg = 0; IdI *p = &m.get();
    for (int i = 0; i < n; ++i) { switch (c.pick(5)) { case 0: drv::same(p->a(i), 11, "method a"); break; case 1: drv::same(p->c_(i), 22, "method c_"); break; case 2: p->g(); ++wg; break; case 3: p->~IdI(); ++wd; break; default: { bool th = false; try { p->b(i); } catch (UnexpectedMethodCallException &) { th = true; } CHECK(th, "method b is not stubbed"); } } drv::same(d, wd, "destructor actions"); drv::same(g, wg, "actions of g"); }
}
SCENARIO_N(caller_ids, 3000, 0.5) { switch (c.pick(9)) { case 5: ids<1029, 5, 0>(c); break; case 6: ids<70000, 4464, 368>(c); break; case 7: ids<0, 65536, 256>(c); break; case 8: ids<1023, 255, 65535>(c); break; case 0: ids<0, 1, 2>(c); break; case 1: ids<2, 1, 0>(c); break; case 2: ids<1, 0, 7>(c); break; case 3: ids<5, 4, 3>(c); break; default: ids<100, 0, 1>(c); } }
// a class with a thousand places in its table
#define MV(n) virtual int m##n(int a) { return (1##n - 1000) * 10 + a; }
#define MT(p) MV(p##0) MV(p##1) MV(p##2) MV(p##3) MV(p##4) MV(p##5) MV(p##6) MV(p##7) MV(p##8) MV(p##9)
#define MH(p) MT(p##0) MT(p##1) MT(p##2) MT(p##3) MT(p##4) MT(p##5) MT(p##6) MT(p##7) MT(p##8) MT(p##9)
struct Thousand { MH(0) MH(1) MH(2) MH(3) MH(4) virtual ~Thousand() { ++destroyed; } MH(5) MH(6) MH(7) MH(8) MT(90) MT(91) MT(92) MT(93) MT(94) MT(95) MT(96) MT(97) MT(98) MV(990) MV(991) MV(992) MV(993) MV(994) MV(995) MV(996) MV(997) };
#define FAR(X) X(000) X(001) X(031) X(032) X(063) X(064) X(099) X(100) X(127) X(128) X(255) X(256) X(499) X(500) X(510) X(511) X(767) X(996) X(997)
static const int farm[] = {0, 1, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 499, 500, 510, 511, 767, 996, 997}; enum { NFAR = sizeof farm / sizeof *farm };
static int callfar(Thousand &o_, int n, int a) { auto &o = drv::hide(o_); switch (1000 + n) {
#define FC(i) case 1##i: return o.m##i(a);
    FAR(FC) } return -5; }
static void stubfar(Mock<Thousand> &m, int n, int v) { switch (1000 + n) {
#define FS(i) case 1##i: When(Method(m, m##i)).AlwaysReturn(v); break;
    FAR(FS) } }
SCENARIO_N(thousand_places, 400, 0.8) {
    Adapter rec; Thousand o, plain; bool owned = c.flip(); int d = 0, wd = 0; std::unique_ptr<Mock<Thousand>> mp(owned ? new Mock<Thousand>() : new Mock<Thousand>(o)); auto &m = *mp; Thousand &x = m.get(); int want[NFAR]; for (int &w : want) w = owned ? UNM : -2;
    int n = c.range(1, 5); for (int s = 0; s < n; ++s) { int k = c.pick(NFAR + 2); c.notef("place of method ", k < NFAR ? farm[k] : -1); if (k >= NFAR) { if (k == NFAR) { When(Dtor(m)).AlwaysDo([&] { ++d; }); Thousand *p = &drv::hide(x); if (c.flip()) p->~Thousand(); else delete p; ++wd; } else if (c.flip()) { m.Reset(); for (int &w : want) w = owned ? UNM : -2; } } else { stubfar(m, farm[k], 70000 + s); want[k] = 70000 + s; }
        drv::same(d, wd, "runs of the destructor stub"); for (int j = 0; j < NFAR; ++j) { int e = want[j] == -2 ? farm[j] * 10 + 3 : want[j], g; try { g = callfar(x, farm[j], 3); } catch (UnexpectedMethodCallException &) { g = UNM; } drv::same(g, e, "method ", farm[j]); drv::same(callfar(plain, farm[j], 4), farm[j] * 10 + 4, "method ", farm[j], " of another object"); } }
    mp.reset(); for (int j = 0; j < NFAR; ++j) drv::same(callfar(o, farm[j], 5), farm[j] * 10 + 5, "method ", farm[j], " after the mock");
}
// mocks of the same object one after the other
SCENARIO_N(remock, 1500, 0.7) {
    Adapter rec; Wide<1> o; int n = c.range(1, 4); for (int i = 0; i < n; ++i) { int p = c.pick(12); { Mock<Wide<1>> m(o); if (c.flip()) stub(m, p, 900 + i); else { p = -1; } for (int j = 0; j < 12; ++j) drv::same(call(o, j, 3), j == p ? 900 + i : j * 100 + 3, "method ", j); if (c.flip()) m.Reset(), [&] { for (int j = 0; j < 12; ++j) drv::same(call(o, j, 3), j * 100 + 3, "after Reset, method ", j); }(); } for (int j = 0; j < 12; ++j) drv::same(call(o, j, 4), j * 100 + 4, "after mock ", i, ", method ", j); drv::same(o.pad, 7, "data member"); }
}
// calls that an original makes on its own object: stubbed methods answer, the others run as before
struct Chain { virtual int a(int k) { return 1 + k; } virtual int all(int k) { return a(k) * 10000 + b(k) * 100 + z(k); } virtual int b(int k) { return 3 + k; } virtual int twice(int k) { return all(k) + all(k); } virtual ~Chain() {} virtual int z(int k) { return 5 + k; } };
SCENARIO_N(inside_original, 2000, 0.7) {
    Adapter rec; Chain o_, p_; Chain &o = drv::hide(o_), &p = drv::hide(p_); int v[3] = {1, 3, 5}, n[3] = {}, calls = 0; bool st[3] = {};
    { Mock<Chain> m(o); int k = c.range(1, 5); for (int i = 0; i < k; ++i) { int w = c.pick(5), x = 20 + i; c.notef("phrase ", w); switch (w) { case 0: When(Method(m, a)).AlwaysReturn(x); break; case 1: When(Method(m, b)).AlwaysReturn(x); break; case 2: When(Method(m, z)).AlwaysReturn(x); break; case 3: Spy(Method(m, all)); break; default: Spy(Method(m, twice)); } if (w < 3) { v[w] = x; st[w] = true; }
            bool t = c.flip(); int one = v[0] * 10000 + v[1] * 100 + v[2]; drv::same(t ? o.twice(0) : o.all(0), t ? 2 * one : one, "calls made inside an original"); calls = t ? 2 : 1; for (int j = 0; j < 3; ++j) if (st[j]) n[j] += calls;
            drv::same(p.twice(0), 2 * 10305, "another object"); drv::same(o.a(0) * 10000 + o.b(0) * 100 + o.z(0), one, "calls from outside"); for (int j = 0; j < 3; ++j) if (st[j]) n[j]++; }
        for (int j = 0; j < 3; ++j) if (st[j]) { bool b = j == 0 ? Verify(Method(m, a)).Exactly(n[0]) : j == 1 ? Verify(Method(m, b)).Exactly(n[1]) : Verify(Method(m, z)).Exactly(n[2]); CHECK(b, "recorded calls of method ", j); } }
    drv::same(o.twice(0), 2 * 10305, "after the mock");
}
DRIVER_MAIN
