#include "life.hpp"
using namespace life;
// arbitrary use, Reset of one mock, then the reset mock must act like a new one and the others as before
SCENARIO_N(reset_then_probe, 3000, 2) {
    long live0 = Tracked::made() - Tracked::gone();
    { Life l(c); int n = c.range(0, 10); for (int i = 0; i < n; ++i) l.step(false, true); int k = c.pick(3); l.reset(k); if (c.flip()) l.reset(k); l.check_all(c.flip()); int r = c.range(0, 4); for (int i = 0; i < r; ++i) l.step(true, true); l.check_all(true); }
    drv::same(Tracked::made() - Tracked::gone(), live0, "objects alive after the end of all mocks");
}
SCENARIO_N(many_resets, 3000, 2) {
    Life l(c); int n = c.range(3, 25); for (int i = 0; i < n; ++i) { l.step(true, true); if (c.pick(6) == 0) { l.check_members(c.pick(3)); l.check_history(c.pick(3), false); } } l.check_all(true);
}
// everything about one mock: stub all, reset, stub all again
SCENARIO_N(restub, 2000, 1.5) {
    Life l(c); int k = c.pick(3); int order = c.pick(4);
    for (int round = 0; round < 3; ++round) { for (int j = 0; j < 4; ++j) l.stub(k, (j * (order & 1 ? 3 : 1) + order) % 4); l.stub_dtor(k); for (int j = 0; j < 3; ++j) l.stub_member(k); l.write_member(k); for (int w = 0; w < 4; ++w) l.call(k, w, c.pick(2)); l.dtor_call(k); l.check_members(k); l.check_history(k, true); l.reset(k); l.check_members(k); l.check_history(k, false); for (int w = 0; w < 4; ++w) if (c.flip()) l.call(k, w, 0); }
}
// a class with many methods: one stubbed at any position, then another after Reset
struct IM { virtual int m0() = 0; virtual int m1() = 0; virtual int m2() = 0; virtual int m3() = 0; virtual int m4() = 0; virtual int m5() = 0; virtual int m6() = 0; virtual int m7() = 0; };
static void stub_n(Mock<IM> &m, int i, int v) { switch (i) { case 0: When(Method(m, m0)).AlwaysReturn(v); break; case 1: When(Method(m, m1)).AlwaysReturn(v); break; case 2: When(Method(m, m2)).AlwaysReturn(v); break; case 3: When(Method(m, m3)).AlwaysReturn(v); break; case 4: When(Method(m, m4)).AlwaysReturn(v); break; case 5: When(Method(m, m5)).AlwaysReturn(v); break; case 6: When(Method(m, m6)).AlwaysReturn(v); break; default: When(Method(m, m7)).AlwaysReturn(v); } }
static int call_n(IM &o, int i) { try { switch (i) { case 0: return o.m0(); case 1: return o.m1(); case 2: return o.m2(); case 3: return o.m3(); case 4: return o.m4(); case 5: return o.m5(); case 6: return o.m6(); default: return o.m7(); } } catch (UnexpectedMethodCallException &) { return -1; } }
SCENARIO_N(positions, 6000, 1) {
    Mock<IM> m, n; Adapter rec; int want[8], other[8]; for (int &x : want) x = -1; for (int &x : other) x = -1;
    int s = c.range(1, 6); for (int i = 0; i < s; ++i) { int op = c.pick(4), p = c.pick(8); if (op == 0) { m.Reset(); for (int &x : want) x = -1; } else if (op == 1) { stub_n(n, p, 100 + i); other[p] = 100 + i; } else { stub_n(m, p, i); want[p] = i; } for (int j = 0; j < 8; ++j) { size_t e = rec.evs.size(); drv::same(call_n(m.get(), j), want[j], "method ", j); drv::same(rec.evs.size() - e, size_t(want[j] < 0), "events of method ", j); drv::same(call_n(n.get(), j), other[j], "method ", j, " of the other mock"); } }
}
// replaced data members are destroyed with the value they have, and read as zero afterwards
static std::vector<int> ends; struct D { int v; D(int x) : v(x) {} ~D() { ends.push_back(v); *(volatile int *) &v = 99; } };
struct WD { virtual int f(int) { return 0; } D d{1}; int n = 2; D e{3}; virtual ~WD() {} double r = 0.5; };
SCENARIO_N(members_end, 2000, 0.5) {
    Mock<WD> m; Adapter rec; int rounds = c.range(1, 3);
    for (int i = 0; i < rounds; ++i) { std::vector<int> want; int how = c.pick(8), x = c.range(1, 50), y = c.range(51, 90); if (how & 1) m.Stub(&WD::d, x); if (how & 2) m.Stub(&WD::n, y); if (how & 4) m.Stub(&WD::e, y); if (how & 1 && c.flip()) { ++x; m.get().d.v = x; } if (c.flip()) m.get().r = 4.5; if (c.flip()) { When(Method(m, f)).AlwaysReturn(6); drv::same(m.get().f(1), 6, "stubbed method"); }
        if (how & 1) { drv::same(m.get().d.v, x, "replaced member"); want.push_back(x); } if (how & 4) { drv::same(m.get().e.v, y, "replaced member"); want.push_back(y); }
        ends.clear(); m.Reset(); std::vector<int> got = ends; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); drv::samev(got, want, "members destroyed by Reset"); drv::same(m.get().d.v, 0, "first member after Reset"); drv::same(m.get().e.v, 0, "second member after Reset"); drv::same(m.get().n, 0, "int member after Reset"); drv::same(m.get().r, 0.0, "double member after Reset"); }
}
DRIVER_MAIN
