#include "life.hpp"
using namespace life;
SCENARIO_N(clear_then_probe, 3000, 2) {
    Life l(c); int n = c.range(0, 10); for (int i = 0; i < n; ++i) l.step(false, true); int k = c.pick(3); l.clear(k); if (c.flip()) l.clear(k); l.check_all(c.flip()); int r = c.range(0, 4); for (int i = 0; i < r; ++i) l.step(false, true); l.check_all(true);
}
SCENARIO_N(many_clears, 3000, 2) {
    Life l(c); int n = c.range(3, 25); for (int i = 0; i < n; ++i) { l.step(c.pick(8) == 0, true); if (c.pick(6) == 0) { l.check_members(c.pick(3)); l.check_history(c.pick(3), false); } } l.check_all(true);
}
// every method called and stubbed with limited uses, cleared between the uses
SCENARIO_N(uses_survive, 2000, 1.5) {
    Life l(c); int k = c.pick(3); for (int w = 0; w < 4; ++w) { l.stub(k, w); if (c.flip()) l.stub(k, w); } l.stub_dtor(k); l.stub_member(k); l.stub_member(k); l.write_member(k);
    for (int r = 0; r < 3; ++r) { for (int w = 0; w < 4; ++w) l.call(k, w, c.pick(2)); l.dtor_call(k); if (c.pick(3) == 0) l.check_history(k, true); l.clear(k); l.check_history(k, false); l.check_members(k); }
    l.check_history(k, true);
}
// verifications over several mocks, patterns and filters see none of the cleared calls
SCENARIO_N(patterns_after_clear, 3000, 2) {
    World w; int n = c.range(1, 6); for (int i = 0; i < n; ++i) { int mid = c.pick(NM); w.call(c, mid, mid == 4 ? 0 : c.pick(3)); if (c.pick(5) == 0) Verify(Method(w.A1, f)).AtLeast(0); }
    int k = c.pick(3); c.notef("clear mock ", k); if (k == 0) w.A1.ClearInvocationHistory(); else if (k == 1) w.A2.ClearInvocationHistory(); else w.B.ClearInvocationHistory();
    std::vector<Call> left; for (auto &x : w.calls) if (mock_of(x.mid) != k) left.push_back(x);
    std::unordered_set<Invocation *> all; w.A1.getActualInvocations(all); w.A2.getActualInvocations(all); w.B.getActualInvocations(all); drv::same(all.size(), left.size(), "invocations left"); for (auto &x : left) CHECK(all.count(const_cast<Invocation *>(x.inv)), "a call of another mock was lost");
    int cnt[NM] = {}; for (auto &x : left) cnt[x.mid]++; w.rec.evs.clear();
    Verify(Method(w.A1, f) * 50, Method(w.A2, f) * 50, Method(w.B, p) * 50).Once(); drv::same(w.rec.evs.size(), size_t(1), "events"); drv::samev(w.ids(w.rec.evs[0].actual), [&] { std::vector<int> r; for (auto &x : left) r.push_back(x.id); return r; }(), "calls seen by a verification over all mocks");
    bool b = Verify(Method(w.A1, f)).Exactly(cnt[0]) ; CHECK(b, "A1.f"); b = Verify(Method(w.A1, g)).Exactly(cnt[1]); CHECK(b, "A1.g"); b = Verify(Method(w.A2, f)).Exactly(cnt[2]); CHECK(b, "A2.f"); b = Verify(Method(w.B, p)).Exactly(cnt[3]); CHECK(b, "B.p"); b = Verify(Method(w.A1, h)).Exactly(cnt[4]); CHECK(b, "A1.h"); b = Verify(Method(w.B, f)).Exactly(cnt[5]); CHECK(b, "B.f"); b = VerifyNoOtherInvocations(w.A1, w.A2, w.B); CHECK(b, "unverified calls left");
    size_t before = w.calls.size(); w.call(c, 0, 1); w.call(c, 3, 1); w.call(c, 5, 2); drv::same(w.calls.size(), before + 3, "calls"); w.rec.evs.clear(); Verify(Method(w.A1, f) * 60).Once(); int a1 = 0; for (auto &x : left) a1 += mock_of(x.mid) == 0; drv::same(w.rec.evs[0].actual.size(), size_t(a1 + 1), "calls of the mock after new calls");
}
// long histories and histories without any stubbing
SCENARIO_N(long_histories, 30, 1) {
    Adapter rec; Mock<IA> m, o; static const int ns[] = {0, 1, 255, 256, 257, 300, 1000, 1025, 5000}; int n = ns[c.pick(9)], k = c.range(1, 3); When(Method(m, f)).AlwaysReturn(1); When(Method(m, g)).AlwaysReturn(2); When(Method(o, f)).AlwaysReturn(3); o.get().f(1);
    for (int r = 0; r < k; ++r) { c.notef(n, " calls"); for (int i = 0; i < n; ++i) { m.get().f(i); if (i % 3 == 0) m.get().g(i); } if (c.flip()) Verify(Method(m, f)).Any(); m.ClearInvocationHistory(); std::unordered_set<Invocation *> s; m.getActualInvocations(s); drv::same(s.size(), size_t(0), "calls left after clearing"); bool b = Verify(Method(m, f)).Never() && Verify(Method(m, g)).Never() && VerifyNoOtherInvocations(m); CHECK(b, "cleared history"); b = Verify(Method(o, f)).Once(); CHECK(b, "another mock"); drv::same(m.get().f(1), 1, "the stubbing stays"); b = Verify(Method(m, f)).Once(); CHECK(b, "a call after clearing"); m.ClearInvocationHistory(); }
}
DRIVER_MAIN
