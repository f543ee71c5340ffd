#include "world.hpp"
using namespace world;

// sources: 0..2 the mocks, 3.. phrases
struct Src { const ActualInvocationsSource *s; std::function<bool(Call const &)> in; std::string text; Seq keep; };
static Src source(drv::Choices &c, World &w) {
    int k = c.pick(5);
    if (k < 3) return {&w.mock(k), [k](Call const &x) { return mock_of(x.mid) == k; }, std::string("mock ") + char('0' + k), {}};
    Atom a = World::any_atom(c, NM); Seq s = w.atom(a); return {s.src, [a](Call const &x) { return a.accepts(x); }, a.str(), s};
}
static void expect_actual(World &w, std::vector<int> const &want, const std::string &what) {
    // a failing verification shows the actual sequence
    drv::same(w.rec.evs.size(), size_t(1), "events of ", what);
    drv::samev(w.ids(w.rec.evs[0].actual), want, "actual sequence of ", what);
    for (size_t i = 1; i < w.rec.evs[0].actual.size(); ++i) CHECK(w.rec.evs[0].actual[i - 1]->getOrdinal() < w.rec.evs[0].actual[i]->getOrdinal(), "positions of calls do not increase in ", what);
}
static void calls(drv::Choices &c, World &w, int max) { int n = c.range(0, max); for (int i = 0; i < n; ++i) w.call(c, c.pick(NM), c.pick(3)); }

SCENARIO_N(sources_of_using, 10, 4) {
    World w; calls(c, w, 12); if (c.pick(3) == 0) { bool b = Verify(Method(w.A1, f)).AtLeast(0); (void) b; } int n = c.range(1, 4); std::vector<Src> s; for (int i = 0; i < n; ++i) s.push_back(source(c, w));
    std::vector<int> want; for (auto &k : w.calls) for (auto &x : s) if (x.in(k)) { want.push_back(k.id); break; }
    std::string t = "Using("; for (auto &x : s) t += x.text + ";"; t += ")"; c.note(t);
    w.rec.evs.clear();
    auto run = [&](int q) {
        switch (n) { case 1: Using(*s[0].s).Verify(Method(w.A1, g).Using(99)).Exactly(q); break; case 2: Using(*s[0].s, *s[1].s).Verify(Method(w.A1, g).Using(99)).Exactly(q); break;
            case 3: Using(*s[0].s, *s[1].s, *s[2].s).Verify(Method(w.A1, g).Using(99)).Exactly(q); break; default: Using(*s[0].s, *s[1].s, *s[2].s, *s[3].s).Verify(Method(w.A1, g).Using(99)).Exactly(q); }
    };
    run(1); expect_actual(w, want, t);
    w.rec.evs.clear(); run(0); drv::same(w.rec.evs.size(), size_t(0), "events of a passing verification");
}
SCENARIO_N(sources_of_verify, 10, 4) {
    World w; calls(c, w, 12); int n = c.range(1, 3); std::vector<Seq> p; for (int i = 0; i < n; ++i) p.push_back(w.seq(c, 2, NM));
    std::set<int> mocks; for (auto &s : p) mocks.insert(s.mocks.begin(), s.mocks.end());
    std::vector<int> want = w.involved(mocks); std::string t = "Verify(" + w.describe(p) + ")"; c.note(t);
    w.rec.evs.clear();
    if (n == 1) Verify(*p[0].s).Exactly(1000); else if (n == 2) Verify(*p[0].s, *p[1].s).Exactly(1000); else Verify(*p[0].s, *p[1].s, *p[2].s).Exactly(1000);
    expect_actual(w, want, t);
}
SCENARIO_N(no_other_sources, 10, 2) {
    World w; calls(c, w, 10); int n = c.range(1, 3); std::vector<Src> s; for (int i = 0; i < n; ++i) s.push_back(source(c, w));
    std::vector<int> want; for (auto &k : w.calls) for (auto &x : s) if (x.in(k)) { want.push_back(k.id); break; }
    w.rec.evs.clear();
    if (n == 1) VerifyNoOtherInvocations(*s[0].s); else if (n == 2) VerifyNoOtherInvocations(*s[0].s, *s[1].s); else VerifyNoOtherInvocations(*s[0].s, *s[1].s, *s[2].s);
    drv::same(w.rec.evs.size(), size_t(want.empty() ? 0 : 1), "events of VerifyNoOtherInvocations"); if (!want.empty()) drv::samev(w.ids(w.rec.evs[0].actual), want, "all invocations");
}
// calls made from inside an action and mocks used alternately, many calls
SCENARIO_N(many, 10, 1) {
    World w; int n = c.range(20, 200); std::vector<int> order; 
    for (int i = 0; i < n; ++i) { int m = c.pick(3); order.push_back(m); if (m == 0) w.A1.get().f(i); else if (m == 1) w.A2.get().f(i); else w.B.get().f(i); }
    w.rec.evs.clear(); Using(w.B, w.A1, w.A2, w.B).Verify(Method(w.A1, g)).Exactly(5);
    drv::same(w.rec.evs.size(), size_t(1), "events"); auto &a = w.rec.evs[0].actual; drv::same(a.size(), size_t(n), "number of calls seen");
    for (int i = 0; i < n; ++i) { std::ostringstream o; o << (order[i] == 0 ? "A1.f(" : order[i] == 1 ? "A2.f(" : "B.f(") << i << ")"; std::string f = a[i]->format(); size_t p = f.rfind("A1."); (void)p; std::string t = o.str(); CHECK(f.size() >= t.size() && f.compare(f.size() - t.size(), t.size(), t) == 0, "call ", i, " in the actual sequence is ", f, ", expected ", t); }
}
// several mocks that are reached through variables of the same name
static void fake(Mock<IA> &m) { Fake(Method(m, f), Method(m, g)); }
static bool seen(Mock<IA> &m, Mock<IA> &a, Mock<IA> &b, int n) { return Using(a, b).Verify(Method(m, f)).Exactly(n); }
static bool alone(Mock<IA> &m, int n) { return Verify(Method(m, f)).Exactly(n); }
SCENARIO_N(same_name, 60, 1) {
    Mock<IA> a, b; fake(a); fake(b); int n = c.pick(4), k = c.pick(4);
    for (int i = 0; i < n; ++i) a.get().f(i); for (int i = 0; i < k; ++i) b.get().f(i);
    CHECK(seen(a, a, b, n) && seen(b, a, b, k), "calls of two mocks with one name: ", n, " and ", k); CHECK(alone(a, n) && alone(b, k), "calls of each mock alone: ", n, " and ", k);
}
// nothing is dropped from a long history
SCENARIO_N(long_history, 8, 3) {
    Mock<IA> m; fake(m); Adapter rec; static const int sizes[] = {300, 1100, 5000, 12000}; int n = sizes[c.pick(4)]; bool two = c.flip(); c.note(std::to_string(n) + " calls");
    for (int i = 0; i < n; ++i) { m.get().f(i); if (two) m.get().g(i); }
    std::unordered_set<Invocation *> h; m.getActualInvocations(h); drv::same(h.size(), size_t(two ? 2 * n : n), "size of the history");
    CHECK(bool(Verify(Method(m, f).Using(0)).Once()), "the first call is gone"); CHECK(bool(Verify(Method(m, f)).Exactly(n)), "number of calls");
}
SCENARIO_N(nested, 200, 1) {
    Mock<IA> a, b; Adapter rec; int depth = c.range(1, 4); bool swap = c.flip();
    std::vector<std::string> want;
    std::function<int(int)> fa, fb;
    When(Method(a, f)).AlwaysDo([&](int n) { return n > 0 ? b.get().f(n - 1) : 0; });
    When(Method(b, f)).AlwaysDo([&](int n) { return n > 0 ? (swap ? a.get().f(n - 1) : a.get().g(n)) : 0; });
    When(Method(a, g)).AlwaysReturn(1);
    a.get().f(depth);
    // a call is recorded at the moment it is made, before the calls of its action
    int n = depth; int who = 0; while (true) { want.push_back(std::string(who == 0 ? "a.f(" : "b.f(") + std::to_string(n) + ")"); if (n == 0) break; if (who == 1 && !swap) { want.push_back("a.g(" + std::to_string(n) + ")"); break; } who = 1 - who; --n; }
    Using(b, a).Verify(Method(a, h)).Exactly(1);
    drv::same(rec.evs.size(), size_t(1), "events"); std::vector<std::string> got; for (auto i : rec.evs[0].actual) got.push_back(i->format());
    drv::samev(got, want, "order of nested calls");
}
struct Src8 { virtual int f(int) = 0; virtual ~Src8() {} };
SCENARIO_N(many_sources, 40, 3) {
    Mock<Src8> m[8]; Adapter rec; int cnt[8]; for (int i = 0; i < 8; ++i) { When(Method(m[i], f)).AlwaysReturn(0); cnt[i] = c.pick(3); }
    for (int r = 0; r < 2; ++r) for (int i = 0; i < 8; ++i) if (cnt[i] > r) { m[i].get().f(i + 10 * r); }
    int k = 5 + c.pick(4); c.notef(k, " sources"); int all = 0; for (int i = 0; i < k; ++i) all += cnt[i];
    Mock<Src8> &x = m[k - 1];
    auto u = [&](int n) { return k == 5 ? bool(Using(m[0], m[1], m[2], m[3], m[4]).Verify(Method(x, f)).Exactly(n)) : k == 6 ? bool(Using(m[0], m[1], m[2], m[3], m[4], m[5]).Verify(Method(x, f)).Exactly(n)) : k == 7 ? bool(Using(m[0], m[1], m[2], m[3], m[4], m[5], m[6]).Verify(Method(x, f)).Exactly(n)) : bool(Using(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]).Verify(Method(x, f)).Exactly(n)); };
    CHECK(u(cnt[k - 1]), "Using of ", k, " mocks does not see the calls of the last");
    switch (k) { case 5: Using(m[0], m[1], m[2], m[3], m[4]).Verify(Method(x, f)).Exactly(9); break; case 6: Using(m[0], m[1], m[2], m[3], m[4], m[5]).Verify(Method(x, f)).Exactly(9); break; case 7: Using(m[0], m[1], m[2], m[3], m[4], m[5], m[6]).Verify(Method(x, f)).Exactly(9); break; default: Using(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]).Verify(Method(x, f)).Exactly(9); }
    drv::same(rec.evs.size(), size_t(1), "events"); drv::same(int(rec.evs[0].actual.size()), all, "calls of all the sources"); rec.evs.clear();
    switch (k) { case 5: Verify(Method(m[0], f), Method(m[1], f), Method(m[2], f), Method(m[3], f), Method(m[4], f)).Exactly(9); break; case 6: Verify(Method(m[0], f), Method(m[1], f), Method(m[2], f), Method(m[3], f), Method(m[4], f), Method(m[5], f)).Exactly(9); break; default: Verify(Method(m[0], f), Method(m[1], f), Method(m[2], f), Method(m[3], f), Method(m[4], f), Method(m[5], f), Method(m[6], f)).Exactly(9); }
    int seen = 0; for (int i = 0; i < (k < 7 ? k : 7); ++i) seen += cnt[i]; drv::same(rec.evs.size(), size_t(1), "events of Verify"); drv::same(int(rec.evs[0].actual.size()), seen, "calls of the mocks that the sequences mention");
}
DRIVER_MAIN
