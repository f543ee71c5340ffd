#include "world.hpp"
using namespace world;

static void match_exact(drv::Choices &c, World &w, Seq const &s) {
    // the calls of the sequence, after some other calls
    c.notef("sequence ", s.text, " of length ", s.flat.size());
    std::vector<Atom> f = s.flat;
    for (auto &a : f) { int arg = a.crit == 3 ? a.v + 1 : a.crit == 4 ? a.v & 1 : a.v; w.call(c, a.mid, arg); }
    std::vector<int> mt; int want = w.match(w.involved(s.mocks), {s}, mt);
    bool b = Verify(*s.s).Exactly(want); CHECK(b, "the calls do not match ", s.text, " exactly ", want, " times");
    w.rec.evs.clear(); Verify(*s.s).Exactly(want + 1); drv::same(w.rec.evs.size(), size_t(1), "events"); drv::same(w.rec.evs[0].count, want, "match count of ", s.text);
    drv::samev(w.ids(w.rec.evs[0].actual), w.involved(s.mocks), "actual sequence of ", s.text);
    drv::same(s.s->size(), (unsigned)f.size(), "size of ", s.text);
    std::vector<Invocation::Matcher *> ms; s.s->getExpectedSequence(ms); drv::same(ms.size(), f.size(), "number of expected calls of ", s.text);
    for (size_t i = 0; i < f.size(); ++i) for (auto &k : w.calls) drv::same(ms[i]->matches(*const_cast<Invocation *>(k.inv)), f[i].accepts(k), "element ", i, " of ", s.text, " against call ", k.id);
    std::vector<ActualInvocationsSource *> src; s.s->getInvolvedMocks(src); std::unordered_set<Invocation *> got; for (auto x : src) x->getActualInvocations(got);
    for (auto &k : w.calls) drv::same(got.count(const_cast<Invocation *>(k.inv)) == 1, s.mocks.count(mock_of(k.mid)) == 1, "call ", k.id, " among the calls of the mocks mentioned in ", s.text);
}
SCENARIO_N(trees, 3000, 4) {
    World w; for (int m = 0; m < NM; ++m) w.call(c, m, 7);
    Seq s = w.seq(c, 3, NM); if (s.flat.size() > 60) return;
    match_exact(c, w, s);
}
SCENARIO_N(trees_against_calls, 10, 3) {
    World w; int nm = c.range(1, 3); int n = c.range(0, 10); for (int i = 0; i < n; ++i) w.call(c, c.pick(nm), c.pick(2));
    int k = c.range(1, 3); std::vector<Seq> p; std::set<int> mocks; for (int i = 0; i < k; ++i) { p.push_back(w.seq(c, 3, nm)); mocks.insert(p.back().mocks.begin(), p.back().mocks.end()); }
    std::vector<int> act = w.involved(mocks), m; int cnt = w.match(act, p, m); c.notef("Verify(", w.describe(p), ") expected count ", cnt);
    bool b = k == 1 ? bool(Verify(*p[0].s).Exactly(cnt)) : k == 2 ? bool(Verify(*p[0].s, *p[1].s).Exactly(cnt)) : bool(Verify(*p[0].s, *p[1].s, *p[2].s).Exactly(cnt));
    CHECK(b, "Verify(", w.describe(p), ") does not match exactly ", cnt, " times");
}
// operators written out in one expression
SCENARIO_N(expressions, 10, 1) {
    World w; int n = c.range(0, 8); for (int i = 0; i < n; ++i) w.call(c, c.pick(2), 0);
    Seq a = w.atom({0, 0, 0}), b = w.atom({1, 0, 0}); auto rep = [&](std::string s, int k) { std::string r; while (k-- > 0) r += s; return r; };
    std::string h; for (auto &k : w.calls) h += k.mid == 0 ? 'a' : 'b';
    auto count = [&](std::string pat) { int r = 0; size_t p = 0; while ((p = h.find(pat, p)) != std::string::npos) { ++r; p += pat.size(); } return r; };
    int k = c.range(1, 4);
#define EX(e, pat) { std::string P = pat; int want = count(P); w.rec.evs.clear(); Verify(e).Exactly(want + 1); drv::same(w.rec.evs.size(), size_t(1), #e, " events"); drv::same(w.rec.evs[0].count, want, "count of " #e " with k=", k, " in ", h); }
#define FA Method(w.A1, f)
#define GA Method(w.A1, g)
    // every phrase names both methods so that all calls are involved anyway (one mock)
    EX(FA + GA, "ab") EX(FA + FA + GA, "aab") EX(FA * k, rep("a", k)) EX(k * FA, rep("a", k)) EX((FA + GA) * k, rep("ab", k)) EX(k * (FA + GA), rep("ab", k)) EX(FA * k + GA, rep("a", k) + "b")
    EX(GA + k * FA, "b" + rep("a", k)) EX((FA * k) * 2, rep("a", 2 * k)) EX(2 * (GA * k + FA), rep(rep("b", k) + "a", 2)) EX((FA + GA) + (GA + FA), "abba") EX(FA + (GA + GA) + FA, "abba")
}
SCENARIO_N(bad_counts, 3000, 1) {
    World w; static const int bad[] = {0, -1, -2, -100, -2147483647 - 1}; int n = bad[c.pick(5)]; Seq s = w.seq(c, 1, 2); bool left = c.flip();
    c.notef(s.text, " times ", n, left ? " from the left" : "");
    bool thrown = false;
    try { if (left) { auto r = n * *s.s; (void)r; } else { auto r = *s.s * n; (void)r; } } catch (std::invalid_argument &) { thrown = true; }
    CHECK(thrown, "repetition with ", n, " does not throw std::invalid_argument");
    int g = c.range(1, 3); thrown = false; try { auto r = g * *s.s; (void)r; auto q = *s.s * g; (void)q; } catch (...) { thrown = true; } CHECK(!thrown, "repetition with ", g, " throws");
}
DRIVER_MAIN
