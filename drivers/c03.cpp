#include "world.hpp"
using namespace world;

struct Out { int res; int line; };
static Out verify(World &w, std::vector<Seq> const &p, Quant const &q, int how) {
    Out o; o.line = 0; (void)w;
    switch (p.size()) {
        case 1: o.res = apply(Verify(*p[0].s), q, how); break;
        case 2: o.res = apply(Verify(*p[0].s, *p[1].s), q, how); break;
        case 3: o.res = apply(Verify(*p[0].s, *p[1].s, *p[2].s), q, how); break;
        default: o.res = apply(Verify(*p[0].s, *p[1].s, *p[2].s, *p[3].s), q, how); break;
    }
    return o;
}

static void check_verify(drv::Choices &c, World &w, std::vector<Seq> const &p, Quant const &q, int how) {
    std::set<int> mocks; for (auto &s : p) mocks.insert(s.mocks.begin(), s.mocks.end());
    std::vector<int> act = w.involved(mocks), matched;
    int count = w.match(act, p, matched);
    bool pass = q.passes(count);
    c.notef("Verify(", w.describe(p), ")", q.str(), how == 0 ? "" : how == 1 ? " to bool" : " negated");
    w.rec.evs.clear();
    Out o = verify(w, p, q, how);
    if (how) {
        drv::same(o.res, pass ? 1 : 0, "result of Verify(", w.describe(p), ")", q.str(), " over ", act.size(), " calls with ", count, " matches");
        drv::same(w.rec.evs.size(), size_t(0), "events of a verification that is converted to bool");
    } else {
        drv::same(w.rec.evs.size(), size_t(pass ? 0 : 1), "events of Verify(", w.describe(p), ")", q.str(), " over ", act.size(), " calls with ", count, " matches");
        if (!pass) {
            Ev &e = w.rec.evs[0];
            CHECK(e.kind == 1, "not a sequence verification event");
            CHECK(e.vt == (q.exact() ? VerificationType::Exact : VerificationType::AtLeast), "wrong expected kind in the event of ", q.str());
            drv::same(e.expected, q.expected(), "expected count in the event of ", q.str());
            drv::same(e.count, count, "actual count in the event");
            drv::samev(w.ids(e.actual), act, "actual sequence in the event");
            drv::same(e.pattern.size(), p.size(), "pattern length in the event");
            for (size_t i = 0; i < p.size(); ++i) CHECK(e.pattern[i] == p[i].s, "pattern element ", i, " in the event is not the given one");
        }
    }
}

// histories over two methods with short patterns of single phrases, in full
SCENARIO_N(small, 60000, 3) {
    World w; int n = c.range(0, 4); for (int i = 0; i < n; ++i) { int m = c.pick(2); w.call(c, m, 0); }
    int k = c.range(1, 2); std::vector<Seq> p;
    for (int i = 0; i < k; ++i) { int t = c.pick(5); Seq a = w.atom({0, 0, 0}), b = w.atom({1, 0, 0}); p.push_back(t == 0 ? a : t == 1 ? b : t == 2 ? World::plus(a, b) : t == 3 ? World::plus(a, w.atom({0, 0, 0})) : World::times(b, 2, false)); }
    int qk = c.pick(4); Quant q{6, qk};
    check_verify(c, w, p, q, 1);
    check_verify(c, w, p, q, 0);
    for (int m = 1; m <= 3; ++m) { Quant r{7, m}; check_verify(c, w, p, r, 1); }
}
// every quantity against every count
SCENARIO_N(quantities, 4000, 1) {
    World w; int n = c.range(0, 5); for (int i = 0; i < n; ++i) w.call(c, 0, i);
    Quant q = Quant::any(c, 6); int how = c.pick(3);
    std::vector<Seq> p{w.atom({0, 0, 0})};
    check_verify(c, w, p, q, how);
}
SCENARIO_N(random, 10, 4) {
    World w; int nm = c.range(1, NM); int n = c.range(0, 14); for (int i = 0; i < n; ++i) { int m = c.pick(nm); w.call(c, m, c.pick(3)); }
    int rounds = c.range(1, 3);
    for (int r = 0; r < rounds; ++r) {
        int k = c.range(1, 4); std::vector<Seq> p; for (int i = 0; i < k; ++i) p.push_back(w.seq(c, 2, nm));
        Quant q = Quant::any(c); int how = c.pick(3);
        check_verify(c, w, p, q, how);
    }
}
// overlapping occurrences: long runs of few symbols
SCENARIO_N(overlap, 10, 2) {
    World w; int n = c.range(0, 24); for (int i = 0; i < n; ++i) w.call(c, c.pick(2), 0);
    int k = c.range(1, 3); std::vector<Seq> p;
    for (int i = 0; i < k; ++i) { int len = c.range(1, 4); Seq s = w.atom({c.pick(2), 0, 0}); for (int j = 1; j < len; ++j) s = World::plus(s, w.atom({c.pick(2), 0, 0})); p.push_back(s); }
    std::vector<int> act = w.involved({0}), m; 
    int cnt; { std::set<int> ms; for (auto &s : p) ms.insert(s.mocks.begin(), s.mocks.end()); cnt = w.match(w.involved(ms), p, m); }
    for (int d = -1; d <= 1; ++d) if (cnt + d >= 0) { Quant q{6, cnt + d}; check_verify(c, w, p, q, 1); Quant r{7, cnt + d}; check_verify(c, w, p, r, 1); check_verify(c, w, p, q, 0); }
}
// large counts
SCENARIO_N(large, 10, 0.5) {
    World w; int n = c.range(40, 400); for (int i = 0; i < n; ++i) w.A1.get().f(i % 3);
    for (int d = -1; d <= 1; ++d) { bool b = Verify(Method(w.A1, f)).Exactly(n + d); drv::same(b, d == 0, "Exactly(", n + d, ") over ", n, " calls"); bool a = Verify(Method(w.A1, f)).AtLeast(n + d); drv::same(a, d <= 0, "AtLeast(", n + d, ") over ", n, " calls"); }
    int h = n / 2; bool b = Verify(Method(w.A1, f) * 2).Exactly(h); CHECK(b, "pairs over ", n, " calls");
}
// quantities far from the count: every bit of the quantity matters
SCENARIO_N(wide, 400, 0.5) {
    World w; int n = c.range(0, 3); for (int i = 0; i < n; ++i) w.call(c, 0, i);
    static const int far[] = {0x100, 0x8000, 0x10000, 0x1000000, 0x40000000, 0x7ffffff0}; int f = far[c.pick(6)], d = c.range(-1, 1); if (d < 0 && n == 0) d = 0;
    std::vector<Seq> p{w.atom({0, 0, 0})};
    Quant q{c.flip() ? 6 : 7, f + n + d}; check_verify(c, w, p, q, c.pick(3));
}
// long histories: verdict and the numbers in the event
SCENARIO_N(long_histories, 12, 1) {
    World w; static const int ns[] = {255, 256, 257, 1000, 1001, 1500, 4097, 5000}; int n = ns[c.pick(8)], len = c.range(1, 3); c.notef(n, " calls, pattern of ", len); for (int i = 0; i < n; ++i) w.A1.get().f(i); int hits = n / len;
    for (int d = -1; d <= 1; ++d) { w.rec.evs.clear(); Verify(Method(w.A1, f) * len).Exactly(hits + d); drv::same(w.rec.evs.size(), size_t(d != 0), "events of Exactly(", hits + d, ")"); if (d) { drv::same(w.rec.evs[0].expected, hits + d, "expected count"); drv::same(w.rec.evs[0].count, hits, "actual count"); drv::same(w.rec.evs[0].actual.size(), size_t(n), "calls in the event"); }
        w.rec.evs.clear(); Verify(Method(w.A1, f) * len).AtLeast(hits + d); drv::same(w.rec.evs.size(), size_t(d > 0), "events of AtLeast(", hits + d, ")"); if (d > 0) { drv::same(w.rec.evs[0].expected, hits + d, "expected count"); drv::same(w.rec.evs[0].count, hits, "actual count"); } }
}
DRIVER_MAIN
