#include "world.hpp"
using namespace world;

static int sources_no_other(World &w, std::vector<int> const &ms, int how) {
#define EV(e) { if (how == 1) { bool ev_ = (e); return ev_ ? 1 : 0; } if (how == 2) { bool ev_ = !(e); return ev_ ? 0 : 1; } e; return 2; }
    auto &a = w.mock(ms[0]);
    if (ms.size() == 1) EV(VerifyNoOtherInvocations(a))
    auto &b = w.mock(ms[1]);
    if (ms.size() == 2) EV(VerifyNoOtherInvocations(a, b))
    auto &d = w.mock(ms[2]);
    EV(VerifyNoOtherInvocations(a, b, d))
#undef EV
}
static void check_no_other(drv::Choices &c, World &w, std::vector<int> const &ms, int how) {
    std::set<int> S(ms.begin(), ms.end()); std::vector<int> all = w.involved(S), un;
    for (int i : all) if (!w.by_id(i).verified) un.push_back(i);
    c.notef("VerifyNoOtherInvocations(mocks ", drv::show(ms), ")", how ? " to bool" : "");
    w.rec.evs.clear(); int r = sources_no_other(w, ms, how);
    if (how) { drv::same(r, un.empty() ? 1 : 0, "VerifyNoOtherInvocations with ", un.size(), " unverified calls"); drv::same(w.rec.evs.size(), size_t(0), "events of a phrase converted to bool"); }
    else {
        drv::same(w.rec.evs.size(), size_t(un.empty() ? 0 : 1), "events of VerifyNoOtherInvocations with ", un.size(), " unverified calls");
        if (!un.empty()) { Ev &e = w.rec.evs[0]; CHECK(e.kind == 2, "not a no-more-invocations event"); drv::samev(w.ids(e.actual), all, "all invocations in the event"); drv::samev(w.ids(e.unverified), un, "unverified invocations in the event"); }
    }
}
// the verified state of every call, seen through the unverified lists
static void check_state(World &w) {
    for (int m = 0; m < 3; ++m) {
        std::vector<int> un; for (auto &k : w.calls) if (mock_of(k.mid) == m && !k.verified) un.push_back(k.id);
        w.rec.evs.clear(); VerifyNoOtherInvocations(w.mock(m));
        drv::same(w.rec.evs.size(), size_t(un.empty() ? 0 : 1), "VerifyNoOtherInvocations of mock ", m, " with ", un.size(), " unverified calls");
        if (!un.empty()) drv::samev(w.ids(w.rec.evs[0].unverified), un, "unverified calls of mock ", m);
    }
    for (auto &k : w.calls) drv::same(k.inv->isVerified(), k.verified, "verified mark of call ", k.id);
}
template<class... S> static int verify_by(int kind, World &w, std::vector<int> const &ms, Quant const &q, int how, S const &... s) {
    switch (kind) {
        case 0: return apply(Verify(s...), q, how);
        case 1: return ms.size() == 1 ? apply(Using(w.mock(ms[0])).Verify(s...), q, how) : apply(Using(w.mock(ms[0]), w.mock(ms[1])).Verify(s...), q, how);
        case 2: return apply(Unverified.Verify(s...), q, how);
        case 3: { auto u = Unverified(w.mock(ms[0])); return apply(Using(u).Verify(s...), q, how); }
        default: return ms.size() == 1 ? apply(Using(Unverified(w.mock(ms[0]))).Verify(s...), q, how) : apply(Using(Unverified(w.mock(ms[0]), w.mock(ms[1]))).Verify(s...), q, how);
    }
}
static void step_verify(drv::Choices &c, World &w, int nm, int depth) {
    int k = c.range(1, 3); std::vector<Seq> p; for (int i = 0; i < k; ++i) p.push_back(w.seq(c, depth, nm));
    int kind = c.pick(5); std::vector<int> ms; if (kind == 1 || kind >= 3) { int n = c.range(1, 2); for (int i = 0; i < n; ++i) ms.push_back(c.pick(3)); if (kind == 3) ms.resize(1); }
    Quant q = Quant::any(c, 3); int how = c.pick(3);
    std::set<int> mocks; if (kind == 0 || kind == 2) for (auto &s : p) mocks.insert(s.mocks.begin(), s.mocks.end()); else mocks.insert(ms.begin(), ms.end());
    std::vector<int> act = w.involved(mocks), matched;
    if (kind >= 2) { std::vector<int> u; for (int i : act) if (!w.by_id(i).verified) u.push_back(i); act = u; }
    int count = w.match(act, p, matched); bool pass = q.passes(count);
    static const char *kn[] = {"Verify", "Using(..).Verify", "Unverified.Verify", "Using(stored Unverified).Verify", "Using(Unverified(..)).Verify"};
    c.notef(kn[kind], "(", w.describe(p), ")", q.str(), " sources ", drv::show(ms), how == 0 ? "" : " to bool");
    w.rec.evs.clear(); int r;
    if (k == 1) r = verify_by(kind, w, ms, q, how, *p[0].s); else if (k == 2) r = verify_by(kind, w, ms, q, how, *p[0].s, *p[1].s); else r = verify_by(kind, w, ms, q, how, *p[0].s, *p[1].s, *p[2].s);
    if (how) drv::same(r, pass ? 1 : 0, "result of ", kn[kind], "(", w.describe(p), ")", q.str());
    else {
        drv::same(w.rec.evs.size(), size_t(pass ? 0 : 1), "events of ", kn[kind], "(", w.describe(p), ")", q.str());
        if (!pass) drv::samev(w.ids(w.rec.evs[0].actual), act, "actual sequence seen by ", kn[kind]);
    }
    if (pass) for (int i : matched) w.by_id(i).verified = true;
    check_state(w);
}
SCENARIO_N(one_pattern, 40000, 3) {
    World w; int n = c.range(0, 4); for (int i = 0; i < n; ++i) w.call(c, c.pick(2), 0);
    std::vector<Seq> p; int k = c.range(1, 2); for (int i = 0; i < k; ++i) { int t = c.pick(3); p.push_back(t < 2 ? w.atom({t, 0, 0}) : World::plus(w.atom({0, 0, 0}), w.atom({1, 0, 0}))); }
    std::set<int> mocks{0}; std::vector<int> act = w.involved(mocks), matched; int count = w.match(act, p, matched);
    Quant q{c.flip() ? 6 : 7, c.pick(4)}; int how = c.pick(2);
    c.notef("Verify(", w.describe(p), ")", q.str());
    int r = k == 1 ? apply(Verify(*p[0].s), q, how) : apply(Verify(*p[0].s, *p[1].s), q, how); (void)r;
    if (q.passes(count)) for (int i : matched) w.by_id(i).verified = true;
    check_state(w);
    check_no_other(c, w, {0, 1}, 1); check_no_other(c, w, {2, 0, 0}, 0);
}
SCENARIO_N(history, 10, 4) {
    World w; int nm = c.range(1, NM); int steps = c.range(1, 12);
    for (int i = 0; i < steps; ++i) {
        int k = c.pick(8);
        if (k < 4) w.call(c, c.pick(nm), c.pick(3));
        else if (k < 7) step_verify(c, w, nm, 1);
        else { int n = c.range(1, 3); std::vector<int> ms; for (int j = 0; j < n; ++j) ms.push_back(c.pick(3)); check_no_other(c, w, ms, c.pick(3)); check_state(w); }
    }
}
SCENARIO_N(late, 10, 2) {
    World w; int nm = c.range(1, 4); int n = c.range(2, 10); for (int i = 0; i < n; ++i) w.call(c, c.pick(nm), c.pick(2));
    int r = c.range(1, 3); for (int i = 0; i < r; ++i) step_verify(c, w, nm, 2);
    w.call(c, c.pick(nm), 0); step_verify(c, w, nm, 1);
}
// method phrases as sources of VerifyNoOtherInvocations and Unverified
SCENARIO_N(phrases, 10, 2) {
    World w; int n = c.range(0, 8); for (int i = 0; i < n; ++i) w.call(c, c.pick(3), c.pick(3));
    int v = c.pick(3); bool pre = c.flip();
    if (pre) { c.notef("Verify(A1.f(", v, ")).Any()"); Verify(Method(w.A1, f).Using(v)).Any(); for (auto &k : w.calls) if (k.mid == 0 && k.arg == v) k.verified = true; }
    Atom a = World::any_atom(c, 3); Seq s = w.atom(a), t = w.atom({1, 0, 0});
    std::vector<int> all, un; bool two = c.flip();
    for (auto &k : w.calls) if (a.accepts(k) || (two && k.mid == 1)) { all.push_back(k.id); if (!k.verified) un.push_back(k.id); }
    c.notef("VerifyNoOtherInvocations(", a.str(), two ? ", A1.g" : "", ")");
    w.rec.evs.clear();
    if (two) VerifyNoOtherInvocations(*s.src, *t.src); else VerifyNoOtherInvocations(*s.src);
    drv::same(w.rec.evs.size(), size_t(un.empty() ? 0 : 1), "events of VerifyNoOtherInvocations(", a.str(), ")");
    if (!un.empty()) { drv::samev(w.ids(w.rec.evs[0].actual), all, "all invocations"); drv::samev(w.ids(w.rec.evs[0].unverified), un, "unverified invocations"); }
    std::vector<int> m; std::vector<Seq> p{w.atom({0, 0, 0})}; int cnt = w.match(un, p, m);
    bool b = Using(Unverified(*s.src, two ? *t.src : *s.src)).Verify(*p[0].s).Exactly(cnt);
    CHECK(b, "Using(Unverified(", a.str(), ")).Verify(A1.f).Exactly(", cnt, ") fails");
    for (int i : m) w.by_id(i).verified = true;
    check_state(w);
}
struct Src4 { virtual int f(int) = 0; virtual ~Src4() {} };
SCENARIO_N(many_sources, 30, 3) {
    Mock<Src4> m[8]; Adapter rec; for (auto &x : m) When(Method(x, f)).AlwaysReturn(0);
    int who = c.pick(9), k = 5 + c.pick(4); c.notef(k, " sources, a call of ", who); if (who < 8) m[who].get().f(1);
    auto no = [&] { return k == 5 ? bool(VerifyNoOtherInvocations(m[0], m[1], m[2], m[3], m[4])) : k == 6 ? bool(VerifyNoOtherInvocations(m[0], m[1], m[2], m[3], m[4], m[5])) : k == 7 ? bool(VerifyNoOtherInvocations(m[0], m[1], m[2], m[3], m[4], m[5], m[6])) : bool(VerifyNoOtherInvocations(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7])); };
    drv::same(no(), who >= k, "VerifyNoOtherInvocations"); if (who < 8) { CHECK(bool(Verify(Method(m[who], f)).Exactly(1)), "the call"); CHECK(no(), "VerifyNoOtherInvocations after the call is verified"); }
}
SCENARIO_N(many_unverified, 6, 2) {
    Mock<Src4> m; Adapter rec; When(Method(m, f)).AlwaysReturn(0); int n = 1100 + c.pick(3) * 1000, k = c.range(1, 50); c.notef(n, " calls, ", k, " verified"); for (int i = 0; i < n; ++i) m.get().f(i);
    CHECK(bool(Verify(Method(m, f).Matching([&](int x) { return x < k; })).Exactly(k)), "verified calls");
    CHECK(bool(Using(Unverified(m)).Verify(Method(m, f)).Exactly(n - k)), "the number of unverified calls"); CHECK(bool(VerifyNoOtherInvocations(m)), "all calls are verified");
}
DRIVER_MAIN
