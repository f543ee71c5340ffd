// flags: -pthread
// flags: -pthread -fsanitize=thread
#include "world.hpp"
#include <thread>
#include <atomic>
using namespace world;
struct IC { virtual int f(int) = 0; virtual void g(int) = 0; virtual std::string s(int) = 0; };
// every thread has its own mock; the ordinals of all calls are compared
static void run(drv::Choices &c, int T, int n, bool make_inside) {
    std::vector<std::unique_ptr<Mock<IC>>> ms(T); std::atomic<int> ready{0}, go{0};
    auto make = [](std::unique_ptr<Mock<IC>> &p) { p.reset(new Mock<IC>()); Mock<IC> &m = *p; When(Method(m, f)).AlwaysReturn(1); When(Method(m, g)).AlwaysReturn(); When(Method(m, s)).AlwaysReturn("x"); };
    if (!make_inside) for (auto &p : ms) make(p);
    std::vector<std::thread> ts; for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { ++ready; while (!go) ; if (make_inside) make(ms[t]); IC &o = ms[t]->get(); for (int i = 0; i < n; ++i) switch (i % 3) { case 0: o.f(i); break; case 1: o.g(i); break; default: o.s(i); } });
    while (ready < T) ; go = 1; for (auto &t : ts) t.join();
    std::map<unsigned, int> owner; for (int t = 0; t < T; ++t) { std::unordered_set<Invocation *> h; ms[t]->getActualInvocations(h); drv::same(h.size(), size_t(n), "calls recorded by thread ", t); std::vector<std::pair<int, unsigned>> order; for (auto i : h) { unsigned o = i->getOrdinal(); auto r = owner.insert({o, t}); CHECK(r.second, "threads ", r.first->second, " and ", t, " got the same position ", o); std::string s = i->format(); order.push_back({std::atoi(s.c_str() + s.find('(') + 1), o}); } std::sort(order.begin(), order.end()); for (size_t i = 1; i < order.size(); ++i) CHECK(order[i - 1].second < order[i].second, "calls ", order[i - 1].first, " and ", order[i].first, " of thread ", t, " are out of order"); }
    // the order is also what sequence verification uses
    for (int t = 0; t < T; ++t) { Mock<IC> &m = *ms[t]; if (n >= 3) { bool b = Verify(Method(m, f).Using(0) + Method(m, g).Using(1) + Method(m, s).Using(2)).Exactly(1); CHECK(b, "order of the calls of thread ", t); } bool q = Verify(Method(m, f)).Exactly((n + 2) / 3); CHECK(q, "number of calls of thread ", t); }
    (void)c;
}
SCENARIO_N(own_mocks, 40, 2) { Adapter rec; int T = c.range(2, 8), n = c.pick(2) ? 300 : 60; run(c, T, n, false); }
SCENARIO_N(mocks_made_inside, 20, 1) { Adapter rec; int T = c.range(2, 6); run(c, T, 90, true); }
// unexpected calls from several threads take positions as well and disturb nobody
SCENARIO_N(sequential, 200, 0.2) { Adapter rec; Mock<IC> a, b; When(Method(a, f)).AlwaysReturn(1); When(Method(b, f)).AlwaysReturn(1); int n = c.range(1, 8); std::vector<int> who; std::set<unsigned> seen; unsigned last = 0; for (int i = 0; i < n; ++i) { int w = c.pick(3); if (w == 2) { std::thread([&] { a.get().f(i); }).join(); w = 0; } else (w ? b : a).get().f(i); std::unordered_set<Invocation *> h; (w ? b : a).getActualInvocations(h); unsigned mx = 0; for (auto k : h) mx = std::max(mx, k->getOrdinal()); CHECK(mx > last, "a later call does not get a later position"); last = mx; } }
DRIVER_MAIN
