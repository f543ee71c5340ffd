#include "world.hpp"
using namespace world;

struct Boom { int tag; };
struct IF2 { virtual int f(int) = 0; virtual void v(int) = 0; virtual ~IF2() = default; };

// an action as recorded: value or exception `tag`, answers `n` calls (n<0: all)
struct Act { int kind; int tag; int n; };   // kind 0 value, 1 throw, 2 re-enters the method once before it answers
struct Out { int kind; int tag; };

struct Model { std::vector<Act> q; size_t pos = 0; int used = 0;
    // index of the action that answers the next call, or -1
    int take() { while (pos < q.size() && q[pos].n >= 0 && used >= q[pos].n) { ++pos; used = 0; } if (pos >= q.size()) return -1; ++used; return int(pos); } };

template<class T> static void expectations(drv::Choices &c, Model &model, Recorder &rec, T call, std::vector<Out> &trace, int ncalls, int tail = 1) {
    for (int i = 0; i < ncalls; ++i) {
        std::vector<Out> want; bool unexpected = false; int events = 0;
        // oracle of one call, with its nested calls
        std::function<Out()> sim = [&]() -> Out {
            int k = model.take(); if (k < 0) { ++events; return {9, 0}; }
            Act a = model.q[k]; if (a.kind == 2) { Out o = sim(); want.push_back(o); }
            return {a.kind == 1 ? 1 : 0, a.tag}; };
        Out w = sim(); (void)unexpected;
        trace.clear(); rec.evs.clear(); Out g; try { g = call(i); } catch (Boom &b) { g = {1, b.tag}; } catch (UnexpectedMethodCallException &) { g = {9, 0}; }
        c.notef("call ", i, " gives ", g.kind, ":", g.tag, " expected ", w.kind, ":", w.tag);
        CHECK(g.kind == w.kind && (g.kind == 9 || g.tag == w.tag), "call ", i, " gives ", g.kind == 9 ? "unexpected" : g.kind ? "exception " : "value ", g.tag, ", expected ", w.kind == 9 ? "unexpected" : w.kind ? "exception " : "value ", w.tag);
        drv::same(int(rec.evs.size()), events, "events of call ", i);
        drv::same(trace.size(), want.size(), "nested calls of call ", i);
        for (size_t j = 0; j < want.size(); ++j) CHECK(trace[j].kind == want[j].kind && (want[j].kind == 9 || trace[j].tag == want[j].tag), "nested call of call ", i, " gives ", trace[j].kind, ":", trace[j].tag, ", expected ", want[j].kind, ":", want[j].tag);
    }
}
template<class P> static void add(drv::Choices &c, P &p, Model &m, int &tag, std::function<int()> again, std::function<void(Out)> log, bool always) {
    // one chain element; the same progress object is used for all of them
    int k = c.pick(always ? 13 : 10); int t = tag++;
    auto reenter = [again, log]() { Out o; try { o = {0, again()}; } catch (Boom &b) { o = {1, b.tag}; } catch (UnexpectedMethodCallException &) { o = {9, 0}; } log(o); };
    switch (k) {
        case 0: p.Return(t); m.q.push_back({0, t, 1}); c.notef("Return(", t, ")"); break;
        case 1: { int n = c.range(0, 3); if (n == 0) n = 1; p.Return(Quantifier<int>(n, t)); m.q.push_back({0, t, n}); c.notef("Return(", n, "_Times(", t, "))"); break; }
        case 2: p.Throw(Boom{t}); m.q.push_back({1, t, 1}); c.notef("Throw(", t, ")"); break;
        case 3: { int n = c.range(1, 3); p.Throw(Quantifier<Boom>(n, Boom{t})); m.q.push_back({1, t, n}); c.notef("Throw(", n, "_Times(", t, "))"); break; }
        case 4: p.Do([t](int) { return t; }); m.q.push_back({0, t, 1}); c.notef("Do(", t, ")"); break;
        case 5: p.Do([t](int) -> int { throw Boom{t}; }); m.q.push_back({1, t, 1}); c.notef("Do(throwing ", t, ")"); break;
        case 6: p.Do([t, reenter](int) { reenter(); return t; }); m.q.push_back({2, t, 1}); c.notef("Do(re-entering ", t, ")"); break;
        case 7: { int a = tag++, b = tag++; p.Return(t, a, b); m.q.push_back({0, t, 1}); m.q.push_back({0, a, 1}); m.q.push_back({0, b, 1}); c.notef("Return(", t, ",", a, ",", b, ")"); break; }
        case 8: { int a = tag++; p.Throw(Boom{t}, Boom{a}); m.q.push_back({1, t, 1}); m.q.push_back({1, a, 1}); c.notef("Throw(", t, ",", a, ")"); break; }
        case 9: { int a = tag++; p.Do([t](int) { return t; }, [a, reenter](int) { reenter(); return a; }); m.q.push_back({0, t, 1}); m.q.push_back({2, a, 1}); c.notef("Do(", t, ",re-entering ", a, ")"); break; }
        case 10: p.AlwaysReturn(t); m.q.push_back({0, t, -1}); c.notef("AlwaysReturn(", t, ")"); break;
        case 11: p.AlwaysThrow(Boom{t}); m.q.push_back({1, t, -1}); c.notef("AlwaysThrow(", t, ")"); break;
        default: p.AlwaysDo([t](int) { return t; }); m.q.push_back({0, t, -1}); c.notef("AlwaysDo(", t, ")"); break;
    }
}
static int total(Model &m) { int n = 0; for (auto &a : m.q) n += a.n < 0 ? 3 : a.n; return n; }

SCENARIO_N(chains, 20000, 4) {
    Mock<IF2> m; Adapter rec; Model model; int tag = 1; std::vector<Out> trace;
    auto again = [&]() { return m.get().f(0); }; auto log = [&](Out o) { trace.push_back(o); };
    { auto ctx = Method(m, f); auto p = When(ctx); int n = c.range(1, 5); for (int i = 0; i < n; ++i) add(c, p, model, tag, again, log, i == n - 1); }
    expectations(c, model, rec, [&](int i) { return Out{0, m.get().f(i)}; }, trace, total(model) + 3);
}
// elements after an "always" element are never reached
SCENARIO_N(after_always, 10, 1) {
    Mock<IF2> m; Adapter rec; Model model; int tag = 1; std::vector<Out> trace; auto again = [&]() { return m.get().f(0); }; auto log = [&](Out o) { trace.push_back(o); };
    int k = c.pick(3); { auto ctx = Method(m, f); auto p = When(ctx); int n = c.range(0, 2); for (int i = 0; i < n; ++i) add(c, p, model, tag, again, log, false);
        int t = tag++; if (k == 0) p.AlwaysReturn(t); else if (k == 1) p.AlwaysThrow(Boom{t}); else p.AlwaysDo([t](int) { return t; }); model.q.push_back({k == 1 ? 1 : 0, t, -1}); }
    expectations(c, model, rec, [&](int i) { return Out{0, m.get().f(i)}; }, trace, total(model) + 5);
}
// void methods
SCENARIO_N(void_chains, 5000, 2) {
    Mock<IF2> m; Adapter rec; Model model; std::vector<Out> trace; int last = 0; int tag = 1;
    { auto ctx = Method(m, v); auto p = When(ctx); int n = c.range(1, 5);
      for (int i = 0; i < n; ++i) { int k = c.pick(i == n - 1 ? 8 : 6); int t = tag++;
        switch (k) { case 0: p.Return(); model.q.push_back({0, 0, 1}); break; case 1: { int r = c.range(1, 3); p.Return(Quantifier<void>(r)); model.q.push_back({0, 0, r}); break; }
            case 2: p.Throw(Boom{t}); model.q.push_back({1, t, 1}); break; case 3: p.Do([&last, t](int) { last = t; }); model.q.push_back({0, t, 1}); break;
            case 4: { int r = c.range(1, 3); p.Throw(Quantifier<Boom>(r, Boom{t})); model.q.push_back({1, t, r}); break; }
            case 5: { int a = tag++; p.Do([&last, t](int) { last = t; }, [&last, a](int) { last = a; throw Boom{a}; }); model.q.push_back({0, t, 1}); model.q.push_back({1, a, 1}); break; }
            case 6: p.AlwaysReturn(); model.q.push_back({0, 0, -1}); break; default: p.AlwaysDo([&last, t](int) { last = t; }); model.q.push_back({0, t, -1}); } c.notef("element ", k, " tag ", t); } }
    expectations(c, model, rec, [&](int i) { last = 0; m.get().v(i); return Out{0, last}; }, trace, total(model) + 3);
}
// two stubbings of one method and one of another: each consumes its own actions
SCENARIO_N(independent, 10, 2) {
    Mock<IF2> m; Adapter rec; Model a, b; int tag = 1; std::vector<Out> trace; auto again = [&]() { return m.get().f(0); }; auto log = [&](Out o) { trace.push_back(o); };
    auto again1 = [&]() { return m.get().f(1); };
    { auto ctx = Method(m, f); auto p = When(ctx); int n = c.range(1, 3); for (int i = 0; i < n; ++i) add(c, p, a, tag, again, log, i == n - 1); }
    { auto ctx = Method(m, f).Using(1); auto p = When(ctx); int n = c.range(1, 3); for (int i = 0; i < n; ++i) add(c, p, b, tag, again1, log, i == n - 1); }
    int calls = c.range(4, 14);
    for (int i = 0; i < calls; ++i) { bool one = c.flip(); expectations(c, one ? b : a, rec, [&](int) { return Out{0, m.get().f(one ? 1 : 0)}; }, trace, 1); }
}
// large counts
SCENARIO_N(large, 10, 0.5) {
    Mock<IF2> m; Adapter rec; int n = c.range(1, 300), k = c.range(1, 300); When(Method(m, f)).Return(Quantifier<int>(n, 1)).Throw(Quantifier<Boom>(k, Boom{2})).Return(3);
    for (int i = 0; i < n; ++i) drv::same(m.get().f(0), 1, "call ", i, " of ", n);
    for (int i = 0; i < k; ++i) { int t = 0; try { m.get().f(0); } catch (Boom &b) { t = b.tag; } drv::same(t, 2, "throwing call ", i, " of ", k); }
    drv::same(m.get().f(0), 3, "last"); bool u = false; try { m.get().f(0); } catch (UnexpectedMethodCallException &) { u = true; } CHECK(u, "call after the last action is answered"); drv::same(rec.evs.size(), size_t(1), "events");
}
// user defined literals
SCENARIO_N(literals, 10, 0.2) {
    Mock<IF2> m; Adapter rec; int k = c.pick(3); (void)k; using namespace fakeit; When(Method(m, f)).Return(2_Times(5), 3_Times(6)).Throw(2_Times(Boom{7})); int want[] = {5, 5, 6, 6, 6};
    for (int w : want) drv::same(m.get().f(0), w, "literal"); for (int i = 0; i < 2; ++i) { int t = 0; try { m.get().f(0); } catch (Boom &b) { t = b.tag; } drv::same(t, 7, "literal throw"); }
    bool u = false; try { m.get().f(0); } catch (UnexpectedMethodCallException &) { u = true; } CHECK(u, "call after the last action");
}
// calls around ClearInvocationHistory and an exhausted call in between
SCENARIO_N(exhausted_repeat, 100, 0.5) {
    Mock<IF2> m; Adapter rec; int n = c.range(1, 3); bool nested = c.flip(); int runs = 0;
    When(Method(m, f)).Do([&](int x) { ++runs; if (nested && x > 0) try { m.get().f(x - 1); } catch (UnexpectedMethodCallException &) {} return 1; });
    drv::same(m.get().f(2), 1, "first call"); drv::same(runs, 1, "runs of the action");
    for (int i = 0; i < n; ++i) { bool u = false; try { m.get().f(1); } catch (UnexpectedMethodCallException &) { u = true; } CHECK(u, "exhausted call ", i, " is answered"); drv::same(runs, 1, "runs of the action after exhaustion"); }
}
// long repetitions
SCENARIO_N(long_repeat, 48, 0.5) {
    static const int ns[] = {127, 128, 255, 256, 257, 1000, 32767, 32768, 65536, 65537, 70001, 131073}; int n = ns[c.pick(12)], k = c.pick(4);
    Mock<IF2> m; Adapter rec; m.ClearInvocationHistory();
    { auto ctx = Method(m, f); auto p = When(ctx); if (k == 0) p.Return(Quantifier<int>(n, 5)).Return(6); else if (k == 1) p.Return(4, Quantifier<int>(n, 5)).Return(6); else if (k == 2) p.Throw(Quantifier<Boom>(n, Boom{5})).Return(6); else p.Return(Quantifier<int>(n, 5), 6); }
    c.notef("repeat ", n, " kind ", k); if (k == 1) drv::same(m.get().f(0), 4, "first action");
    for (int i = 0; i < n; ++i) { int g; try { g = m.get().f(i); } catch (Boom &b) { g = 100 + b.tag; } if (g != (k == 2 ? 105 : 5)) CHECK(false, "call ", i + 1, " of ", n, " repetitions gives ", g); if (i % 512 == 0) m.ClearInvocationHistory(); }
    drv::same(m.get().f(0), 6, "the action after ", n, " repetitions"); bool thrown = false; try { m.get().f(0); } catch (UnexpectedMethodCallException &) { thrown = true; } CHECK(thrown, "a call after the last action is expected");
}
// how often: elements for no call at all, and "always" elements asked very often
static int cnt(drv::Choices &c) { static const int n[] = {0, 1, 2, 3, 127, 256, 70000}; return n[c.pick(7)]; }
SCENARIO_N(how_often, 60, 2) {
    Mock<IF2> m; Adapter rec; int n = cnt(c), k = c.pick(3); bool vd = c.flip(); int hit = 0; c.notef("n ", n, " kind ", k, " void ", vd);
    if (vd) { if (k == 0) When(Method(m, v)).Do(Quantifier<std::function<void(int &)>>(n, [&](int &) { hit = 5; })).Do([&](int) { hit = 6; }); else if (k == 1) When(Method(m, v)).Throw(Quantifier<Boom>(n, Boom{5})).Do([&](int) { hit = 6; }); else When(Method(m, v)).Return(Quantifier<void>(n)).Do([&](int) { hit = 6; }); }
    else { if (k == 0) When(Method(m, f)).Do(Quantifier<std::function<int(int &)>>(n, [&](int &) { return 5; })).Return(6); else if (k == 1) When(Method(m, f)).Throw(Quantifier<Boom>(n, Boom{5})).Return(6); else When(Method(m, f)).Return(Quantifier<int>(n, 5)).Return(6); }
    auto call = [&](int i) { int g = vd && k == 2 ? 5 : 0; hit = 0; try { if (vd) { m.get().v(i); if (hit) g = hit; } else g = m.get().f(i); } catch (Boom &b) { g = b.tag; } return g; };
    for (int i = 0; i < n; ++i) { int g = call(i); if (g != 5) CHECK(false, "call ", i + 1, " of ", n, " gives ", g); if (i % 512 == 0) m.ClearInvocationHistory(); }
    drv::same(call(0), 6, "the action after ", n, " uses"); bool u = false; try { call(0); } catch (UnexpectedMethodCallException &) { u = true; } CHECK(u, "a call after the last action is answered");
}
SCENARIO_N(always_long, 14, 8) {
    Mock<IF2> m; Adapter rec; int k = c.pick(7); c.notef("kind ", k); int hit = 0; const int n = (1 << 20) + 70000;
    switch (k) { case 0: When(Method(m, f)).AlwaysReturn(5); break; case 1: When(Method(m, f)).AlwaysDo([](int) { return 5; }); break; case 2: When(Method(m, v)).AlwaysReturn(); break; case 3: When(Method(m, v)).AlwaysDo([&](int) { hit = 5; }); break; case 4: Fake(Method(m, f)); break; case 5: Fake(Method(m, v)); break; default: When(Method(m, f)).Return(1).AlwaysReturn(5); m.get().f(0); }
    for (int i = 0; i < n; ++i) { int g = -1; hit = 0; try { if (k == 2 || k == 3 || k == 5) { m.get().v(i); g = k == 3 ? hit : 0; } else g = m.get().f(i); } catch (UnexpectedMethodCallException &) {} int w = k == 2 || k == 4 || k == 5 ? 0 : 5; if (g != w) CHECK(false, "call ", i + 1, " of an \"always\" action gives ", g); if (i % 512 == 0) m.ClearInvocationHistory(); }
}
struct IQ { virtual int f(int) = 0; virtual void v(int) = 0; virtual ~IQ() {} };
SCENARIO_N(large_quantities, 14, 4) {
    Mock<IQ> m; Adapter rec; int k = c.pick(7), n = 0; c.notef("kind ", k); int tail = 0;
    switch (k) {
        case 0: n = 70000; When(Method(m, f)).Return(70000_Times(5), 1_Time(6)); break;
        case 1: n = 40000; When(Method(m, f)).Return(40000_Times(5)).Return(6); break;
        case 2: n = 1500; When(Method(m, f)).Return(Times<1500>::of(5)).Return(6); break;
        case 3: n = 66000; When(Method(m, f)).Return(Times<66000>::of(5)).Return(6); break;
        case 4: n = 2000; When(Method(m, v)).Return(Times<2000>::Void()).Do([&](int) { tail = 1; }); break;
        case 5: n = 66000; When(Method(m, v)).Return(Times<66000>::Void()).Do([&](int) { tail = 1; }); break;
        default: n = 66000; When(Method(m, v)).Return(66000_Times).Do([&](int) { tail = 1; }); break;
    }
    for (int i = 0; i < n; ++i) { int g = 0; try { if (k < 4) g = m.get().f(i); else { m.get().v(i); g = tail ? 6 : 5; } } catch (UnexpectedMethodCallException &) {} if (g != 5) CHECK(false, "call ", i + 1, " of ", n, " gives ", g); if (i % 512 == 0) m.ClearInvocationHistory(); }
    int g = 0; try { if (k < 4) g = m.get().f(0); else { m.get().v(0); g = tail ? 6 : 5; } } catch (UnexpectedMethodCallException &) {} drv::same(g, 6, "the action after ", n, " uses");
}
DRIVER_MAIN
