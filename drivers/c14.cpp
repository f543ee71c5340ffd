#include "world.hpp"
using namespace world;
struct Out { int events = 0; int result = -1; std::string ex; int evals = 0; };
struct Adapt : Adapter { bool thr = false; void stop() { if (thr) throw std::runtime_error("adapter"); } void handle(const SequenceVerificationEvent &e) override { Adapter::handle(e); stop(); } void handle(const NoMoreInvocationsVerificationEvent &e) override { Adapter::handle(e); stop(); } };
struct Handler : EventHandler { int n = 0; void handle(const UnexpectedMethodCallEvent &) override { ++n; } void handle(const SequenceVerificationEvent &) override { ++n; } void handle(const NoMoreInvocationsVerificationEvent &) override { ++n; } };
struct Boom {};
static int boom() { throw Boom(); }
static void take(bool b, int &r) { r = b; }
static int line_;
// use: 0 end of statement, 1 bool variable, 2 operator!, 3 if, 4 bool argument, 5 double negation, 6 abandoned by an exception, 7 end of statement in a catch block, 8 conjunction, 9 a call later in the same full expression
#define USE(PHRASE, LATER) \
    switch (use) { case 0: line_ = __LINE__; PHRASE; break; case 1: { bool b = PHRASE; o.result = b; break; } case 2: o.result = !(!(PHRASE)); break; case 3: if (PHRASE) o.result = 1; else o.result = 0; break; case 4: take(PHRASE, o.result); break; case 5: o.result = !(PHRASE) ? 0 : 1; break; \
        case 6: { int z = ((void)(PHRASE), boom()); (void)z; break; } case 7: try { throw 1; } catch (int) { line_ = __LINE__; PHRASE; } break; case 8: o.result = true && PHRASE; break; default: line_ = __LINE__; ((void)(PHRASE), (void)(LATER)); }
SCENARIO_N(evaluation, 30000, 3) {
    Adapt rec; Handler hd; Fakeit.addEventHandler(hd); Mock<IA> m, other; When(Method(m, f)).AlwaysReturn(1); When(Method(m, g)).AlwaysReturn(2); When(Method(other, f)).AlwaysReturn(3); rec.thr = c.flip(); int n = c.pick(4); bool noise = c.flip(); for (int i = 0; i < n; ++i) m.get().f(1); if (noise) m.get().g(1);
    int use = c.pick(10), kind = c.pick(14), q = c.pick(4); Out o; bool pass = false; int evals = 0; auto pred = [&](int) { ++evals; return true; }; int k = use == 9 ? n + 1 : n; // calls seen by the evaluation
    bool sequence = kind != 9 && kind != 10;
    try {
        switch (kind) {
            case 0: pass = k >= 1; USE(Verify(Method(m, f).Matching(pred)), m.get().f(1)) break;
            case 1: pass = k == 1; USE(Verify(Method(m, f).Matching(pred)).Once(), m.get().f(1)) break;
            case 2: pass = k == 2; USE(Verify(Method(m, f).Matching(pred)).Twice(), m.get().f(1)) break;
            case 3: pass = k == 0; USE(Verify(Method(m, f).Matching(pred)).Never(), m.get().f(1)) break;
            case 4: pass = k == q; USE(Verify(Method(m, f).Matching(pred)).Exactly(q), m.get().f(1)) break;
            case 5: pass = k >= q; USE(Verify(Method(m, f).Matching(pred)).AtLeast(q), m.get().f(1)) break;
            case 6: pass = true; USE(Verify(Method(m, f).Matching(pred)).Any(), m.get().f(1)) break;
            case 7: pass = k >= 1; USE(Verify(Method(m, f).Matching(pred)).AtLeastOnce(), m.get().f(1)) break;
            case 8: pass = k == q; USE(Verify(Method(m, f).Matching(pred)).Exactly(Quantity(q)), m.get().f(1)) break;
            case 9: pass = k == 0 && !noise; USE(VerifyNoOtherInvocations(m), m.get().f(1)) break;
            case 10: pass = k == 0; USE(VerifyNoOtherInvocations(Method(m, f)), m.get().f(1)) break;
            case 11: pass = k >= q; USE(Verify(Method(m, f).Matching(pred)).AtLeast(Quantity(q)), m.get().f(1)) break;
            case 12: pass = k == q; USE(Using(m, other).Verify(Method(m, f).Matching(pred)).Exactly(q), m.get().f(1)) break;
            default: pass = k == q; USE(Unverified.Verify(Method(m, f).Matching(pred)).Exactly(q), m.get().f(1)) break;
        }
        o.ex = "none";
    } catch (Boom &) { o.ex = "boom"; } catch (std::runtime_error &) { o.ex = "adapter"; } catch (...) { o.ex = "other"; }
    c.notef("kind ", kind, " use ", use, " quantity ", q, " calls ", n);
    bool boolean = use >= 1 && use <= 5 || use == 8; bool abandoned = use == 6; int ev = !pass && !boolean && !abandoned ? 1 : 0;
    drv::same(int(rec.evs.size()), ev, "events at the adapter"); drv::same(hd.n, ev, "events at the handler"); drv::same(o.ex, std::string(abandoned ? "boom" : ev && rec.thr ? "adapter" : "none"), "exception"); if (boolean) drv::same(o.result, int(pass), "value");
    if (ev) { drv::same(rec.evs[0].kind, sequence ? 1 : 2, "kind of the event"); drv::same(rec.evs[0].file, std::string(__FILE__), "file"); drv::same(rec.evs[0].line, line_, "line"); drv::same(rec.evs[0].method, std::string(__func__), "function"); }
    if (sequence) { if (abandoned) { drv::same(evals, 0, "predicate evaluations of an abandoned phrase"); } else { // every call of f is offered to the criterion at least once if there is one; a second evaluation would double the count
            int once = evals; evals = 0; Mock<IA> m2; (void)m2; bool again = Verify(Method(m, f).Matching(pred)).AtLeastOnce(); (void)again; drv::same(once, evals, "predicate evaluations of one phrase"); } }
}
SCENARIO_N(marking, 4000, 1) {
    Adapt rec; Mock<IA> m; When(Method(m, f)).AlwaysReturn(1); int n = c.range(1, 3); for (int i = 0; i < n; ++i) m.get().f(1); int use = c.pick(9), q = c.pick(4); Out o; try { USE(Verify(Method(m, f)).Exactly(q), 0) } catch (...) {} bool marked = use != 6 && q == n; bool clean = VerifyNoOtherInvocations(m); drv::same(clean, marked, "calls marked as verified");
}
SCENARIO_N(negative, 200, 0.5) {
    Adapt rec; Handler hd; Fakeit.addEventHandler(hd); Mock<IA> m; When(Method(m, f)).AlwaysReturn(1); if (c.flip()) m.get().f(1); static const int vs[] = {-1, -2, -3, -100, -2147483647 - 1, -2147483647}; int v = vs[c.pick(6)]; int k = c.pick(8); std::string got = "none"; bool bad = true;
    try { switch (k) { case 0: Verify(Method(m, f)).Exactly(v); break; case 1: Verify(Method(m, f)).AtLeast(v); break; case 2: { bool b = Verify(Method(m, f)).Exactly(v); (void)b; break; } case 3: { bool b = Verify(Method(m, f)).AtLeast(v); (void)b; break; } case 4: Verify(Method(m, f)).Exactly(Quantity(v)); break; case 5: Verify(Method(m, f)).AtLeast(Quantity(v)); break; case 6: bad = false; Verify(Method(m, f)).AtLeast(0); break; default: Using(m).Verify(Method(m, f)).AtLeast(v); } } catch (std::invalid_argument &) { got = "invalid"; } catch (...) { got = "other"; }
    drv::same(got, std::string(bad ? "invalid" : "none"), "exception of a negative count"); drv::same(int(rec.evs.size()) + hd.n, 0, "events");
}
static void elsewhere(Mock<IA> &m) { Verify(Method(m, f)).Exactly(77); line_ = __LINE__; }
struct Fn { void operator()(Mock<IA> &m) { line_ = __LINE__ + 2;
        Verify(Method(m, f) + Method(m, g),
               Method(m, f)).AtLeast(77); } };
SCENARIO_N(positions, 50, 0.3) {
    Adapt rec; Mock<IA> m; When(Method(m, f)).AlwaysReturn(1); When(Method(m, g)).AlwaysReturn(1); m.get().f(0); int k = c.pick(6); std::string fn = __func__; switch (k) { case 0: elsewhere(m); fn = "elsewhere"; break; case 1: Fn()(m); fn = "operator()"; break; case 2: [&] { line_ = __LINE__; VerifyNoOtherInvocations(m); }(); fn = "operator()"; break; case 3: line_ = __LINE__; Using(m).Verify(Method(m, f)).Exactly(99); break; case 4: line_ = __LINE__; Unverified.Verify(Method(m, f)).AtLeast(99); break; default: line_ = __LINE__; VerifyNoOtherInvocations(Method(m, f), m); }
    drv::same(rec.evs.size(), size_t(1), "events"); drv::same(rec.evs[0].file, std::string(__FILE__), "file"); if (k != 1) drv::same(rec.evs[0].line, line_, "line"); else CHECK(rec.evs[0].line >= line_ - 2 && rec.evs[0].line <= line_, "line of a phrase over two lines"); drv::same(rec.evs[0].method, fn, "function");
}
// phrases far down a file
static int far_down(Mock<IA> &m, int k);
SCENARIO_N(far_lines, 20, 0.3) {
    Adapt rec; Mock<IA> m; When(Method(m, f)).AlwaysReturn(1); m.get().f(0); int k = c.pick(9); int line = far_down(m, k); drv::same(rec.evs.size(), size_t(1), "events"); drv::same(rec.evs[0].line, line, "line"); drv::same(rec.evs[0].method, std::string("far_down"), "function"); drv::same(rec.evs[0].kind, k % 3 == 2 ? 2 : 1, "kind of the event");
}
DRIVER_MAIN
static int far_down(Mock<IA> &m, int k) {
    switch (k) {
#line 256
    case 0: Verify(Method(m, f)).Never(); return __LINE__;
    case 1: Using(m).Verify(Method(m, f)).Twice(); return __LINE__;
    case 2: VerifyNoOtherInvocations(m); return __LINE__;
#line 65536
    case 3: Verify(Method(m, f)).Never(); return __LINE__;
    case 4: Using(m).Verify(Method(m, f)).Twice(); return __LINE__;
    case 5: VerifyNoOtherInvocations(m); return __LINE__;
#line 20000000
    case 6: Verify(Method(m, f)).Never(); return __LINE__;
    case 7: Using(m).Verify(Method(m, f)).Twice(); return __LINE__;
    default: VerifyNoOtherInvocations(Method(m, f)); return __LINE__;
    }
}
