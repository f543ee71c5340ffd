// flags: -fsanitize=address
#include "world.hpp"
using namespace world;
// every object is destroyed exactly once: addresses alive are tracked
struct T { static std::set<const T *> &live() { static std::set<const T *> s; return s; } int n;
    T(int k = 0) : n(k) { in(); } T(T const &o) : n(o.n) { o.check(); in(); } T(T &&o) : n(o.n) { in(); } T &operator=(T const &o) { n = o.n; return *this; } ~T() { if (!live().erase(this)) drv_bad() = true; n = -1; }
    void in() { if (!live().insert(this).second) drv_bad() = true; } void check() const { if (!live().count(this)) drv_bad() = true; } static bool &drv_bad() { static bool b; return b; }
    bool operator==(T const &o) const { check(); o.check(); return n == o.n; } };
namespace fakeit { template<> struct Formatter<T> { static std::string format(T const &t) { return "t" + std::to_string(t.n); } }; }
struct Boom {};
static T boomT() { throw Boom(); } static int boomI() { throw Boom(); }
struct IC { virtual int f(int) { return 1; } virtual T v(T) { return T(2); } virtual void r(T &, int) {} virtual int g(int) { return 3; } virtual ~IC() {} };
struct Rig { Adapter rec; IC obj; };
#define ALL_GONE(what) CHECK(!T::drv_bad(), "an object is used or destroyed after its destruction, ", what); drv::same(T::live().size(), size_t(0), "objects alive ", what);
static int outcome(IC &o, int a) { try { return o.f(a); } catch (UnexpectedMethodCallException &) { return -1; } catch (T &t) { return 1000 + t.n; } }

// kinds of completed phrases; each must become exactly one stubbing
struct St { int crit, arg; std::vector<int> vals; size_t used; bool always; };
static void complete(Mock<IC> &m, drv::Choices &c, std::vector<St> &st, int &serial, bool owned) {
    int kind = c.pick(owned ? 9 : 10); St s{c.pick(2), 0, {}, 0, false}; s.arg = s.crit ? c.pick(2) : 0; int a = ++serial, b = ++serial; c.notef("phrase ", kind, " crit ", s.crit, "/", s.arg); T cap(a);
#define CTX (s.crit ? Method(m, f).Using(s.arg) : Method(m, f))
    switch (kind) {
        case 0: When(CTX).Return(a); s.vals = {a}; break; case 1: When(CTX).Return(a).Return(b); s.vals = {a, b}; break; case 2: When(CTX).Return(a, b); s.vals = {a, b}; break; case 3: When(CTX).AlwaysReturn(a); s.vals = {a}; s.always = true; break;
        case 4: When(CTX).Do([cap](int) { cap.check(); return cap.n; }).Throw(T(b)); s.vals = {a, 1000 + b}; break; case 5: When(CTX).AlwaysDo([cap](int) { cap.check(); return cap.n; }); s.vals = {a}; s.always = true; break;
        case 6: CTX = [cap](int) { cap.check(); return cap.n; }; s.vals = {a}; s.always = true; break; case 7: Fake(CTX); s.vals = {0}; s.always = true; break;
        case 8: { T pv(s.arg); s.crit = 2; When(Method(m, f).Matching([pv](int x) { pv.check(); return x == pv.n; })).AlwaysReturn(a); s.vals = {a}; s.always = true; break; }
        default: Spy(CTX); s.vals = {1}; s.always = true; }
    st.push_back(s);
}
static int predict(std::vector<St> &st, int a) { for (auto i = st.rbegin(); i != st.rend(); ++i) if (i->crit == 0 || i->arg == a) { if (i->always) return i->vals[0]; if (i->used < i->vals.size()) return i->vals[i->used++]; return -1; } return -1; }
// phrases left by an exception in the middle
static bool abandon(Mock<IC> &m, drv::Choices &c) {
    int kind = c.pick(9); c.notef("abandoned phrase ", kind); T cap(5); bool caught = false;
    try { switch (kind) {
        case 0: When(Method(m, f)).Return(1).Return(boomI()); break; case 1: When(Method(m, f)).Do([cap](int) { return cap.n; }).Throw(boomT()); break; case 2: When(Method(m, f).Using(boomI())).Return(1); break; case 3: (When(Method(m, f)).Return(7), boomI()); break;
        case 4: When(Method(m, f)).AlwaysReturn(boomI()); break; case 5: When(Method(m, v).Using(T(3))).AlwaysReturn(boomT()); break; case 6: When(Method(m, f).Matching([cap](int) { return true; })).Return(3).Return(boomI()); break; case 7: { auto ctx = Method(m, f).Using(1); auto p = When(ctx); p.Return(4); boomI(); break; } default: When(Method(m, v)).Return(cap, boomT()); } }
    catch (Boom &) { caught = true; } CHECK(caught, "the exception of the phrase was lost"); return kind != 5 && kind != 8;   // whether the phrase named f
}
SCENARIO_N(phrases, 4000, 2) {
    { Rig r; bool owned = c.flip(); std::unique_ptr<Mock<IC>> mp(owned ? new Mock<IC>() : new Mock<IC>(r.obj)); Mock<IC> &m = *mp; std::vector<St> st; int serial = 0; int n = c.range(1, 6); bool bound = false;
        for (int i = 0; i < n; ++i) { int op = c.pick(4); if (op == 0) { if (abandon(m, c)) bound = true; } else if (op <= 2) { complete(m, c, st, serial, owned); bound = true; } else { int k = c.range(1, 3); for (int j = 0; j < k; ++j) { int a = c.pick(3); if (!bound && !owned) { drv::same(outcome(m.get(), a), 1, "original"); continue; } drv::same(outcome(m.get(), a), predict(st, a), "call f(", a, ")"); } } }
        { Method(m, f); } for (int a = 0; a < 3; ++a) for (int j = 0; j < 3; ++j) drv::same(outcome(m.get(), a), predict(st, a), "final call f(", a, ")"); }
    ALL_GONE("after the mock")
}
// the stubbing is there when the statement is complete, not before
SCENARIO_N(moment, 300, 0.5) {
    { Rig r; Mock<IC> m; int k = c.pick(4), before = 0; if (c.flip()) { When(Method(m, f)).AlwaysReturn(50); before = 50; } else before = -1; int in = -2;
        switch (k) { case 0: (void)(When(Method(m, f)).Return(5), in = outcome(m.get(), 1)); break; case 1: { auto ctx = Method(m, f); auto p = When(ctx); p.Return(5); in = outcome(m.get(), 1); break; } case 2: (void)(When(Method(m, f)).Return(5).Return(6), in = outcome(m.get(), 1)); break; default: { auto ctx = Method(m, f); { auto p = When(ctx); auto q = p; q.Return(5); in = outcome(m.get(), 1); } } }
        drv::same(in, before, "call inside the statement"); drv::same(outcome(m.get(), 1), 5, "first call after the statement"); drv::same(outcome(m.get(), 1), k == 2 ? 6 : -1, "second call"); if (k == 2) drv::same(outcome(m.get(), 1), -1, "third call"); }
    ALL_GONE("after the mock")
}
// several methods in one Fake or Spy phrase
SCENARIO_N(lists, 300, 0.5) {
    { Rig r; Mock<IC> m, w; Mock<IC> s(r.obj); int k = c.pick(3); if (k == 0) { Fake(Method(m, f), Method(m, g), Method(w, f)); drv::same(outcome(m.get(), 1), 0, "f"); drv::same(m.get().g(1), 0, "g"); drv::same(outcome(w.get(), 1), 0, "w.f"); int x = 0; try { w.get().g(1); } catch (UnexpectedMethodCallException &) { x = 1; } drv::same(x, 1, "w.g is not stubbed"); } else if (k == 1) { Spy(Method(s, f), Method(s, v)); drv::same(outcome(s.get(), 1), 1, "f"); drv::same(s.get().v(T(1)).n, 2, "v"); drv::same(s.get().g(1), 3, "g"); bool b = Verify(Method(s, f)).Once(); CHECK(b, "f recorded"); } else { Fake(Method(m, f)); When(Method(m, f)).Return(8); Fake(Method(m, g)); drv::same(outcome(m.get(), 0), 8, "newest"); drv::same(outcome(m.get(), 0), -1, "used up"); } }
    ALL_GONE("after the mock")
}
// life of arguments, actions, matchers and invocations
SCENARIO_N(lifetimes, 4000, 2) {
    { Rig r; std::unique_ptr<Mock<IC>> m(new Mock<IC>()); int n = c.range(1, 7); T out(9); T::live().size();
        for (int i = 0; i < n; ++i) { int op = c.pick(13); c.notef("op ", op); Mock<IC> &k = *m; try { switch (op) {
            case 0: When(Method(k, v)).AlwaysReturn(T(i)); break; case 1: { T e(c.pick(2)); When(Method(k, v).Using(e)).Return(T(1), T(2)); break; } case 2: { T cap(3); When(Method(k, v)).AlwaysDo([cap](T &x) { cap.check(); x.check(); return x; }); break; } case 3: { T p(1); When(Method(k, v).Matching([p](T &x) { p.check(); x.check(); return x == p; })).AlwaysReturn(T(8)); break; }
            case 4: case 5: k.get().v(T(c.pick(3))); break; case 6: k.get().r(out, 1); break; case 7: { T p(1); Method(k, r) = [p](T &, int) { p.check(); }; break; } case 8: k.Reset(); break; case 9: k.ClearInvocationHistory(); break;
            case 10: { T e(c.pick(2)); bool b = Verify(Method(k, v).Using(e)).AtLeastOnce(); (void)b; break; } case 11: { T e(1); Verify(Method(k, v).Using(e) * 2 + Method(k, v)).Any(); VerifyNoOtherInvocations(k); break; } default: When(Method(k, v)).Throw(T(4)); } } catch (UnexpectedMethodCallException &) {} catch (T &t) { t.check(); }
            CHECK(!T::drv_bad(), "an object is used or destroyed after its destruction"); }
        // destruction counts: history objects live exactly as long as the history
        std::unordered_set<Invocation *> h; m->getActualInvocations(h); m.reset(); drv::same(T::live().size(), size_t(1), "objects alive after the mock"); }
    ALL_GONE("at the end")
}
// every recorded by-value argument lives until the history is cleared, reset or the mock ends, then it is destroyed
SCENARIO_N(history_objects, 800, 1) {
    { Rig r; std::unique_ptr<Mock<IC>> m(new Mock<IC>()); { Mock<IC> &k = *m; When(Method(k, v)).AlwaysReturn(T(1)); } size_t base = T::live().size(); int n = c.range(0, 5); for (int i = 0; i < n; ++i) m->get().v(T(i)); drv::same(T::live().size(), base + n, "objects alive after ", n, " calls"); int bad = c.range(0, 2); { Mock<IC> &k = *m; for (int i = 0; i < bad; ++i) { int before = int(T::live().size()); Mock<IC> z; { Method(z, v); } try { z.get().v(T(1)); } catch (UnexpectedMethodCallException &) {} drv::same(int(T::live().size()), before, "objects kept for an unexpected call"); } (void)k; }
        int how = c.pick(3); if (how == 0) { m->ClearInvocationHistory(); drv::same(T::live().size(), base, "objects alive after ClearInvocationHistory"); } else if (how == 1) { m->Reset(); drv::same(T::live().size(), size_t(0), "objects alive after Reset"); } m.reset(); }
    ALL_GONE("at the end")
}
// an abandoned phrase leaves nothing behind
SCENARIO_N(abandoned, 500, 1) {
    { Rig r; Mock<IC> m; int n = c.range(1, 3); for (int i = 0; i < n; ++i) { size_t b = T::live().size(); abandon(m, c); drv::same(T::live().size(), b, "objects kept by an abandoned phrase"); drv::same(outcome(m.get(), 1), -1, "call after an abandoned phrase"); } }
    ALL_GONE("at the end")
}
DRIVER_MAIN
