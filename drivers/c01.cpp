#include "world.hpp"
using namespace world;

struct IS { virtual int f(int) = 0; virtual int g(int, const std::string &) = 0; virtual void v(int &) = 0; virtual int f(const std::string &) = 0; virtual ~IS() = default; };

struct Stub { int meth; int crit, v; int tag; int left; /* <0: always */ int form; };
static const char *const S3[] = {"", "a", "b"};
static bool accepts(Stub const &s, int a, int b) {
    switch (s.crit) { case 1: return a == s.v; case 3: return a > s.v; case 4: return (a & 1) == (s.v & 1); case 5: return a != s.v; case 6: return s.meth == 1 ? b == s.v : a <= s.v; case 7: return false; default: return true; }
}
struct S {
    Mock<IS> m, other; Adapter rec; std::vector<Stub> stubs; int tags = 100; std::vector<int> ran; size_t history = 0;
    std::vector<std::string> texts;

    template<class Ctx> void record(Ctx &&ctx, Stub &s) {
        int tag = s.tag; auto *r = &ran;
        switch (s.form) {
            case 0: When(ctx).AlwaysReturn(tag); s.left = -1; break;
            case 1: When(ctx).Return(tag); s.left = 1; break;
            case 2: When(ctx).AlwaysDo([tag, r](auto &&...) { r->push_back(tag); return tag; }); s.left = -1; break;
            case 3: When(ctx).Do([tag, r](auto &&...) { r->push_back(tag); return tag; }).Return(tag); s.left = 2; break;
            default: ctx = [tag, r](auto &&...) { r->push_back(tag); return tag; }; s.left = -1; break;
        }
    }
    void recordv(MockingContext<void, int &> ctx, Stub &s) {
        int tag = s.tag; auto *r = &ran; auto act = [tag, r](int &x) { r->push_back(tag); x = tag; };
        switch (s.form) { case 1: When(ctx).Do(act); s.left = 1; break; case 3: When(ctx).Do(act).Do(act); s.left = 2; break; case 4: ctx = act; s.left = -1; break; default: When(ctx).AlwaysDo(act); s.left = -1; }
    }
    void stub(drv::Choices &c) {
        Stub s; s.meth = c.pick(4); s.crit = c.pick(8); s.v = c.pick(3); s.form = c.pick(5); s.tag = tags++; s.left = -1;
        if (s.crit == 6 && s.meth == 3) s.crit = 0;
        if (s.meth == 3 && s.crit == 3) s.crit = 5;
        int v = s.v;
        switch (s.meth) {
            case 0: { auto p = OverloadedMethod(m, f, int(int)); 
                switch (s.crit) { case 1: p.Using(v); break; case 2: p.Using(_); break; case 3: p.Using(Gt(v)); break; case 4: p.Matching([v](int x) { return (x & 1) == (v & 1); }); break; case 5: p.Using(Ne(v)); break; case 6: p.Using(Le(v)); break; case 7: p.Matching([](int) { return false; }); break; default: break; }
                record(p, s); break; }
            case 1: { auto p = Method(m, g);
                switch (s.crit) { case 1: p.Using(v, _); break; case 2: p.Using(_, _); break; case 3: p.Using(Gt(v), _); break; case 4: p.Matching([v](int x, const std::string &) { return (x & 1) == (v & 1); }); break; case 5: p.Using(Ne(v), Any<std::string>()); break; case 6: p.Using(_, std::string(S3[v])); break; case 7: p.Matching([](int, const std::string &) { return false; }); break; default: break; }
                record(p, s); break; }
            case 2: { auto p = Method(m, v);
                switch (s.crit) { case 1: p.Using(v); break; case 2: p.Using(_); break; case 3: p.Using(Gt(v)); break; case 4: p.Matching([v](int &x) { return (x & 1) == (v & 1); }); break; case 5: p.Using(Ne(v)); break; case 6: p.Using(Le(v)); break; case 7: p.Matching([](int &) { return false; }); break; default: break; }
                recordv(p, s); break; }
            default: { auto p = OverloadedMethod(m, f, int(const std::string &));
                switch (s.crit) { case 1: p.Using(std::string(S3[v])); break; case 2: p.Using(_); break; case 4: p.Matching([v](const std::string &x) { return (x == "b" ? 2 : x == "a" ? 1 : 0) % 2 == (v & 1); }); break; case 5: p.Using(Ne(std::string(S3[v]))); break; case 7: p.Matching([](const std::string &) { return false; }); break; default: break; }
                record(p, s); break; }
        }
        static const char *mn[] = {"f(int)", "g", "v", "f(string)"};
        c.notef("stub ", mn[s.meth], " criterion ", s.crit, " value ", s.v, " form ", s.form, " -> ", s.tag, s.left < 0 ? " always" : "");
        stubs.push_back(s);
    }
    bool touched(int meth) { for (auto &s : stubs) if (s.meth == meth) return true; return false; }
    void call(drv::Choices &c) {
        int meth = c.pick(4), a = c.pick(4), b = c.pick(3); if (meth == 3) a %= 3;
        if (!touched(meth)) return;
        // oracle
        Stub *who = nullptr; for (auto &s : stubs) if (s.meth == meth && accepts(s, a, b)) who = &s;
        bool answered = who && who->left != 0;
        std::vector<int> ranBefore = ran; rec.evs.clear();
        int got = -1; bool thrown = false; int ref = a;
        try { switch (meth) { case 0: got = m.get().f(a); break; case 1: got = m.get().g(a, S3[b]); break; case 2: m.get().v(ref); got = ref; break; default: got = m.get().f(std::string(S3[a])); } }
        catch (UnexpectedMethodCallException &) { thrown = true; }
        c.notef("call method ", meth, " (", a, ",", b, ") expects ", answered ? std::to_string(who->tag) : std::string("unexpected"));
        std::unordered_set<Invocation *> h; m.getActualInvocations(h);
        if (answered) {
            CHECK(!thrown, "a call with a matching stubbing is reported as unexpected");
            drv::same(got, who->tag, "answer of the call"); drv::same(rec.evs.size(), size_t(0), "events of an answered call");
            drv::same(h.size(), history + 1, "size of the history"); history = h.size();
            size_t extra = ran.size() - ranBefore.size(); CHECK(extra <= 1, "more than one action ran"); if (extra) drv::same(ran.back(), who->tag, "action that ran");
            if (who->left > 0) --who->left;
        } else {
            CHECK(thrown, "an unexpected call does not throw UnexpectedMethodCallException"); drv::same(rec.evs.size(), size_t(1), "events of an unexpected call");
            CHECK(rec.evs[0].kind == 3 && rec.evs[0].ut == UnexpectedType::Unmatched, "wrong kind of event"); drv::same(ran.size(), ranBefore.size(), "actions run by an unexpected call");
            CHECK(meth != 2 || ref == a, "argument changed by an unexpected call");
            std::string t = rec.evs[0].invtext; std::ostringstream w; switch (meth) { case 0: w << "m.f(" << a << ")"; break; case 1: w << "m.g(" << a << ", " << S3[b] << ")"; break; case 2: w << "m.v(" << a << ")"; break; default: w << "m.f(" << S3[a] << ")"; }
            std::string e = w.str(); std::string f = meth == 0 || meth == 3 ? e : e; (void)f; drv::same(t, e, "the call carried by the event");
            if (!who) drv::same(h.size(), history, "an unmatched call enters the history"); else history = h.size();
        }
        if (who) {}
    }
};
SCENARIO_N(history, 10, 6) { S s; int n = c.range(1, 25); s.stub(c); for (int i = 0; i < n; ++i) { if (c.pick(3) == 0) s.stub(c); else s.call(c); } }
SCENARIO_N(many_stubs, 10, 2) { S s; int n = c.range(2, 12); for (int i = 0; i < n; ++i) s.stub(c); for (int i = 0; i < 12; ++i) s.call(c); }

// all short stubbing lists over two values of one method, all arguments
SCENARIO_N(all_small, 40000, 3) {
    Mock<IA> m; Adapter rec; int n = c.range(1, 4); std::vector<std::pair<int, int>> st;
    for (int i = 0; i < n; ++i) { int k = c.pick(4); st.push_back({k, i});
        if (k == 0) When(Method(m, f)).AlwaysReturn(i); else if (k == 1) When(Method(m, f).Using(0)).AlwaysReturn(i); else if (k == 2) When(Method(m, f).Using(1)).AlwaysReturn(i); else When(Method(m, f).Using(Gt(0))).AlwaysReturn(i); 
        // other methods do not interfere
        When(Method(m, g)).AlwaysReturn(77); }
    size_t hist = 0;
    for (int a = 0; a < 3; ++a) {
        int want = -1; for (auto &s : st) if (s.first == 0 || (s.first == 1 && a == 0) || (s.first == 2 && a == 1) || (s.first == 3 && a > 0)) want = s.second;
        rec.evs.clear(); int got = -1; bool ex = false; try { got = m.get().f(a); } catch (UnexpectedMethodCallException &) { ex = true; }
        drv::same(ex, want < 0, "unexpected call for argument ", a); drv::same(got, want, "answer for argument ", a); drv::same(rec.evs.size(), size_t(want < 0 ? 1 : 0), "events");
        if (want >= 0) ++hist; std::unordered_set<Invocation *> h; m.getActualInvocations(h); drv::same(h.size(), hist, "history size");
        int cnt = 0; bool v = Verify(Method(m, f).Using(a)).Exactly(want >= 0 ? 1 : 0); (void)cnt; CHECK(v, "history after the call with ", a);
    }
}
// more stubbings of one method than anyone writes by hand
SCENARIO_N(long_list, 24, 2) {
    Mock<IA> m; Adapter rec; static const int sizes[] = {33, 65, 130, 300, 700, 1500}; int n = sizes[c.pick(6)]; bool twice = c.flip(); c.note(std::to_string(n) + " stubbings");
    if (c.flip()) When(Method(m, f)).AlwaysReturn(-5); else When(Method(m, f).Using(Lt(0))).AlwaysReturn(-5);
    for (int i = 0; i < n; ++i) When(Method(m, f).Using(i)).AlwaysReturn(i * 3);
    if (twice) for (int i = 0; i < n; i += 7) When(Method(m, f).Using(i)).AlwaysReturn(i * 5);
    for (int i = 0; i < n; ++i) { int got = -1; try { got = m.get().f(i); } catch (UnexpectedMethodCallException &) { got = -2; } drv::same(got, twice && i % 7 == 0 ? i * 5 : i * 3, "answer for argument ", i); }
    drv::same(m.get().f(-1), -5, "answer of the first stubbing");
}
// exception type and propagation with the default adapter
SCENARIO_N(default_adapter, 50, 0.3) {
    Fakeit.resetTestingFrameworkAdapter(); Fakeit.clearEventHandlers(); Recorder r; Fakeit.addEventHandler(r); Mock<IA> m; int k = c.pick(3); When(Method(m, f).Using(k)).AlwaysReturn(9);
    for (int a = 0; a < 3; ++a) { r.evs.clear(); bool ex = false; int got = 0; try { got = m.get().f(a); } catch (UnexpectedMethodCallException &) { ex = true; } drv::same(ex, a != k, "exception for ", a); drv::same(r.evs.size(), size_t(a != k ? 1 : 0), "events"); if (a == k) drv::same(got, 9, "answer"); }
    Fakeit.clearEventHandlers();
}
DRIVER_MAIN
