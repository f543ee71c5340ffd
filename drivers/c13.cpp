#include "world.hpp"
using namespace world;
struct Log { std::vector<std::string> v; };
static std::string tail(std::string s) { size_t p = s.rfind('.'); return p == std::string::npos ? s : s.substr(p + 1); }   // without the spelling of the mock
static std::string key(const UnexpectedMethodCallEvent &e) { return std::string("U") + (e.getUnexpectedType() == UnexpectedType::Unmocked ? "k" : "t") + tail(e.getInvocation().format()); }
static std::string key(const SequenceVerificationEvent &e) { std::ostringstream o; o << "S" << int(e.verificationType()) << "/" << e.expectedPattern().size() << "/" << e.actualSequence().size() << "/" << e.expectedCount() << "/" << e.actualCount() << "/" << e.line() << "/" << e.file() << "/" << e.callingMethod(); return o.str(); }
static std::string key(const NoMoreInvocationsVerificationEvent &e) { std::ostringstream o; o << "N" << e.allIvocations().size() << "/" << e.unverifedIvocations().size() << "/" << e.line() << "/" << e.file() << "/" << e.callingMethod(); return o.str(); }
struct H : EventHandler { Log *log; int id; template<class E> void put(const E &e) { log->v.push_back("h" + std::to_string(id) + ":" + key(e)); }
    void handle(const UnexpectedMethodCallEvent &e) override { put(e); } void handle(const SequenceVerificationEvent &e) override { put(e); } void handle(const NoMoreInvocationsVerificationEvent &e) override { put(e); } };
struct Stop { int id; };
struct A : H { bool throws = false; template<class E> void go(const E &e) { log->v.push_back("a" + std::to_string(id) + ":" + key(e)); if (throws) throw Stop{id}; }
    void handle(const UnexpectedMethodCallEvent &e) override { go(e); } void handle(const SequenceVerificationEvent &e) override { go(e); } void handle(const NoMoreInvocationsVerificationEvent &e) override { go(e); } };
struct F : EventFormatter { int id; std::string format(const UnexpectedMethodCallEvent &e) override { return "F" + std::to_string(id) + key(e); } std::string format(const SequenceVerificationEvent &e) override { return "F" + std::to_string(id) + key(e); } std::string format(const NoMoreInvocationsVerificationEvent &e) override { return "F" + std::to_string(id) + key(e); } };
struct Clean { Clean() { go(); } ~Clean() { go(); } static void go() { Fakeit.clearEventHandlers(); Fakeit.resetTestingFrameworkAdapter(); Fakeit.resetCustomEventFormatter(); } };

// one event of each kind, produced through a mock
struct Src { Mock<IA> m, un; Src() { When(Method(m, f).Using(1)).AlwaysReturn(1); When(Method(m, h)).AlwaysReturn(); } };
struct Out { std::string ex, what, file, fn; int line = 0; };
static int lineno;
static Out produce(Src &s, int kind) {
    Out o; try {
        switch (kind) {
            case 0: s.m.get().f(2); break;                                            // unmatched
            case 1: s.un.get().f(1); break;                                           // unmocked
            case 2: lineno = __LINE__; Verify(Method(s.m, h)).Exactly(999); break;
            case 3: lineno = __LINE__; Verify(Method(s.m, f), Method(s.m, h)).AtLeast(998); break;
            case 4: lineno = __LINE__; VerifyNoOtherInvocations(s.m); break;
            default: { Src t; When(Method(t.m, g)).Return(1); t.m.get().g(1); t.m.get().g(1); } // used up
        }
        o.ex = "none";
    } catch (Stop &e) { o.ex = "stop" + std::to_string(e.id); }
    catch (UnexpectedMethodCallException &e) { o.ex = "unexpected"; o.what = e.what(); }
    catch (SequenceVerificationException &e) { o.ex = "sequence"; o.what = e.what(); o.file = e.file(); o.line = e.line(); o.fn = e.callingMethod(); }
    catch (NoMoreInvocationsVerificationException &e) { o.ex = "nomore"; o.what = e.what(); o.file = e.file(); o.line = e.line(); o.fn = e.callingMethod(); }
    return o;
}
// the key of the event itself, recorded with a plain adapter
static std::string probe_key(int kind, int calls) { Src s; for (int i = 0; i < calls; ++i) s.m.get().h(); Log l; A a; a.log = &l; a.id = 0; Fakeit.setTestingFrameworkAdapter(a); produce(s, kind); Fakeit.resetTestingFrameworkAdapter(); CHECK(l.v.size() == 1, "events of one cause: ", l.v.size()); return l.v[0].substr(3); }
static std::string default_text(int kind, int calls, std::string &ev) {    // the text of the default formatter, obtained without custom formatter and adapter
    Src s; for (int i = 0; i < calls; ++i) s.m.get().h(); Clean::go(); Out o = produce(s, kind); return o.what;
}
SCENARIO_N(delivery, 4000, 2) {
    Clean cl; Log log; H h[4]; A a[2]; F f[2]; for (int i = 0; i < 4; ++i) { h[i].log = &log; h[i].id = i; } for (int i = 0; i < 2; ++i) { a[i].log = &log; a[i].id = i; f[i].id = i; } std::vector<int> reg; int ad = -1, fm = -1; int n = c.range(1, 8); Src s; int calls = c.range(0, 3); for (int i = 0; i < calls; ++i) s.m.get().h();
    std::string keys[6]; for (int k = 0; k < 6; ++k) if (k != 4 || calls) keys[k] = probe_key(k, calls);
    for (int i = 0; i < n; ++i) {
        int op = c.pick(9);
        switch (op) {
            case 0: { int k = c.pick(4); c.notef("add handler ", k); Fakeit.addEventHandler(h[k]); reg.push_back(k); break; }
            case 1: c.note("clear handlers"); Fakeit.clearEventHandlers(); reg.clear(); break;
            case 2: { ad = c.pick(2); a[ad].throws = c.flip(); c.notef("adapter ", ad, " throws ", a[ad].throws); Fakeit.setTestingFrameworkAdapter(a[ad]); break; }
            case 3: c.note("reset adapter"); Fakeit.resetTestingFrameworkAdapter(); ad = -1; break;
            case 4: fm = c.pick(2); c.notef("formatter ", fm); Fakeit.setCustomEventFormatter(f[fm]); break;
            case 5: c.note("reset formatter"); Fakeit.resetCustomEventFormatter(); fm = -1; break;
            default: {
                int kind = c.pick(6); if (kind == 4 && !calls) kind = 0; c.notef("event ", kind); log.v.clear(); Out o = produce(s, kind); std::string k = keys[kind];
                std::vector<std::string> want; for (int r : reg) want.push_back("h" + std::to_string(r) + ":" + k); if (ad >= 0) want.push_back("a" + std::to_string(ad) + ":" + k);
                drv::samev(log.v, want, "deliveries of event ", kind);
                bool unexpected = kind == 0 || kind == 1 || kind == 5; bool th = ad >= 0 && a[ad].throws; std::string ex = th ? "stop" + std::to_string(ad) : unexpected ? "unexpected" : ad >= 0 ? "none" : kind == 4 ? "nomore" : "sequence"; drv::same(o.ex, ex, "exception of event ", kind);
                if (o.ex == "unexpected") { if (fm >= 0) drv::same(o.what, "F" + std::to_string(fm) + k, "custom text"); else CHECK(o.what.find("Unexpected method invocation: ") == 0, "default text: ", o.what); }
                if (o.ex == "sequence" || o.ex == "nomore") { std::string pre = std::string(__FILE__) + ":" + std::to_string(lineno) + ": "; CHECK(o.what.find(pre) == 0, "position in the text: ", o.what); std::string t = o.what.substr(pre.size()); if (fm >= 0) drv::same(t, "F" + std::to_string(fm) + k, "custom text"); else CHECK(t.find("Verification error\n") == 0, "default text: ", t); drv::same(o.file, std::string(__FILE__), "file"); drv::same(o.line, lineno, "line"); drv::same(o.fn, std::string("produce"), "function"); }
                break; }
        }
    }
}
// the same with many handlers, each event kind
SCENARIO_N(many_handlers, 600, 1) {
    Clean cl; Log log; std::vector<std::unique_ptr<H>> hs; int n = c.range(0, 20); Src s; s.m.get().h(); std::string k[6]; for (int i = 0; i < 6; ++i) k[i] = probe_key(i, 1);
    for (int i = 0; i < n; ++i) { hs.emplace_back(new H); hs[i]->log = &log; hs[i]->id = i; Fakeit.addEventHandler(*hs[i]); } int dup = c.pick(3); for (int i = 0; i < dup && n; ++i) Fakeit.addEventHandler(*hs[0]);
    int kind = c.pick(6); produce(s, kind); std::vector<std::string> want; for (int i = 0; i < n; ++i) want.push_back("h" + std::to_string(i) + ":" + k[kind]); for (int i = 0; i < dup && n; ++i) want.push_back("h0:" + k[kind]); drv::samev(log.v, want, "deliveries"); log.v.clear(); Fakeit.clearEventHandlers(); int k2 = c.pick(6); produce(s, k2); drv::same(log.v.size(), size_t(0), "handlers called after clearEventHandlers"); A a; a.log = &log; a.id = 1; Fakeit.setTestingFrameworkAdapter(a); produce(s, k2); drv::samev(log.v, std::vector<std::string>{"a1:" + k[k2]}, "adapter after clearEventHandlers");
}
// no event without a failure
SCENARIO_N(quiet, 300, 0.5) {
    Clean cl; Log log; H h; h.log = &log; h.id = 0; A a; a.log = &log; a.id = 0; Fakeit.addEventHandler(h); if (c.flip()) Fakeit.setTestingFrameworkAdapter(a); Src s; int n = c.range(0, 3); for (int i = 0; i < n; ++i) { s.m.get().f(1); s.m.get().h(); } Verify(Method(s.m, f)).Exactly(n); Verify(Method(s.m, f) + Method(s.m, h)).Exactly(n); VerifyNoOtherInvocations(s.m); VerifyNoOtherInvocations(s.un); bool b = Verify(Method(s.m, f)).Exactly(n + 1); CHECK(!b, "result"); drv::same(log.v.size(), size_t(0), "events without a failure");
}
DRIVER_MAIN
