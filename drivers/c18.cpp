#include "world.hpp"
using namespace world;
// texts written from the description of the default formatter
static std::string atom_text(Atom const &a) {
    std::ostringstream o; o << name_of(a.mid);
    if (a.mid == 3) switch (a.crit) { case 1: o << "(" << a.v << ", Any)"; break; case 2: o << "(Any, Any)"; break; case 3: o << "(Any, >" << a.v + 10 << ")"; break; case 4: o << "( user defined matcher )"; break; case 5: o << "(" << a.v << ", " << a.v + 10 << ")"; break; default: o << "( Any arguments )"; }
    else switch (a.crit) { case 1: case 5: o << "(" << a.v << ")"; break; case 2: o << "(Any)"; break; case 3: o << "(>" << a.v << ")"; break; case 4: o << "( user defined matcher )"; break; default: o << "( Any arguments )"; }
    return o.str();
}
struct Pat { Seq s; std::string text; bool leaf; };
static Pat build(World &w, drv::Choices &c, int depth) {
    int k = depth ? c.pick(3) : 0;
    if (k == 0) { Atom a = World::any_atom(c, NM); Seq s = w.atom(a); return {s, atom_text(a), true}; }
    if (k == 1) { Pat l = build(w, c, depth - 1), r = build(w, c, depth - 1); return {World::plus(l.s, r.s), l.text + " + " + r.text, false}; }
    Pat p = build(w, c, depth - 1); int n = c.range(1, 3); return {World::times(p.s, n, c.flip()), (p.leaf ? p.text : "(" + p.text + ")") + " * " + std::to_string(n), false};
}
static std::string call_text(Call const &k) { std::ostringstream o; o << name_of(k.mid) << "("; if (k.mid == 3) o << k.arg << ", " << k.arg + 10; else if (k.mid != 4) o << k.arg; o << ")"; return o.str(); }
static std::string list_text(std::vector<Call> const &v) { std::string r; size_t n = v.size() < 50 ? v.size() : 50; for (size_t i = 0; i < n; ++i) r += (i ? "\n  " : "  ") + call_text(v[i]); if (v.size() > 50) r += "\n  ..."; return r; }
struct Texts : Adapter { std::vector<std::string> t; void handle(const SequenceVerificationEvent &e) override { Adapter::handle(e); DefaultEventFormatter f; t.push_back(f.format(e)); } void handle(const NoMoreInvocationsVerificationEvent &e) override { Adapter::handle(e); DefaultEventFormatter f; t.push_back(f.format(e)); } };
static void calls(World &w, drv::Choices &c, int n) { for (int i = 0; i < n; ++i) { int mid = c.pick(NM); w.call(c, mid, mid == 4 ? 0 : c.pick(3)); } }
static int size_of(drv::Choices &c, bool big) { static const int s[] = {49, 50, 51, 52, 60, 100, 101, 48}; return big ? s[c.pick(8)] : c.pick(6); }
static std::vector<Call> of_mocks(World &w, std::set<int> const &m) { std::vector<Call> r; for (auto &k : w.calls) if (m.count(mock_of(k.mid))) r.push_back(k); return r; }
static void patterns(drv::Choices &c, bool big) {
    World w; Texts tx; int ns = c.range(1, 3); std::vector<Pat> ps; for (int i = 0; i < ns; ++i) ps.push_back(build(w, c, c.pick(4) ? 2 : 3)); calls(w, c, size_of(c, big)); std::set<int> mocks; std::string pat; for (auto &p : ps) { mocks.insert(p.s.mocks.begin(), p.s.mocks.end()); pat += (pat.empty() ? "" : " ... ") + p.text; }
    bool atleast = c.flip(); int q = 500 + c.pick(3); c.note("verify " + pat);
    if (ns == 1) { if (atleast) Verify(*ps[0].s.s).AtLeast(q); else Verify(*ps[0].s.s).Exactly(q); } else if (ns == 2) { if (atleast) Verify(*ps[0].s.s, *ps[1].s.s).AtLeast(q); else Verify(*ps[0].s.s, *ps[1].s.s).Exactly(q); } else { if (atleast) Verify(*ps[0].s.s, *ps[1].s.s, *ps[2].s.s).AtLeast(q); else Verify(*ps[0].s.s, *ps[1].s.s, *ps[2].s.s).Exactly(q); }
    drv::same(tx.t.size(), size_t(1), "texts"); auto v = of_mocks(w, mocks); std::vector<std::vector<Atom>> flat; std::vector<Seq> ss; for (auto &p : ps) ss.push_back(p.s);
    std::ostringstream o; o << "Verification error\nExpected pattern: " << pat << "\nExpected matches: " << (atleast ? "at least " : "exactly ") << q << "\nActual matches  : " << tx.evs[0].count << "\nActual sequence : total of " << v.size() << " actual invocations" << (v.empty() ? "." : ":\n") << list_text(v);
    drv::same(tx.t[0], o.str(), "text of the failure");
}
SCENARIO_N(pattern_texts, 4000, 2) { patterns(c, false); }
SCENARIO_N(long_histories, 200, 1) { patterns(c, true); }
// the counts shown are those of the verification
SCENARIO_N(counts, 1500, 1) {
    World w; Texts tx; int n = c.range(0, 5), m = 0; for (int i = 0; i < n; ++i) { int a = c.pick(2); w.call(c, 0, a); m += a == 1; } int q = c.pick(7); bool al = c.flip(); bool fails = al ? m < q : m != q; if (al) Verify(Method(w.A1, f).Using(1)).AtLeast(q); else Verify(Method(w.A1, f).Using(1)).Exactly(q); drv::same(tx.t.size(), size_t(fails), "texts"); if (fails) { std::ostringstream o; o << "Verification error\nExpected pattern: w.A1.f(1)\nExpected matches: " << (al ? "at least " : "exactly ") << q << "\nActual matches  : " << m << "\nActual sequence : total of " << n << " actual invocations" << (n ? ":\n" : "."); std::string t = tx.t[0]; CHECK(t.find(o.str()) == 0, "text: ", t, "\nexpected start: ", o.str()); }
}
static void nomore(drv::Choices &c, bool big) {
    World w; Texts tx; calls(w, c, size_of(c, big)); int seen = c.pick(4); if (seen == 1) { Atom a{0, 0, 0}; Seq s = w.atom(a); Verify(*s.s).Any(); for (auto &k : w.calls) if (k.mid == 0) k.verified = true; } if (seen == 2) { Atom a{3, 1, 1}; Seq s = w.atom(a); Verify(*s.s).Any(); for (auto &k : w.calls) if (a.accepts(k)) k.verified = true; } tx.t.clear();
    std::set<int> mocks; int which = c.pick(4); if (which == 0) { VerifyNoOtherInvocations(w.A1); mocks = {0}; } else if (which == 1) { VerifyNoOtherInvocations(w.A1, w.A2, w.B); mocks = {0, 1, 2}; } else if (which == 2) { VerifyNoOtherInvocations(w.B); mocks = {2}; } else { VerifyNoOtherInvocations(w.A2, w.A1); mocks = {0, 1}; }
    std::vector<Call> v; for (auto &k : of_mocks(w, mocks)) if (!k.verified) v.push_back(k); drv::same(tx.t.size(), size_t(!v.empty()), "texts"); if (!v.empty()) drv::same(tx.t[0], "Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n" + list_text(v), "text of the failure");
}
SCENARIO_N(no_more_texts, 3000, 1) { nomore(c, false); }
SCENARIO_N(no_more_long, 200, 1) { nomore(c, true); }
// unexpected calls, arguments of many types
struct Opaque { int x; };
struct IU { virtual void a() = 0; virtual int b(int, std::string, bool) = 0; virtual int d(char, const char *, double, Opaque) = 0; virtual int e(std::string &, const int &, unsigned) = 0; virtual int u(int) = 0; };
SCENARIO_N(unexpected_texts, 2000, 1) {
    Adapter rec; Mock<IU> mk; int k = c.pick(6), i = c.range(-3, 3); static const char *ss[] = {"", "word", "two words"}; static const int len[] = {0, 0, 0, 15, 16, 64, 255, 256, 1024, 5000}; std::string stem(len[c.pick(10)], 'k'), s = stem + ss[c.pick(3)], zs = stem + "lit"; bool b = c.flip(); std::string got; bool used = c.flip(); std::ostringstream w; w << "Unexpected method invocation: "; bool mocked = true; const char *z = c.flip() ? zs.c_str() : nullptr; char ch = "xyz"[c.pick(3)]; static const double ds[] = {0, 1.5, -2.25}; double d = ds[c.pick(3)];
    // a stubbing that does not apply, or one that is used up
    try { switch (k) {
        case 0: { if (used) { When(Method(mk, a)).Return(); mk.get().a(); } else { Method(mk, a); } w << "mk.a()"; mk.get().a(); break; }
        case 1: { if (used) { When(Method(mk, b)).Return(1); mk.get().b(9, "q", true); } else When(Method(mk, b).Using(100, _, _)).Return(1); w << "mk.b(" << i << ", " << s << ", " << (b ? "true" : "false") << ")"; mk.get().b(i, s, b); break; }
        case 2: { When(Method(mk, d).Using('#', _, _, _)).Return(1); w << "mk.d('" << ch << "', " << (z ? "\"" + zs + "\"" : std::string("[nullptr]")) << ", " << d << ", ?)"; mk.get().d(ch, z, d, Opaque{i}); break; }
        case 3: { When(Method(mk, e).Using(_, 100, _)).Return(1); w << "mk.e(" << s << ", " << i << ", " << unsigned(i + 5) << ")"; mk.get().e(s, i, unsigned(i + 5)); break; }
        case 4: { When(Method(mk, u).Using(50)).Return(1); w << "mk.u(" << i << ")"; mk.get().u(i); break; }
        default: mocked = false; w << "unknown()"; if (c.flip()) mk.get().u(i); else mk.get().a(); } } catch (UnexpectedMethodCallException &e) { got = e.what(); }
    w << "\n" << (mocked ? "  Could not find any recorded behavior to support this method call." : "  An unmocked method was invoked. All used virtual methods must be stubbed!"); drv::same(got, w.str(), "text of the unexpected call");
}
DRIVER_MAIN
