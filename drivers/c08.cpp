#include "world.hpp"
using namespace world;

struct Val { int n; static int live; Val(int k = 0) : n(k) { ++live; } Val(Val const &o) : n(o.n) { ++live; } Val &operator=(Val const &o) { n = o.n; return *this; } ~Val() { n = -99; --live; } bool operator==(Val const &o) const { return n == o.n; } };
int Val::live = 0;
namespace fakeit { template<> struct Formatter<Val> { static std::string format(Val const &v) { return "v" + std::to_string(v.n); } }; }
struct Big { int a[20]; };
struct Err { int n; }; struct FileFormat {};
struct IC {
    virtual int vals(int, char, long, double, std::string, Val) = 0;
    virtual int refs(int &, const std::string &, Val &, const Val &) = 0;
    virtual int ptrs(int *, const char *, Val *) = 0;
    virtual int ten(int, int, int, int, int, int, int, int, int, int) = 0;
    virtual int mixed(int, int &, int, int &, int *, const int &) = 0;
    virtual int rv(std::string &&, int) = 0;
    virtual int moveonly(std::unique_ptr<int>, int) = 0;
    virtual int big(Big, int, Big) = 0;
    virtual int &rref(int) = 0; virtual std::string rstr(int) = 0; virtual std::unique_ptr<int> rmove(int) = 0; virtual Val rval(int) = 0; virtual const std::string &rcref(int) = 0; virtual void none(int) = 0; virtual Big rbig(int) = 0; virtual double rdbl(double) = 0; virtual int *rptr(int) = 0; virtual bool rbool(int) = 0;
    virtual int vconst(const int, const std::string) const = 0;
    virtual ~IC() = default;
};
static std::string str(drv::Choices &c) { static const char *s[] = {"", "x", "a long string that does not fit the small buffer", "y"}; return s[c.pick(4)]; }
// how the action is given: 0 Do 1 AlwaysDo 2 assignment 3 Do after Return
#define ACTION(m, meth, ...) switch (form) { case 0: When(Method(m, meth)).Do(__VA_ARGS__); break; case 1: When(Method(m, meth)).AlwaysDo(__VA_ARGS__); break; case 2: Method(m, meth) = __VA_ARGS__; break; default: When(Method(m, meth)).Do(__VA_ARGS__).AlwaysDo(__VA_ARGS__); }

SCENARIO_N(by_value, 3000, 2) {
    Mock<IC> m; Adapter rec; int form = c.pick(4); int n = c.range(1, 4); std::vector<std::string> want; int ok = 0;
    int i0; char c0; long l0; double d0; std::string s0; int v0;
    ACTION(m, vals, ([&](int i, char ch, long l, double d, std::string s, Val v) { ok += (i == i0 && ch == c0 && l == l0 && d == d0 && s == s0 && v.n == v0); return i + v.n; }))
    int pred = 0; bool match = c.flip();
    if (match) { if (form == 2) form = 1; When(Method(m, vals).Matching([&](int i, char ch, long l, double d, std::string s, Val v) { pred += (i == i0 && ch == c0 && l == l0 && d == d0 && s == s0 && v.n == v0); return false; })).AlwaysReturn(1); }
    for (int k = 0; k < n; ++k) {
        if (form == 0 && k >= 1) break;
        i0 = c.range(-2, 2); c0 = "az0"[c.pick(3)]; l0 = c.range(-1, 3) * 5000000000L; d0 = c.pick(4) * 0.25; s0 = str(c); v0 = c.pick(5);
        int i = i0; char ch = c0; long l = l0; double d = d0; std::string s = s0; Val v(v0);
        int b = ok, pb = pred; int r = m.get().vals(i, ch, l, d, s, v); drv::same(ok, b + 1, "arguments received by the action, call ", k); drv::same(r, i0 + v0, "result"); if (match) drv::same(pred, pb + 1, "arguments received by the predicate");
        drv::same(v.n, v0, "caller's object"); drv::same(s, s0, "caller's string");
        std::ostringstream o; o << "m.vals(" << i0 << ", '" << c0 << "', " << l0 << ", " << d0 << ", " << s0 << ", v" << v0 << ")"; std::string t1 = o.str(); want.push_back(t1);
        i = 77; ch = '!'; l = 7; d = 9; s = "changed"; v.n = 55;   // later changes of the caller's variables
    }
    Verify(Method(m, vals)).Exactly(1000); drv::same(rec.evs.size(), size_t(1), "events"); auto &a = rec.evs[0].actual; drv::same(a.size(), want.size(), "history size");
    for (size_t k = 0; k < want.size(); ++k) { std::string g = a[k]->format(), w = want[k]; std::string g2, w2; for (char x : g) if (x != '\'') g2 += x; for (char x : w) if (x != '\'') w2 += x; drv::same(g2, w2, "what the history shows of call ", k); }
}
SCENARIO_N(by_reference, 3000, 2) {
    Mock<IC> m; Adapter rec; int form = c.pick(4); int i; std::string s = str(c); Val v(3), w(4); int good = 0, pred = 0;
    ACTION(m, refs, ([&](int &a, const std::string &b, Val &d, const Val &e) { good = (&a == &i) + (&b == &s) + (&d == &v) + (&e == &w); a = 41; d.n = 42; return 7; }))
    bool match = c.flip(); if (match) When(Method(m, refs).Matching([&](int &a, const std::string &b, Val &d, const Val &e) { pred = (&a == &i) + (&b == &s) + (&d == &v) + (&e == &w); return false; })).AlwaysReturn(1);
    i = c.range(0, 9); v.n = c.range(0, 9); int r = m.get().refs(i, s, v, w); drv::same(r, 7, "result"); drv::same(good, 4, "references that are the caller's objects"); drv::same(i, 41, "write through the int reference"); drv::same(v.n, 42, "write through the object reference"); drv::same(w.n, 4, "untouched object"); if (match) drv::same(pred, 4, "references seen by the predicate");
    // the history refers to the caller's objects
    v.n = 77; i = 5; bool b = Verify(Method(m, refs).Matching([&](int &a, const std::string &, Val &d, const Val &) { return &a == &i && a == 5 && d.n == 77; })).Once(); CHECK(b, "the history does not refer to the caller's objects");
}
SCENARIO_N(pointers, 500, 0.5) {
    Mock<IC> m; Adapter rec; int form = c.pick(4); int i = 1; Val v(2); const char *z = c.flip() ? "txt" : nullptr; Val *pv = c.flip() ? &v : nullptr; bool ok = false;
    ACTION(m, ptrs, ([&](int *a, const char *b, Val *d) { ok = a == &i && b == z && d == pv; *a = 9; return 3; }))
    drv::same(m.get().ptrs(&i, z, pv), 3, "result"); CHECK(ok, "pointer arguments"); drv::same(i, 9, "write through the pointer");
}
SCENARIO_N(ten_arguments, 500, 1) {
    Mock<IC> m; Adapter rec; int form = c.pick(4); int a[10]; for (int k = 0; k < 10; ++k) a[k] = c.range(0, 3) + 10 * k; std::vector<int> got, seen;
    ACTION(m, ten, ([&](int p, int q, int r, int s, int t, int u, int v, int w, int x, int y) { got = {p, q, r, s, t, u, v, w, x, y}; return 1; }))
    bool match = c.flip(); if (match) When(Method(m, ten).Matching([&](int p, int q, int r, int s, int t, int u, int v, int w, int x, int y) { seen = {p, q, r, s, t, u, v, w, x, y}; return false; })).AlwaysReturn(5);
    m.get().ten(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); std::vector<int> want(a, a + 10); drv::samev(got, want, "arguments of the action"); if (match) drv::samev(seen, want, "arguments of the predicate");
    bool b = Verify(Method(m, ten).Using(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])).Once(); CHECK(b, "recorded arguments");
    for (int k = 0; k < 10; ++k) { int o[10]; for (int j = 0; j < 10; ++j) o[j] = a[j]; o[k] += 100; bool n = Verify(Method(m, ten).Using(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9])).Never(); CHECK(n, "recorded argument ", k); }
}
SCENARIO_N(mixed, 500, 1) {
    Mock<IC> m; Adapter rec; int form = c.pick(4); int a = 1, b = 2, d = 3, e = 4, f = 5, g = 6; bool same2 = c.flip(); bool ok = false; int &B = b; int &E = same2 ? b : e;
    ACTION(m, mixed, ([&](int p, int &q, int r, int &s, int *t, const int &u) { ok = p == 1 && &q == &B && r == 3 && &s == &E && t == &f && &u == &g; q = 20; s = 40; *t = 50; return 8; }))
    drv::same(m.get().mixed(a, B, d, E, &f, g), 8, "result"); CHECK(ok, "arguments of the action"); drv::same(b, same2 ? 40 : 20, "second"); drv::same(e, same2 ? 4 : 40, "fourth"); drv::same(f, 50, "fifth"); drv::same(a + d + g, 10, "others");
}
SCENARIO_N(rvalues, 300, 0.5) {
    Mock<IC> m; Adapter rec; std::string s = str(c), keep = s, taken; bool take = c.flip(); int k = c.pick(3); const std::string *addr = nullptr; bool forw = c.flip();
    if (forw) When(Method(m, rv)).AlwaysDo([&](std::string &x, int) { addr = &x; if (take) taken = std::move(x); return 4; }); else Method(m, rv) = [&](std::string &x, int) { addr = &x; if (take) taken = std::move(x); return 4; };
    drv::same(m.get().rv(std::move(s), k), 4, "result"); CHECK(addr == &s, "the action sees the caller's object"); if (take) drv::same(taken, keep, "moved value"); else drv::same(s, keep, "untouched value");
}
SCENARIO_N(move_only, 100, 0.5) {
    Mock<IC> m; Adapter rec; int n = c.range(0, 9); std::unique_ptr<int> p(new int(n)); int *raw = p.get(); std::unique_ptr<int> got; int k = 0;
    When(Method(m, moveonly)).Do([&](std::unique_ptr<int> &q, int z) { k = z; if (c.pick(2)) got = std::move(q); else raw = q.get(); return q ? *q : 100; });
    m.get().moveonly(std::move(p), 6); CHECK(!p, "the argument is moved"); drv::same(k, 6, "second argument"); if (got) { CHECK(got.get() == raw && *got == n, "move-only argument"); } else drv::same(*raw, n, "value of the move-only argument");
}
SCENARIO_N(big_values, 100, 0.5) {
    Mock<IC> m; Adapter rec; int form = c.pick(4); Big a, b; for (int i = 0; i < 20; ++i) { a.a[i] = c.pick(3) + i; b.a[i] = 100 + i; } Big a0 = a, b0 = b; bool ok = false; int x = c.pick(5);
    ACTION(m, big, ([&](Big p, int q, Big r) { ok = std::memcmp(&p, &a0, sizeof a0) == 0 && q == x && std::memcmp(&r, &b0, sizeof b0) == 0; return 2; }))
    drv::same(m.get().big(a, x, b), 2, "result"); CHECK(ok, "large arguments"); a.a[3] = -1; bool v = Verify(Method(m, big).Matching([&](Big &p, int q, Big &r) { return std::memcmp(&p, &a0, sizeof a0) == 0 && q == x && std::memcmp(&r, &b0, sizeof b0) == 0; })).Once(); CHECK(v, "recorded large arguments");
}
SCENARIO_N(results, 3000, 2) {
    Mock<IC> m; Adapter rec; int k = c.pick(12), form = c.pick(4), n = c.range(-3, 3); static int cell; static std::string text;
    switch (k) {
        case 0: { ACTION(m, rref, ([&](int) -> int & { return cell; })) int &r = m.get().rref(1); CHECK(&r == &cell, "returned reference"); break; }
        case 1: { std::string s = str(c); ACTION(m, rstr, ([&](int) { return s; })) drv::same(m.get().rstr(1), s, "returned string"); break; }
        case 2: { int *raw = nullptr; When(Method(m, rmove)).Do([&](int x) { std::unique_ptr<int> p(new int(x)); raw = p.get(); return p; }); auto p = m.get().rmove(n); CHECK(p.get() == raw && *p == n, "returned move-only object"); break; }
        case 3: { int l = Val::live; { ACTION(m, rval, ([&](int x) { return Val(x); })) { Val v = m.get().rval(n); drv::same(v.n, n, "returned object"); } drv::same(Val::live, l, "live objects after the call"); } break; }
        case 4: { ACTION(m, rcref, ([&](int) -> const std::string & { return text; })) const std::string &r = m.get().rcref(1); CHECK(&r == &text, "returned const reference"); break; }
        case 5: { int got = 0; ACTION(m, none, ([&](int x) { got = x; })) m.get().none(n); drv::same(got, n, "argument of the void method"); break; }
        case 6: { ACTION(m, rbig, ([&](int x) { Big b; for (int i = 0; i < 20; ++i) b.a[i] = x + i; return b; })) Big b = m.get().rbig(n); for (int i = 0; i < 20; ++i) drv::same(b.a[i], n + i, "element of the returned object"); break; }
        case 7: { ACTION(m, rdbl, ([&](double x) { return x / 2; })) drv::same(m.get().rdbl(n), n / 2.0, "returned double"); break; }
        case 8: { ACTION(m, rptr, ([&](int) { return &cell; })) CHECK(m.get().rptr(1) == &cell, "returned pointer"); break; }
        case 9: { ACTION(m, rbool, ([&](int x) { return x > 0; })) drv::same(m.get().rbool(n), n > 0, "returned bool"); break; }
        case 10: { ACTION(m, rstr, ([&](int x) -> std::string { throw Err{x}; })) int g = 99; try { m.get().rstr(n); } catch (Err &e) { g = e.n; } drv::same(g, n, "exception of the action"); break; }
        default: { ACTION(m, none, ([&](int x) { if (x >= 0) throw std::string("e" + std::to_string(x)); })) std::string g; try { m.get().none(n); } catch (std::string &e) { g = e; } drv::same(g, n >= 0 ? "e" + std::to_string(n) : std::string(), "exception of the void action"); }
    }
}
SCENARIO_N(constants, 100, 0.3) {
    Mock<IC> m; Adapter rec; int a = c.pick(4); std::string s = str(c); bool ok = false; When(Method(m, vconst)).AlwaysDo([&](const int &x, const std::string &y) { ok = x == a && y == s; return 1; }); const IC &o = m.get(); drv::same(o.vconst(a, s), 1, "const method"); CHECK(ok, "arguments of the const method");
    bool b = Verify(Method(m, vconst).Using(a, s)).Once(); CHECK(b, "recorded arguments of the const method");
}
// values stubbed with Return: the copy taken when the stubbing was written
SCENARIO_N(returned_values, 300, 0.5) {
    Mock<IC> m; Adapter rec; std::string s = str(c), k = s; bool always = c.flip(); if (always) When(Method(m, rstr)).AlwaysReturn(s); else When(Method(m, rstr)).Return(s, s); s = "later"; for (int i = 0; i < 2; ++i) drv::same(m.get().rstr(i), k, "returned copy, call ", i);
    int cell2 = 3; When(Method(m, rref)).AlwaysReturn(cell2); CHECK(&m.get().rref(0) == &cell2, "returned reference"); int q = c.pick(3); When(Method(m, none)).AlwaysThrow(Err{q}); int g = -1; try { m.get().none(0); } catch (Err &e) { g = e.n; } drv::same(g, q, "thrown copy");
}
// exceptions of actions reach the caller, also those that a mock inside the action throws, and do not fall through to another stubbing
SCENARIO_N(exceptions, 500, 0.5) {
    Mock<IC> m, in; Adapter rec; int k = c.pick(7), below = 0; bool always = c.flip(), two = c.flip(); std::string got = "none"; When(Method(m, none)).AlwaysDo([&](int) { ++below; }); if (two) When(Method(in, none).Using(77)).AlwaysReturn();
    auto act = [&](int) { switch (k) { case 0: throw Err{4}; case 1: throw std::string("s"); case 2: throw 5; case 3: throw std::bad_alloc(); case 4: in.get().none(1); break; case 5: throw std::runtime_error("r"); default: throw FileFormat{}; } };
    if (always) When(Method(m, none)).AlwaysDo(act); else When(Method(m, none)).Do(act);
    try { m.get().none(3); } catch (Err &e) { got = "Err" + std::to_string(e.n); } catch (std::string &e) { got = e; } catch (int e) { got = std::to_string(e); } catch (std::bad_alloc &) { got = "alloc"; } catch (UnexpectedMethodCallException &) { got = "unexpected"; } catch (std::runtime_error &e) { got = e.what(); } catch (FileFormat &) { got = "own"; }
    static const char *want[] = {"Err4", "s", "5", "alloc", "unexpected", "r", "own"}; drv::same(got, std::string(want[k]), "exception of the action"); drv::same(below, 0, "runs of the stubbing below"); drv::same(rec.evs.size(), size_t(k == 4), "events");
}
DRIVER_MAIN
