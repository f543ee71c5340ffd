#include "world.hpp"
#include <limits>
#include <cmath>
using namespace world;

enum class Color { Red, Green, Blue };
struct Num { int n; int m; };
static int cmps = 0;
static bool operator==(Num const &a, Num const &b) { ++cmps; return a.n == b.n; }
static bool operator!=(Num const &a, Num const &b) { return a.n / 2 != b.n / 2; }     // deliberately not the negation of ==
static bool operator>(Num const &a, Num const &b) { return a.n > b.n + 1; }
static bool operator>=(Num const &a, Num const &b) { return a.n >= b.n + 1; }
static bool operator<(Num const &a, Num const &b) { return a.n < b.n - 1; }
static bool operator<=(Num const &a, Num const &b) { return a.n <= b.n - 1; }

struct IM {
    virtual int i(int) = 0; virtual int u(unsigned) = 0; virtual int ll(long long) = 0; virtual int d(double) = 0; virtual int f(float) = 0; virtual int s(const std::string &) = 0; virtual int sv(std::string) = 0; virtual int z(const char *) = 0;
    virtual int ch(char) = 0; virtual int bo(bool) = 0; virtual int e(Color) = 0; virtual int p(int *) = 0; virtual int n(const Num &) = 0; virtual int r(int &) = 0; virtual int zc(char *) = 0; virtual int rr(std::string &&) = 0; virtual int sc(signed char) = 0;
    virtual int four(int, int, int, int) = 0; virtual int mix(int, const std::string &, double, const char *) = 0; virtual int six(int, int, int, int, int, int) = 0; virtual ~IM() = default;
};
// does the phrase accept the call?  asked in both uses: as a stubbing and in a verification
template<class MkCtx, class Call> static void accepts(bool want, Mock<IM> &m, Adapter &rec, MkCtx mk, Call call, const std::string &what) {
    { auto ctx = mk(); Fake(ctx); }
    bool got = true; try { call(); } catch (UnexpectedMethodCallException &) { got = false; }
    drv::same(got, want, "as a stubbing: ", what);
    drv::same(rec.evs.size(), size_t(want ? 0 : 1), "events: ", what);
}
template<class MkCtx, class FakeAll, class Call> static void verifies(bool want, MkCtx mk, FakeAll all, Call call, const std::string &what) {
    all(); call(); { auto ctx = mk(); bool one = Verify(ctx).Exactly(1); drv::same(one, want, "in a verification: ", what); }
}
// OPS: 0 Eq 1 Ne 2 Gt 3 Ge 4 Lt 5 Le 6 value itself 7 _ 8 Any() 9 Any<T>()
#define APPLY(ctx, op, x, T) switch (op) { case 0: ctx.Using(Eq(x)); break; case 1: ctx.Using(Ne(x)); break; case 2: ctx.Using(Gt(x)); break; case 3: ctx.Using(Ge(x)); break; case 4: ctx.Using(Lt(x)); break; case 5: ctx.Using(Le(x)); break; case 6: ctx.Using(x); break; case 7: ctx.Using(_); break; case 8: ctx.Using(fakeit::Any()); break; default: ctx.Using(fakeit::Any<T>()); }
template<class A, class B> static bool truth(int op, A const &a, B const &x) { switch (op) { case 0: case 6: return a == x; case 1: return a != x; case 2: return a > x; case 3: return a >= x; case 4: return a < x; case 5: return a <= x; default: return true; } }
static const char *opn[] = {"Eq", "Ne", "Gt", "Ge", "Lt", "Le", "value", "_", "Any()", "Any<T>()"};

template<class T> struct Show { static std::string str(T const &t) { std::ostringstream o; o << t; return o.str(); } };
template<> struct Show<Color> { static std::string str(Color c) { return std::to_string(int(c)); } };
template<> struct Show<Num> { static std::string str(Num const &c) { return std::to_string(c.n); } };
namespace fakeit { template<> struct Formatter<Num> { static std::string format(Num const &n) { return std::to_string(n.n); } }; template<> struct Formatter<Color> { static std::string format(Color const &n) { return std::to_string(int(n)); } }; }

// EXPR: the call; the expected value is changed after the phrase was written
#define CASE(meth, T, X, actual, expected, CALL) { \
    T a = actual; X x0 = expected; bool want = truth(op, a, x0); \
    std::string what = std::string(#meth) + " " + opn[op] + "(" + Show<X>::str(x0) + ") against " + Show<T>::str(a); c.note(what); \
    { Mock<IM> m; Adapter rec; accepts(want, m, rec, [&]() { X x = x0; auto ctx = Method(m, meth); APPLY(ctx, op, x, T); x = (X)(other); return ctx; }, [&]() { CALL; }, what); } \
    { Mock<IM> m; Adapter rec; verifies(want, [&]() { X x = x0; auto ctx = Method(m, meth); APPLY(ctx, op, x, T); x = (X)(other); return ctx; }, [&]() { Fake(Method(m, meth)); }, [&]() { CALL; }, what); } }

template<class T> static T edge(drv::Choices &c) { static const T v[] = {0, 1, T(-1), 2, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::max() - 1)}; return v[c.pick(7)]; }
static double dbl(drv::Choices &c) { static const double v[] = {0.0, -0.0, 1.0, 1.5, -1.0, 1e-300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 0.1}; return v[c.pick(10)]; }
static const char *const STR[] = {"", "a", "b", "ab", "A", "a\xff", "aa", "abc"};

SCENARIO_N(ints, 20000, 2) { int op = c.pick(10); int A = edge<int>(c), X = edge<int>(c); int other = 12345; CASE(i, int, int, A, X, m.get().i(A)) }
SCENARIO_N(unsigneds, 5000, 1) { int op = c.pick(10); unsigned A = edge<unsigned>(c), X = edge<unsigned>(c); unsigned other = 12345; CASE(u, unsigned, unsigned, A, X, m.get().u(A)) }
SCENARIO_N(mixed_width, 5000, 1) { int op = c.pick(10); long long A = edge<long long>(c); int X = edge<int>(c); int other = 5; CASE(ll, long long, int, A, X, m.get().ll(A)) }
SCENARIO_N(wide_expected, 5000, 1) { int op = c.pick(10); static const long long xs[] = {0, 1, -1, 4294967296LL, 4294967297LL, 2147483647LL, -4294967296LL}; int A = edge<int>(c); long long X = xs[c.pick(7)]; long long other = 5; CASE(i, int, long long, A, X, m.get().i(A)) }
SCENARIO_N(doubles, 5000, 1) { int op = c.pick(10); double A = dbl(c), X = dbl(c); double other = 3.25; CASE(d, double, double, A, X, m.get().d(A)) }
SCENARIO_N(double_vs_int, 2000, 0.5) { int op = c.pick(10); double A = dbl(c); int X = c.pick(3); int other = 7; CASE(d, double, int, A, X, m.get().d(A)) }
SCENARIO_N(int_vs_double, 2000, 0.5) { int op = c.pick(10); int A = c.pick(4); static const double xs[] = {0, 0.5, 1, 1.5, 2, 2.5}; double X = xs[c.pick(6)]; double other = 7; CASE(i, int, double, A, X, m.get().i(A)) }
SCENARIO_N(strings, 5000, 1) { int op = c.pick(10); std::string A = STR[c.pick(8)], X = STR[c.pick(8)]; std::string other = "zzz"; if (c.flip()) { CASE(s, std::string, std::string, A, X, m.get().s(A)) } else CASE(sv, std::string, std::string, A, X, m.get().sv(A)) }
SCENARIO_N(string_moved, 2000, 0.5) { int op = c.pick(10); std::string A = STR[c.pick(8)], X = STR[c.pick(8)]; bool want = truth(op, A, X); std::string t(A); Mock<IM> m; Adapter rec; accepts(want, m, rec, [&]() { std::string x = X; auto ctx = Method(m, rr); APPLY(ctx, op, x, std::string); x = "zzz"; return ctx; }, [&]() { m.get().rr(std::move(t)); }, std::string("rvalue reference ") + opn[op] + "(" + X + ") against " + A); }
SCENARIO_N(chars, 2000, 0.3) { int op = c.pick(10); static const char cs[] = {0, 'a', 'b', char(127), char(-1), char(-128)}; char A = cs[c.pick(6)], X = cs[c.pick(6)]; char other = 'q'; if (c.flip()) { CASE(ch, char, char, A, X, m.get().ch(A)) } else { CASE(sc, signed char, signed char, A, X, m.get().sc(A)) } }
SCENARIO_N(bools, 100, 0.2) { int op = c.pick(10); bool A = c.flip(), X = c.flip(); bool other = !X; CASE(bo, bool, bool, A, X, m.get().bo(A)) }
SCENARIO_N(enums, 200, 0.2) { int op = c.pick(10); Color A = Color(c.pick(3)), X = Color(c.pick(3)); Color other = Color((int(X) + 1) % 3); CASE(e, Color, Color, A, X, m.get().e(A)) }
SCENARIO_N(pointers, 200, 0.2) { int op = c.pick(10); static int arr[4]; int *A = c.pick(2) ? &arr[c.pick(3)] : nullptr, *X = c.pick(2) ? &arr[c.pick(3)] : nullptr; int *other = &arr[3]; 
    int *a = A; int *x0 = X; bool want = truth(op, a, x0); std::string what = std::string("pointer ") + opn[op];
    { Mock<IM> m; Adapter rec; accepts(want, m, rec, [&]() { int *x = x0; auto ctx = Method(m, p); APPLY(ctx, op, x, int *); x = other; return ctx; }, [&]() { m.get().p(A); }, what); } }
SCENARIO_N(user_type, 1000, 0.5) { int op = c.pick(10); Num A{c.pick(6), 1}, X{c.pick(6), 2}; Num other{99, 0}; CASE(n, Num, Num, A, X, m.get().n(A)) }
SCENARIO_N(references, 1000, 0.3) { int op = c.pick(10); int A = c.pick(4), X = c.pick(4); int other = 50; CASE(r, int, int, A, X, int t = A; m.get().r(t)) }
SCENARIO_N(temporaries, 2000, 0.5) { int op = c.pick(6); int A = edge<int>(c), X = edge<int>(c); bool want = truth(op, A, X); Mock<IM> m; Adapter rec;
    accepts(want, m, rec, [&]() { auto ctx = Method(m, i); switch (op) { case 0: ctx.Using(Eq(int(X))); break; case 1: ctx.Using(Ne(int(X))); break; case 2: ctx.Using(Gt(int(X))); break; case 3: ctx.Using(Ge(int(X))); break; case 4: ctx.Using(Lt(int(X))); break; default: ctx.Using(Le(int(X))); } return ctx; }, [&]() { m.get().i(A); }, "temporary expected value"); }

// a common start of some length, so that the last characters decide
static std::string stem(drv::Choices &c) { static const int n[] = {0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096}; return std::string(n[c.pick(19)], 'k'); }
SCENARIO_N(long_strings, 20000, 1) { int op = c.pick(10); std::string p = stem(c), A = p + STR[c.pick(8)], X = p + STR[c.pick(8)]; std::string other = "zzz"; CASE(s, std::string, std::string, A, X, m.get().s(A)) }
SCENARIO_N(c_strings, 20000, 3) {
    int op = c.pick(6); std::string p = c.flip() ? stem(c) : std::string(), A = p + STR[c.pick(8)], X = p + STR[c.pick(8)]; int r = std::strcmp(A.c_str(), X.c_str()); bool want = op == 0 ? r == 0 : op == 1 ? r != 0 : op == 2 ? r > 0 : op == 3 ? r >= 0 : op == 4 ? r < 0 : r <= 0; bool lv = c.flip(), nonconst = c.flip();
    std::string what = std::string("Str") + opn[op] + "(" + X + ") against \"" + A + "\""; c.note(what);
    std::vector<char> buf(A.begin(), A.end()); buf.push_back(0);
#define SAPPLY(E) switch (op) { case 0: ctx.Using(StrEq(E)); break; case 1: ctx.Using(StrNe(E)); break; case 2: ctx.Using(StrGt(E)); break; case 3: ctx.Using(StrGe(E)); break; case 4: ctx.Using(StrLt(E)); break; default: ctx.Using(StrLe(E)); }
    if (nonconst) { Mock<IM> m; Adapter rec; accepts(want, m, rec, [&]() { std::string x = X; auto ctx = Method(m, zc); if (lv) { SAPPLY(x) } else { SAPPLY(std::string(X)) } x = "changed"; return ctx; }, [&]() { m.get().zc(buf.data()); }, what); }
    else { Mock<IM> m; Adapter rec; accepts(want, m, rec, [&]() { std::string x = X; auto ctx = Method(m, z); if (lv) { SAPPLY(x) } else { SAPPLY(X.c_str()) } x = "changed"; return ctx; }, [&]() { m.get().z(buf.data()); }, what); }
    Mock<IM> m; Adapter rec; verifies(want, [&]() { std::string x = X; auto ctx = Method(m, z); SAPPLY(x) x = "q"; return ctx; }, [&]() { Fake(Method(m, z)); }, [&]() { m.get().z(buf.data()); }, what);
}
SCENARIO_N(approx, 5000, 2) {
    static const double as[] = {0, 1, 1.25, 1.5, 1.75, 2, -1.5, 100, std::numeric_limits<double>::quiet_NaN()}, xs[] = {0, 1.5, -1.5, 100, 1e9}, ms[] = {0, 0.25, 0.5, 3, 1e9, 0.24999, -1}; double A = as[c.pick(9)], X = xs[c.pick(5)], M = ms[c.pick(7)]; bool want = std::fabs(A - X) <= M; bool lv = c.flip();
    std::ostringstream o; o << "ApproxEq(" << X << "," << M << ") against " << A; c.note(o.str());
    { Mock<IM> m; Adapter rec; accepts(want, m, rec, [&]() { double x = X, g = M; auto ctx = Method(m, d); if (lv) ctx.Using(ApproxEq(x, g)); else ctx.Using(ApproxEq(double(X), double(M))); x = 77; g = 1e6; return ctx; }, [&]() { m.get().d(A); }, o.str()); }
    { Mock<IM> m; Adapter rec; verifies(want, [&]() { double x = X, g = M; auto ctx = Method(m, d); ctx.Using(ApproxEq(x, g)); x = 77; g = 1e6; return ctx; }, [&]() { Fake(Method(m, d)); }, [&]() { m.get().d(A); }, o.str()); }
    int ia = c.pick(6), ix = c.pick(6), im = c.pick(4); bool iw = std::abs(ia - ix) <= im; { Mock<IM> m; Adapter rec; accepts(iw, m, rec, [&]() { auto ctx = Method(m, i); ctx.Using(ApproxEq(ix, im)); return ctx; }, [&]() { m.get().i(ia); }, "integer ApproxEq"); }
    { Mock<IM> m; Adapter rec; float fa = float(A); bool fw = std::abs(fa - 1.5) <= M; accepts(fw, m, rec, [&]() { auto ctx = Method(m, f); ctx.Using(ApproxEq(1.5, M)); return ctx; }, [&]() { m.get().f(fa); }, "float ApproxEq"); }
}
// one criterion per parameter: every position is decisive on its own
SCENARIO_N(positions, 20000, 3) {
    int acc = c.pick(16); int order = c.pick(3); std::string what = "accepting positions " + std::to_string(acc); c.note(what);
    int v[4]; for (int i = 0; i < 4; ++i) v[i] = (acc >> i & 1) ? 10 + i : 50 + i; bool want = acc == 15;
    { Mock<IM> m; Adapter rec; accepts(want, m, rec, [&]() { auto ctx = Method(m, four); if (order == 0) ctx.Using(10, 11, 12, 13); else if (order == 1) ctx.Using(Eq(10), Lt(12), Ge(12) /* 12 and 52 */, 13); else ctx.Matching([](int a, int b, int d, int e) { return a == 10 && b == 11 && d == 12 && e == 13; }); return ctx; }, [&]() { m.get().four(v[0], v[1], order == 1 && !(acc >> 2 & 1) ? 3 : v[2], v[3]); }, what); }
    { Mock<IM> m; Adapter rec; verifies(want, [&]() { auto ctx = Method(m, four); if (order == 0) ctx.Using(Eq(10), 11, Eq(12), 13); else if (order == 1) ctx(10, 11, 12, 13); else ctx([](int a, int b, int d, int e) { return a == 10 && b == 11 && d == 12 && e == 13; }); return ctx; }, [&]() { Fake(Method(m, four)); }, [&]() { m.get().four(v[0], v[1], v[2], v[3]); }, what); }
    { Mock<IM> m; Adapter rec; std::string s = (acc & 2) ? "abc" : "abd"; double d = (acc & 4) ? 1.5 : 1.4; accepts(want, m, rec, [&]() { auto ctx = Method(m, mix); if (order == 0) ctx.Using(Gt(5), std::string("abc"), ApproxEq(1.5, 0.01), StrEq("k")); else ctx.Using(Eq(v[0] < 50 ? v[0] : 1), Eq(std::string("abc")), Ge(1.5), StrLt("l")); return ctx; }, [&]() { m.get().mix((acc & 1) ? 10 : order == 0 ? 5 : 4, s, d, (acc & 8) ? "k" : "m"); }, "mixed " + what); }
}
SCENARIO_N(six_positions, 20000, 2) {
    int k[6], x[6], a[6]; bool want = true; std::ostringstream o;
    for (int i = 0; i < 6; ++i) { k[i] = c.pick(4); x[i] = c.pick(2); a[i] = c.pick(2); bool t = k[i] == 0 ? true : k[i] == 1 ? a[i] == x[i] : k[i] == 2 ? a[i] != x[i] : a[i] > x[i]; want = want && t; o << k[i] << x[i] << a[i] << " "; }
    c.note(o.str()); Mock<IM> m; Adapter rec;
    // a criterion chosen at run time: Ge/Le/Ne/Gt over a shifted value; k=0 accepts both values
    auto lo = [&](int i) { return k[i] == 0 ? -5 : k[i] == 1 ? x[i] : k[i] == 3 ? x[i] + 1 : -5; }; auto hi = [&](int i) { return k[i] == 1 ? x[i] : 5; }; auto ne = [&](int i) { return k[i] == 2 ? x[i] : 99; };
    When(Method(m, six)).AlwaysReturn(1); m.get().six(a[0], a[1], a[2], a[3], a[4], a[5]);
    bool v = Verify(Method(m, six).Using(Ge(lo(0)), Ge(lo(1)), Ge(lo(2)), Ge(lo(3)), Ge(lo(4)), Ge(lo(5)))).Once(); bool w = Verify(Method(m, six).Using(Le(hi(0)), Le(hi(1)), Le(hi(2)), Le(hi(3)), Le(hi(4)), Le(hi(5)))).Once(); bool n = Verify(Method(m, six).Using(Ne(ne(0)), Ne(ne(1)), Ne(ne(2)), Ne(ne(3)), Ne(ne(4)), Ne(ne(5)))).Once();
    bool wv = true, ww = true, wn = true; for (int i = 0; i < 6; ++i) { wv = wv && a[i] >= lo(i); ww = ww && a[i] <= hi(i); wn = wn && a[i] != ne(i); }
    drv::same(v, wv, "six lower bounds"); drv::same(w, ww, "six upper bounds"); drv::same(n, wn, "six inequalities"); (void)want;
    // exactly one position is looked at
    for (int i = 0; i < 6; ++i) { bool g; switch (i) { case 0: g = Verify(Method(m, six).Using(x[0], _, _, _, _, _)).Once(); break; case 1: g = Verify(Method(m, six).Using(_, x[1], _, _, _, _)).Once(); break; case 2: g = Verify(Method(m, six).Using(_, _, x[2], _, _, _)).Once(); break; case 3: g = Verify(Method(m, six).Using(_, _, _, x[3], _, _)).Once(); break; case 4: g = Verify(Method(m, six).Using(_, _, _, _, x[4], _)).Once(); break; default: g = Verify(Method(m, six).Using(_, _, _, _, _, x[5])).Once(); } drv::same(g, a[i] == x[i], "criterion at position ", i); }
}
SCENARIO_N(predicates, 2000, 1) {
    int mask = c.pick(64), a = c.pick(6); Mock<IM> m; Adapter rec; int seen = -1, asked = 0; bool want = mask >> a & 1;
    When(Method(m, i).Matching([&](int x) { seen = x; ++asked; return (mask >> x & 1) != 0; })).AlwaysReturn(1);
    bool got = true; try { m.get().i(a); } catch (UnexpectedMethodCallException &) { got = false; } drv::same(got, want, "predicate"); drv::same(seen, a, "argument seen by the predicate");
    Mock<IM> k; Fake(Method(k, four)); k.get().four(a, a + 1, a + 2, a + 3); bool g = Verify(Method(k, four).Matching([&](int p, int q, int r, int s) { return p == a && q == a + 1 && r == a + 2 && s == a + 3 && want; })).Once(); drv::same(g, want, "predicate over four arguments");
}
// the latest criterion of a phrase counts
SCENARIO_N(rewritten, 200, 0.2) { int a = c.pick(3), x = c.pick(3), y = c.pick(3); Mock<IM> m; Adapter rec; accepts(a == y, m, rec, [&]() { auto ctx = Method(m, i); ctx.Using(x); ctx.Using(y); return ctx; }, [&]() { m.get().i(a); }, "phrase with a second Using"); }
struct ManyArgs { virtual int f(int, int, int, int, int, int, int, int, int, int, int, int) = 0; virtual ~ManyArgs() {} };
SCENARIO_N(many_arguments, 60, 3) {
    Mock<ManyArgs> m; Adapter rec; int bad = c.pick(13), how = c.pick(3); c.notef("the argument ", bad, " of 12 differs (12: none), kind ", how); int a[12]; for (int i = 0; i < 12; ++i) a[i] = (i == bad ? 100 : 0) + i;
    auto call = [&] { return m.get().f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); };
    When(Method(m, f)).AlwaysReturn(1);
    if (how == 0) When(Method(m, f).Using(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)).AlwaysReturn(2);
    else if (how == 1) When(Method(m, f).Using(Lt(50), Le(1), Eq(2), 3, Lt(50), Le(5), Eq(6), 7, Lt(50), Le(9), Eq(10), 11)).AlwaysReturn(2);
    else When(Method(m, f).Matching([](int p, int q, int r, int s, int t, int u, int v, int w, int x, int y, int z, int k) { return p == 0 && q == 1 && r == 2 && s == 3 && t == 4 && u == 5 && v == 6 && w == 7 && x == 8 && y == 9 && z == 10 && k == 11; })).AlwaysReturn(2);
    drv::same(call(), bad == 12 ? 2 : 1, "answer of the call"); int n = bad == 12 ? 1 : 0;
    CHECK(bool(Verify(Method(m, f).Using(0, Eq(1), 2, Le(3), 4, Eq(5), 6, Lt(20), 8, Eq(9), 10, Le(11))).Exactly(n)), "verification of the call with its 12 criteria");
    CHECK(bool(Verify(Method(m, f).Using(_, _, _, _, _, _, _, _, 8, 9, 10, 11)).Exactly(bad >= 8 && bad < 12 ? 0 : 1)), "verification of the call with criteria for its last arguments");
}
DRIVER_MAIN
