// flags: -std=c++17
// flags: -std=c++14
#include "world.hpp"
using namespace world;
using namespace fakeit::placeholders;
typedef std::string S;
struct P { int a; S b; bool operator==(P const &o) const { return a == o.a && b == o.b; } };
struct Boom { int tag; };
struct IC {
    virtual int r2(int &, int &) = 0; virtual int p2(int *, int *) = 0; virtual void v3(int &, S &, double *) = 0; virtual S s3(S *, int &, S &) = 0; virtual int mix(int, int &, S, S &, int *) = 0; virtual void one(P &) = 0; virtual bool ptr(P *, int) = 0;
    virtual int five(int &, int &, int &, int &, int &) = 0; virtual void vals(int, int &, int) = 0; virtual long wide(long &, char &, short *) = 0; virtual P obj(P &, int *) = 0; virtual double last(const S &, int, int &) = 0; virtual ~IC() = default;
};
static S str(drv::Choices &c) { static const char *s[] = {"", "x", "a long string that does not fit the small buffer", "yy"}; return s[c.pick(4)]; }
// always: 1 AlwaysReturnAndSet, 0 ReturnAndSet
#define RS(ctx, ...) if (always) When(ctx).AlwaysReturnAndSet(__VA_ARGS__); else When(ctx).ReturnAndSet(__VA_ARGS__).ReturnAndSet(__VA_ARGS__);
#define TWICE for (int round = 0; round < 2; ++round)
SCENARIO_N(ints, 4000, 2) {
    Mock<IC> m; Adapter rec; bool always = c.flip(); int k = c.pick(12); int R = c.range(-3, 3), A = c.range(10, 13), B = c.range(20, 23); int a0 = c.range(1, 3), b0 = c.range(4, 6); int wa = a0, wb = b0; bool ptrs = false;
    switch (k) {
        case 0: RS(Method(m, r2), int(R), int(A), int(B)) wa = A; wb = B; break; case 1: RS(Method(m, r2), int(R), int(A)) wa = A; break; case 2: RS(Method(m, r2), int(R), _1 <= int(A)) wa = A; break; case 3: RS(Method(m, r2), int(R), _2 <= int(B)) wb = B; break; case 4: RS(Method(m, r2), int(R), _2 <= int(B), _1 <= int(A)) wa = A; wb = B; break; case 5: RS(Method(m, r2), int(R), _1 <= int(A), _2 <= int(B)) wa = A; wb = B; break;
        case 6: ptrs = true; RS(Method(m, p2), int(R), int(A), int(B)) wa = A; wb = B; break; case 7: ptrs = true; RS(Method(m, p2), int(R), int(A)) wa = A; break; case 8: ptrs = true; RS(Method(m, p2), int(R), _2 <= int(B)) wb = B; break; case 9: ptrs = true; RS(Method(m, p2), int(R), _2 <= int(B), _1 <= int(A)) wa = A; wb = B; break; case 10: RS(Method(m, r2), int(R), A, B) wa = A; wb = B; break; default: RS(Method(m, r2), int(R), _2 <= B) wb = B; }
    TWICE { int a = a0, b = b0; c.notef("shape ", k, " always ", always); int g = ptrs ? m.get().p2(&a, &b) : m.get().r2(a, b); drv::same(g, R, "result"); drv::same(a, wa, "first argument"); drv::same(b, wb, "second argument"); }
}
SCENARIO_N(five, 4000, 1.5) {
    Mock<IC> m; Adapter rec; bool always = c.flip(); int k = c.pick(10); int v[6]; for (int i = 1; i <= 5; ++i) v[i] = 100 * i + c.pick(3); int w[6] = {0}; int R = c.pick(5);
    switch (k) { case 0: RS(Method(m, five), int(R), int(v[1]), int(v[2]), int(v[3]), int(v[4]), int(v[5])) for (int i = 1; i < 6; ++i) w[i] = v[i]; break; case 1: RS(Method(m, five), int(R), int(v[1]), int(v[2]), int(v[3])) for (int i = 1; i < 4; ++i) w[i] = v[i]; break; case 2: RS(Method(m, five), int(R), _5 <= int(v[5])) w[5] = v[5]; break; case 3: RS(Method(m, five), int(R), _3 <= int(v[3])) w[3] = v[3]; break; case 4: RS(Method(m, five), int(R), _4 <= int(v[4]), _2 <= int(v[2])) w[4] = v[4]; w[2] = v[2]; break;
        case 5: RS(Method(m, five), int(R), _5 <= int(v[5]), _1 <= int(v[1]), _3 <= int(v[3])) w[5] = v[5]; w[1] = v[1]; w[3] = v[3]; break; case 6: RS(Method(m, five), int(R), _2 <= int(v[2]), _3 <= int(v[3]), _4 <= int(v[4])) for (int i = 2; i < 5; ++i) w[i] = v[i]; break; case 7: RS(Method(m, five), int(R), _5 <= int(v[5]), _4 <= int(v[4]), _3 <= int(v[3]), _2 <= int(v[2]), _1 <= int(v[1])) for (int i = 1; i < 6; ++i) w[i] = v[i]; break; case 8: RS(Method(m, five), int(R), int(v[1]), int(v[2]), int(v[3]), int(v[4])) for (int i = 1; i < 5; ++i) w[i] = v[i]; break; default: RS(Method(m, five), int(R), _1 <= int(v[1]), _5 <= int(v[5])) w[1] = v[1]; w[5] = v[5]; }
    TWICE { int a[6] = {0, 1, 2, 3, 4, 5}; drv::same(m.get().five(a[1], a[2], a[3], a[4], a[5]), R, "result"); for (int i = 1; i < 6; ++i) drv::same(a[i], w[i] ? w[i] : i, "argument ", i, " of shape ", k); }
}
SCENARIO_N(kinds, 6000, 2) {
    Mock<IC> m; Adapter rec; bool always = c.flip(); int k = c.pick(16); int A = c.range(10, 13); S s1 = str(c) + "1", s2 = str(c) + "2"; double d = c.pick(4) * 0.5; c.notef("shape ", k);
    switch (k) {
        case 0: { RS(Method(m, v3), int(A), S(s1), double(d)) TWICE { int a = 1; S s = "k"; double e = 9; m.get().v3(a, s, &e); drv::same(a, A, "int reference"); drv::same(s, s1, "string reference"); drv::same(e, d, "double pointer"); } break; }
        case 1: { RS(Method(m, v3), _3 <= double(d)) TWICE { int a = 1; S s = "k"; double e = 9; m.get().v3(a, s, &e); drv::same(a, 1, "int reference"); drv::same(s, S("k"), "string reference"); drv::same(e, d, "double pointer"); } break; }
        case 2: { RS(Method(m, v3), _2 <= S(s1), _1 <= int(A)) TWICE { int a = 1; S s = "k"; double e = 9; m.get().v3(a, s, &e); drv::same(a, A, "int reference"); drv::same(s, s1, "string reference"); drv::same(e, 9.0, "double pointer"); } break; }
        case 3: { RS(Method(m, s3), S("res"), S(s1), int(A), S(s2)) TWICE { S p = "p", q = "q"; int i = 0; drv::same(m.get().s3(&p, i, q), S("res"), "result"); drv::same(p, s1, "string pointer"); drv::same(i, A, "int reference"); drv::same(q, s2, "string reference"); } break; }
        case 4: { RS(Method(m, s3), S(s2), _3 <= S(s1)) TWICE { S p = "p", q = "q"; int i = 0; drv::same(m.get().s3(&p, i, q), s2, "result"); drv::same(p, S("p"), "string pointer"); drv::same(i, 0, "int reference"); drv::same(q, s1, "string reference"); } break; }
        case 5: { RS(Method(m, s3), S(s2), _1 <= S(s1), _2 <= int(A)) TWICE { S p = "p", q = "q"; int i = 0; drv::same(m.get().s3(&p, i, q), s2, "result"); drv::same(p, s1, "string pointer"); drv::same(i, A, "int reference"); drv::same(q, S("q"), "string reference"); } break; }
        case 6: { RS(Method(m, mix), int(A), _4 <= S(s1), _2 <= 77, _5 <= 55) TWICE { int b = 2, e = 5, a = 1; S sc = "c", sd = "d"; drv::same(m.get().mix(a, b, sc, sd, &e), A, "result"); drv::same(a, 1, "first"); drv::same(b, 77, "second"); drv::same(sc, S("c"), "third"); drv::same(sd, s1, "fourth"); drv::same(e, 55, "fifth"); } break; }
        case 7: { RS(Method(m, obj), P{1, s2}, _2 <= int(A)) TWICE { P p{0, "0"}; int i = 0; P g = m.get().obj(p, &i); CHECK((g == P{1, s2}), "result"); CHECK((p == P{0, "0"}), "object reference"); drv::same(i, A, "int pointer"); } break; }
        case 8: { RS(Method(m, one), P{A, s1}) TWICE { P p{1, "p"}; m.get().one(p); CHECK((p == P{A, s1}), "object reference"); } break; }
        case 9: { RS(Method(m, ptr), true, P{A, s1}) TWICE { P p{1, "p"}; CHECK(m.get().ptr(&p, 3), "result"); CHECK((p == P{A, s1}), "object pointer"); } break; }
        case 10: { RS(Method(m, vals), _2 <= int(A)) TWICE { int a = 1, b = 2, d2 = 3; m.get().vals(a, b, d2); drv::same(a + d2, 4, "by value"); drv::same(b, A, "second"); } break; }
        case 11: { RS(Method(m, wide), 5000000000L, 6000000000L, 'q', short(7)) TWICE { long a = 0; char b = 'z'; short s = 0; drv::same(m.get().wide(a, b, &s), 5000000000L, "result"); drv::same(a, 6000000000L, "long"); drv::same(b, 'q', "char"); drv::same(s, short(7), "short"); } break; }
        case 12: { RS(Method(m, wide), 1L, _3 <= short(A), _2 <= 'w') TWICE { long a = 8; char b = 'z'; short s = 0; drv::same(m.get().wide(a, b, &s), 1L, "result"); drv::same(a, 8L, "long"); drv::same(b, 'w', "char"); drv::same(int(s), A, "short"); } break; }
        case 13: { RS(Method(m, obj), P{1, s2}, P{A, s1}, 4) TWICE { P p{0, "0"}; int i = 0; P g = m.get().obj(p, &i); CHECK((g == P{1, s2}), "result"); CHECK((p == P{A, s1}), "object reference"); drv::same(i, 4, "int pointer"); } break; }
        case 14: { RS(Method(m, last), 2.5, _3 <= int(A)) TWICE { int a = 0; S q = "q"; drv::same(m.get().last(q, 1, a), 2.5, "result"); drv::same(a, A, "third"); drv::same(q, S("q"), "first"); } break; }
        default: { RS(Method(m, v3), _1 <= 40, _2 <= S("lost"), _1 <= int(A), _2 <= S(s1)) TWICE { int a = 1; S s = "k"; double e = 9; m.get().v3(a, s, &e); drv::same(a, A, "int reference"); drv::same(s, s1, "string reference"); drv::same(e, 9.0, "double pointer"); } }
    }
}
// chains with different values, once each
SCENARIO_N(chains, 1500, 1) {
    Mock<IC> m; Adapter rec; int n = c.range(1, 4); struct W { int r, a, b; }; std::vector<W> w; { auto ctx = Method(m, r2); auto p = When(ctx); for (int i = 0; i < n; ++i) { int k = c.pick(4); switch (k) { case 0: p.ReturnAndSet(int(i), 10 + i, 20 + i); w.push_back({i, 10 + i, 20 + i}); break; case 1: p.ReturnAndSet(int(i), _2 <= 30 + i); w.push_back({i, 1, 30 + i}); break; case 2: p.ReturnAndSet(int(i), 40 + i); w.push_back({i, 40 + i, 2}); break; default: p.Return(int(i)); w.push_back({i, 1, 2}); } } bool tail = c.flip(); if (tail) { p.AlwaysReturnAndSet(99, 98, 97); w.push_back({99, 98, 97}); w.push_back({99, 98, 97}); } }
    for (auto &x : w) { int a = 1, b = 2; drv::same(m.get().r2(a, b), x.r, "result"); drv::same(a, x.a, "first"); drv::same(b, x.b, "second"); }
}
// the values are those at the time of the phrase
SCENARIO_N(kept, 600, 1) {
    Mock<IC> m; Adapter rec; bool always = c.flip(); int k = c.pick(11); c.notef("shape ", k, " always ", always); int R = c.range(1, 3);
    { int a = 10, b = 20; S s = "value of the phrase, which is a long string"; P p{7, "p"}; int r = R; Boom e{R};
      switch (k) {
        case 0: RS(Method(m, r2), int(R), a, b) break; case 1: RS(Method(m, r2), int(R), _2 <= b) break; case 2: RS(Method(m, p2), int(R), _2 <= b, _1 <= a) break; case 3: RS(Method(m, v3), a, s) break; case 4: RS(Method(m, v3), _2 <= s) break; case 5: RS(Method(m, one), p) break;
        case 6: if (always) When(Method(m, r2)).AlwaysReturn(r); else When(Method(m, r2)).Return(r, r); break; case 7: if (always) When(Method(m, r2)).AlwaysThrow(e); else When(Method(m, r2)).Throw(e, e); break; case 8: if (always) When(Method(m, one)).AlwaysThrow(e); else When(Method(m, one)).Throw(e).Throw(e); break;
        case 9: if (always) When(Method(m, s3)).AlwaysReturn(s); else When(Method(m, s3)).Return(s).Return(s); break; default: When(Method(m, one)).Throw(Quantifier<Boom>(2, e)); }
      a = 98; b = 99; s = "another value, which is a long string, too"; p = P{8, "q"}; r = 97; e.tag = 96; }
    TWICE { int a = 1, b = 2, t = 0; S s = "k", z = "z"; double d = 9; P p{1, "1"};
      switch (k) { case 0: drv::same(m.get().r2(a, b), R, "result"); drv::same(a, 10, "first"); drv::same(b, 20, "second"); break; case 1: drv::same(m.get().r2(a, b), R, "result"); drv::same(a, 1, "first"); drv::same(b, 20, "second"); break; case 2: drv::same(m.get().p2(&a, &b), R, "result"); drv::same(a, 10, "first"); drv::same(b, 20, "second"); break;
        case 3: m.get().v3(a, s, &d); drv::same(a, 10, "first"); drv::same(s, S("value of the phrase, which is a long string"), "second"); break; case 4: m.get().v3(a, s, &d); drv::same(a, 1, "first"); drv::same(s, S("value of the phrase, which is a long string"), "second"); break; case 5: m.get().one(p); CHECK((p == P{7, "p"}), "object"); break;
        case 6: drv::same(m.get().r2(a, b), R, "result"); break; case 7: try { m.get().r2(a, b); } catch (Boom &x) { t = x.tag; x.tag = 50; } drv::same(t, R, "exception"); break; case 9: drv::same(m.get().s3(&s, a, z), S("value of the phrase, which is a long string"), "result"); break; default: try { m.get().one(p); } catch (Boom &x) { t = x.tag; x.tag = 50; } drv::same(t, R, "exception"); } }
}
DRIVER_MAIN
