// ReturnAndSet.
#include "client.hpp"
using namespace fakeit::placeholders;
struct P { int a; long b; P(int a = 0, long b = 0) : a(a), b(b) {} P(const P &o) : a(o.a), b(o.b) {} P &operator=(const P &o) { a = o.a; b = o.b; return *this; } bool operator==(const P &o) const { return a == o.a && b == o.b; } };
struct M { P p; int moved; M(int x = 0) : p(x, 1), moved(0) {} M(const M &o) : p(o.p), moved(0) {} M(M &&o) : p(o.p), moved(0) { o.p = P(-9, -9); o.moved = 1; } M &operator=(const M &o) { p = o.p; return *this; } M &operator=(M &&o) { p = o.p; o.p = P(-9, -9); return *this; } };   // notices being moved from
struct I { virtual int r2(int &, int &) = 0; virtual int p2(int *, int *) = 0; virtual void v3(int &, P &, double *) = 0; virtual P s3(P *, int &, P &) = 0; virtual int mix(int, int &, P, P &, int *) = 0; virtual int five(int &, int &, int &, int &, int &) = 0; virtual void vals(int, int &, int) = 0; virtual long wide(long &, char &, short *) = 0; virtual double last(const P &, int, int &) = 0; virtual M mv(M &, M *) = 0; virtual ~I() {} };
#define TWICE for (int round = 0; round < 2; ++round)
PROOF(C16, all_references)(int r, int a, int b, int x, int y) { Mock<I> m; When(Method(m, r2)).AlwaysReturnAndSet(int(r), int(a), int(b)); TWICE { int p = x, q = y; PROVE(m.get().r2(p, q) == r && p == a && q == b, "both references"); } }
PROOF(C16, first_reference)(int r, int a, int x, int y) { Mock<I> m; When(Method(m, r2)).AlwaysReturnAndSet(int(r), int(a)); TWICE { int p = x, q = y; PROVE(m.get().r2(p, q) == r && p == a && q == y, "only the first"); } }
PROOF(C16, second_by_name)(int r, int b, int x, int y) { Mock<I> m; When(Method(m, r2)).AlwaysReturnAndSet(int(r), _2 <= int(b)); TWICE { int p = x, q = y; PROVE(m.get().r2(p, q) == r && p == x && q == b, "only the second"); } }
PROOF(C16, names_swapped)(int r, int a, int b, int x, int y) { Mock<I> m; When(Method(m, r2)).AlwaysReturnAndSet(int(r), _2 <= int(b), _1 <= int(a)); TWICE { int p = x, q = y; PROVE(m.get().r2(p, q) == r && p == a && q == b, "by name, not by order"); } }
PROOF(C16, pointers)(int r, int a, int b, int x, int y) { Mock<I> m; When(Method(m, p2)).AlwaysReturnAndSet(int(r), int(a), int(b)); TWICE { int p = x, q = y; PROVE(m.get().p2(&p, &q) == r && p == a && q == b, "through pointers"); } When(Method(m, p2)).AlwaysReturnAndSet(int(r), _2 <= int(b)); TWICE { int p = x, q = y; PROVE(m.get().p2(&p, &q) == r && p == x && q == b, "by name"); } }
PROOF(C16, lvalues)(int r, int a, int b, int x, int y) { Mock<I> m; { int va = a, vb = b; When(Method(m, r2)).AlwaysReturnAndSet(int(r), va, vb); int p = x, q = y; PROVE(m.get().r2(p, q) == r && p == a && q == b, "values given as variables"); PROVE(va == a && vb == b, "which are not changed"); } }
PROOF(C16, result_from_variable)(int r, int a, int x, int y) { Mock<I> m; int vr = r; When(Method(m, r2)).AlwaysReturnAndSet(std::move(vr), int(a)); TWICE { int p = x, q = y; PROVE(m.get().r2(p, q) == r && p == a && q == y, "result"); } }
PROOF(C16, kinds)(int a, int o1, long o2, double d) { Mock<I> m; When(Method(m, v3)).AlwaysReturnAndSet(int(a), P(o1, o2), double(d)); TWICE { int p = 0; P q(1, 2); double e = 9; m.get().v3(p, q, &e); PROVE(p == a && q.a == o1 && q.b == o2 && (e == d || d != d), "references and pointers mixed, void result"); } When(Method(m, v3)).AlwaysReturnAndSet(_3 <= double(d)); TWICE { int p = 0; P q(1, 2); double e = 9; m.get().v3(p, q, &e); PROVE(p == 0 && q.a == 1 && q.b == 2 && (e == d || d != d), "only the third"); } }
PROOF(C16, objects)(int a, int o1, long o2, int r1) { Mock<I> m; When(Method(m, s3)).AlwaysReturnAndSet(P(r1, 3), _3 <= P(o1, o2), _1 <= P(o1, 5)); TWICE { P p(0, 0), q(1, 1); int i = 4; P g = m.get().s3(&p, i, q); PROVE(g.a == r1 && g.b == 3 && p.a == o1 && p.b == 5 && i == 4 && q.a == o1 && q.b == o2, "objects"); } }
PROOF(C16, only_named)(int r, int o1, int b, int e, int x) { Mock<I> m; When(Method(m, mix)).AlwaysReturnAndSet(int(r), _4 <= P(o1, 1), _2 <= int(b), _5 <= int(e)); TWICE { int p = x, q = 2, s = 3; P u(7, 7), v(8, 8); PROVE(m.get().mix(p, q, u, v, &s) == r && p == x && q == b && u.a == 7 && u.b == 7 && v.a == o1 && v.b == 1 && s == e, "by-value arguments stay, the named ones are set"); } }
PROOF(C16, five_in_order)(int r, int v1, int v2, int v3, int v4, int v5) { Mock<I> m; When(Method(m, five)).AlwaysReturnAndSet(int(r), int(v1), int(v2), int(v3), int(v4), int(v5)); TWICE { int a = 0, b = 0, c = 0, d = 0, e = 0; PROVE(m.get().five(a, b, c, d, e) == r && a == v1 && b == v2 && c == v3 && d == v4 && e == v5, "five values"); } }
PROOF(C16, three_of_five)(int r, int v1, int v2, int v3, int x) { Mock<I> m; When(Method(m, five)).AlwaysReturnAndSet(int(r), int(v1), int(v2), int(v3)); TWICE { int a = 0, b = 0, c = 0, d = x, e = x; PROVE(m.get().five(a, b, c, d, e) == r && a == v1 && b == v2 && c == v3 && d == x && e == x, "the first three"); } }
PROOF(C16, named_of_five)(int r, int v5, int v1, int v3, int x) { Mock<I> m; When(Method(m, five)).AlwaysReturnAndSet(int(r), _5 <= int(v5), _1 <= int(v1), _3 <= int(v3)); TWICE { int a = x, b = x, c = x, d = x, e = x; PROVE(m.get().five(a, b, c, d, e) == r && a == v1 && b == x && c == v3 && d == x && e == v5, "by name"); } When(Method(m, five)).AlwaysReturnAndSet(int(r), _4 <= int(v1), _2 <= int(v3)); TWICE { int a = x, b = x, c = x, d = x, e = x; PROVE(m.get().five(a, b, c, d, e) == r && a == x && b == v3 && c == x && d == v1 && e == x, "two by name"); } }
PROOF(C16, widths)(long r, long a, char b, short s) { Mock<I> m; When(Method(m, wide)).AlwaysReturnAndSet(long(r), long(a), char(b), short(s)); TWICE { long p = 0; char q = 0; short t = 0; PROVE(m.get().wide(p, q, &t) == r && p == a && q == b && t == s, "widths"); } When(Method(m, wide)).AlwaysReturnAndSet(long(r), _3 <= short(s), _2 <= char(b)); TWICE { long p = 5; char q = 0; short t = 0; PROVE(m.get().wide(p, q, &t) == r && p == 5 && q == b && t == s, "widths by name"); } }
PROOF(C16, void_by_name)(int a, int x) { Mock<I> m; When(Method(m, vals)).AlwaysReturnAndSet(_2 <= int(a)); TWICE { int p = x, q = x, s = x; m.get().vals(p, q, s); PROVE(p == x && q == a && s == x, "the second of three"); } }
PROOF(C16, last_by_name)(double r, int a) { Mock<I> m; When(Method(m, last)).AlwaysReturnAndSet(double(r), _3 <= int(a)); TWICE { P p(4, 4); int q = 0; double g = m.get().last(p, 1, q); PROVE((g == r || r != r) && q == a && p.a == 4 && p.b == 4, "the last parameter"); } }
PROOF(C16, once_each)(int r1, int r2, int a1, int a2, int x) { Mock<I> m; When(Method(m, r2)).ReturnAndSet(int(r1), int(a1)).ReturnAndSet(int(r2), _2 <= int(a2)).Return(5); { int p = x, q = x; PROVE(m.get().r2(p, q) == r1 && p == a1 && q == x, "first"); } { int p = x, q = x; PROVE(m.get().r2(p, q) == r2 && p == x && q == a2, "second"); } { int p = x, q = x; PROVE(m.get().r2(p, q) == 5 && p == x && q == x, "third"); } int p = 0, q = 0; PROVE(ends([&] { m.get().r2(p, q); }) == UNEXPECTED && p == 0 && q == 0, "used up"); }
PROOF(C16, not_moved_away)(int r, int a, int b) { Mock<I> m; When(Method(m, mv)).AlwaysReturnAndSet(M(r), M(a), M(b)); for (int i = 0; i < 3; ++i) { M p(0), q(0); M g = m.get().mv(p, &q); PROVE(g.p.a == r && g.p.b == 1 && p.p.a == a && p.p.b == 1 && q.p.a == b && q.p.b == 1, "the same values on every call"); } }
PROOF(C16, named_not_moved_away)(int r, int b) { Mock<I> m; When(Method(m, mv)).AlwaysReturnAndSet(M(r), _2 <= M(b)); for (int i = 0; i < 3; ++i) { M p(4), q(0); M g = m.get().mv(p, &q); PROVE(g.p.a == r && p.p.a == 4 && q.p.a == b && q.p.b == 1, "the same values on every call"); } }
PROOF(C16, same_name_twice)(int a, int b, int x) { Mock<I> m; When(Method(m, r2)).AlwaysReturnAndSet(1, _1 <= int(a), _1 <= int(b)); TWICE { int p = x, q = x; m.get().r2(p, q); PROVE(p == b && q == x, "the later value"); } }
