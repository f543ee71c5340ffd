// flags: -fsanitize=address
#include "world.hpp"
using namespace world;
struct Tr { static std::map<const void *, int> &live() { static std::map<const void *, int> m; return m; } static long &made() { static long n; return n; } static long &gone() { static long n; return n; } int a, b;
    Tr() : a(-1), b(-2) { in(); } Tr(int x) : a(x), b(0) { in(); } Tr(int x, int y) : a(x), b(y) { in(); } Tr(Tr const &o) : a(o.a), b(o.b) { in(); } ~Tr() { ++gone(); live()[this]--; } void in() { ++made(); live()[this]++; } };
struct Plain { int x, y; };
struct IC {
    virtual int f(int) = 0; virtual ~IC() {} virtual void g() = 0;
    char first; int num; Tr t; std::string s; double d; char raw[24]; Tr u; std::vector<int> v; Plain p; const char *ptr; bool flag; std::shared_ptr<int> sp; long tail; unsigned char end;
};
enum { N = 13 };
struct Mem { size_t off, size; };
static Mem where(IC &o, int k) { char *b = reinterpret_cast<char *>(&o); auto r = [&](auto &x) { return Mem{size_t(reinterpret_cast<char *>(&x) - b), sizeof x}; }; switch (k) { case 0: return r(o.first); case 1: return r(o.num); case 2: return r(o.t); case 3: return r(o.s); case 4: return r(o.d); case 5: return r(o.u); case 6: return r(o.v); case 7: return r(o.p); case 8: return r(o.ptr); case 9: return r(o.flag); case 10: return r(o.sp); case 11: return r(o.tail); default: return r(o.end); } }
static const char *text = "a text that is long enough to be stored on the heap";
struct Rig {
    std::unique_ptr<Mock<IC>> m{new Mock<IC>()}, other{new Mock<IC>()}; Adapter rec; drv::Choices &c; bool on[N] = {}; int var[N] = {}; bool written[N] = {}; int val[N] = {}; std::weak_ptr<int> wp; std::shared_ptr<int> given{new int(5)};
    Rig(drv::Choices &c) : c(c) {}
    IC &o() { return m->get(); }
    void stub(int k) {
        bool again = on[k]; IC &x = o(); std::vector<char> before(reinterpret_cast<char *>(&x), reinterpret_cast<char *>(&x) + sizeof(IC)); int w = c.pick(3); Mock<IC> &M = *m; long made = Tr::made(), gone = Tr::gone(); c.notef("stub member ", k, " variant ", w);
        switch (k) { case 0: M.Stub(&IC::first, 'q'); w = 0; break; case 1: if (w == 0) M.Stub(&IC::num); else M.Stub(&IC::num, 40 + w); break; case 2: if (w == 0) M.Stub(&IC::t); else if (w == 1) M.Stub(&IC::t, 7); else M.Stub(&IC::t, 7, 8); break; case 3: if (w == 0) M.Stub(&IC::s); else if (w == 1) M.Stub(&IC::s, text); else M.Stub(&IC::s, std::string(text) + "!"); break; case 4: M.Stub(&IC::d, 2.5); w = 0; break; case 5: if (w == 0) M.Stub(&IC::u); else if (w == 1) M.Stub(&IC::u, 9); else M.Stub(&IC::u, 9, 10); break;
            case 6: if (w == 0) M.Stub(&IC::v); else if (w == 1) M.Stub(&IC::v, 3, 4, 5); else M.Stub(&IC::v, std::vector<int>(100, 6)); break; case 7: M.Stub(&IC::p, 11, 12); w = 0; break; case 8: if (w == 0) { M.Stub(&IC::ptr); } else { M.Stub(&IC::ptr, (const char *)text); w = 1; } break; case 9: M.Stub(&IC::flag, true); w = 0; break; case 10: M.Stub(&IC::sp, given); w = 0; break; case 11: M.Stub(&IC::tail, 5000000000L); w = 0; break; default: M.Stub(&IC::end, (unsigned char)200); w = 0; }
        var[k] = w; on[k] = true; written[k] = false; Mem p = where(x, k); const char *now = reinterpret_cast<char *>(&x); for (size_t i = 0; i < sizeof(IC); ++i) if (i < p.off || i >= p.off + p.size) CHECK(now[i] == before[i], "stubbing member ", k, " changed byte ", i, " of the object");
        CHECK(&o() == &x, "the mocked object moved"); drv::same(Tr::made() - made, long(k == 2 || k == 5), "objects constructed"); drv::same(Tr::gone() - gone, long(again && (k == 2 || k == 5)), "objects destroyed"); check(k);
    }
    void write(int k) { IC &x = o(); int n = val[k] = c.range(1, 9); c.notef("write member ", k); written[k] = true; switch (k) { case 0: x.first = char('a' + n); break; case 1: x.num = n; break; case 2: if (on[k]) { x.t.a = n; x.t.b = -n; } else written[k] = false; break; case 3: if (on[k]) x.s = std::string(50, char('a' + n)); else written[k] = false; break; case 4: x.d = n; break; case 5: if (on[k]) { x.u.a = n; x.u.b = -n; } else written[k] = false; break; case 6: if (on[k]) x.v.assign(size_t(n) * 10, n); else written[k] = false; break; case 7: x.p = Plain{n, -n}; break; case 8: x.ptr = text + n; break; case 9: x.flag = n & 1; break; case 10: if (on[k]) x.sp.reset(new int(n)); else written[k] = false; break; case 11: x.tail = n; break; default: x.end = (unsigned char)n; } }
    void check(int k) {
        IC &x = o(); int w = var[k], n = val[k]; bool wr = written[k];
        if (!on[k] && !wr) { Mem p = where(x, k); const char *b = reinterpret_cast<char *>(&x) + p.off; for (size_t i = 0; i < p.size; ++i) CHECK(b[i] == 0, "member ", k, " that is not stubbed does not read as zero"); return; }
        switch (k) { case 0: drv::same(x.first, wr ? char('a' + n) : 'q', "char member"); break; case 1: drv::same(x.num, wr ? n : w ? 40 + w : 0, "int member"); break; case 2: drv::same(x.t.a, wr ? n : w ? 7 : -1, "object member"); drv::same(x.t.b, wr ? -n : w == 2 ? 8 : w == 1 ? 0 : -2, "object member"); break; case 3: drv::same(x.s, wr ? std::string(50, char('a' + n)) : w == 0 ? std::string() : w == 1 ? std::string(text) : std::string(text) + "!", "string member"); break; case 4: drv::same(x.d, wr ? n : 2.5, "double member"); break; case 5: drv::same(x.u.a, wr ? n : w ? 9 : -1, "second object member"); drv::same(x.u.b, wr ? -n : w == 2 ? 10 : w == 1 ? 0 : -2, "second object member"); break;
            case 6: drv::samev(x.v, wr ? std::vector<int>(size_t(n) * 10, n) : w == 0 ? std::vector<int>() : w == 1 ? std::vector<int>{3, 4, 5} : std::vector<int>(100, 6), "vector member"); break; case 7: drv::same(x.p.x, wr ? n : 11, "plain member"); drv::same(x.p.y, wr ? -n : 12, "plain member"); break; case 8: CHECK(x.ptr == (wr ? text + n : w ? text : nullptr), "pointer member"); break; case 9: drv::same(x.flag, wr ? bool(n & 1) : true, "bool member"); break; case 10: if (wr) drv::same(*x.sp, n, "shared pointer member"); else CHECK(x.sp == given, "shared pointer member"); break; case 11: drv::same(x.tail, wr ? long(n) : 5000000000L, "long member"); break; default: drv::same(int(x.end), wr ? n : 200, "last member"); }
    }
    void all() { for (int k = 0; k < N; ++k) check(k); IC &x = o(); drv::same(Tr::live()[&x.t], on[2] ? 1 : 0, "live objects in the member"); drv::same(Tr::live()[&x.u], on[5] ? 1 : 0, "live objects in the second member"); drv::same(long(given.use_count()), 1L + (on[10] && !written[10] ? 1 : 0), "owners of the shared object"); }
    void reset() { c.note("Reset"); long g = Tr::gone(); m->Reset(); drv::same(Tr::gone() - g, long(on[2] + on[5]), "objects destroyed by Reset"); for (int k = 0; k < N; ++k) on[k] = written[k] = false; for (int k = 0; k < N; ++k) check(k); drv::same(long(given.use_count()), 1L, "owners of the shared object"); all(); }
    void finish() { long g = Tr::gone(); long want = on[2] + on[5]; m.reset(); drv::same(Tr::gone() - g, want, "objects destroyed at the end of the mock"); drv::same(long(given.use_count()), 1L, "owners of the shared object"); }
    void other_clean() { IC &y = other->get(); const char *b = reinterpret_cast<char *>(&y); for (size_t i = sizeof(void *); i < sizeof(IC); ++i) CHECK(b[i] == 0, "the object of another mock changed"); }
};
static void step(Rig &r, drv::Choices &c, bool resets) { int op = c.pick(10); Mock<IC> &m = *r.m; if (op < 5) r.stub(c.pick(N)); else if (op < 8) r.write(c.pick(N)); else if (op == 8) { if (c.flip()) { When(Method(m, f)).AlwaysReturn(3); drv::same(r.o().f(1), 3, "method next to the members"); } else m.ClearInvocationHistory(); } else if (resets) r.reset(); r.all(); }
SCENARIO_N(members, 4000, 2) { { Rig r(c); int n = c.range(1, 12); for (int i = 0; i < n; ++i) step(r, c, true); r.other_clean(); r.finish(); } drv::same(Tr::made(), Tr::gone(), "objects constructed and destroyed"); }
SCENARIO_N(one_member, 400, 1) { { Rig r(c); int k = c.pick(N); if (c.flip()) r.write(0); r.stub(k); r.all(); if (c.flip()) r.write(k); r.all(); int e = c.pick(3); if (e == 1) r.reset(); if (e == 2) { r.reset(); r.stub(k); r.all(); } r.other_clean(); r.finish(); } drv::same(Tr::made(), Tr::gone(), "objects constructed and destroyed"); }
SCENARIO_N(two_members, 2500, 1) { { Rig r(c); r.stub(c.pick(N)); r.stub(c.pick(N)); r.all(); r.finish(); } drv::same(Tr::made(), Tr::gone(), "objects constructed and destroyed"); }
DRIVER_MAIN
