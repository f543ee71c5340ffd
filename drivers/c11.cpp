#include "world.hpp"
using namespace world;
struct Boom { int n; };
// an object that logs which original ran with which arguments
struct Base {
    virtual int add(int a, int b) { log.push_back(1); log.push_back(a); log.push_back(b); if (a == 13) throw Boom{b}; return a + b; }
    virtual void out(int &r, std::string &s, const int &in) { log.push_back(2); log.push_back(in); addr = &r; saddr = &s; caddr = &in; r += in; s += "!"; }
    virtual std::string str(std::string s, int n) { log.push_back(3); log.push_back(n); if (n < 0) throw std::string("neg"); std::string r; for (int i = 0; i < n; ++i) r += s; return r; }
    virtual int &ref(int k) { log.push_back(4); log.push_back(k); return cell[k & 3]; }
    virtual int cst(int k) const { const_cast<Base *>(this)->log.push_back(5); const_cast<Base *>(this)->log.push_back(k); return k * 2; }
    virtual int outer(int k) { log.push_back(6); log.push_back(k); int r = add(k, 1) + cst(k); return r; }
    virtual int fact(int k) { log.push_back(7); log.push_back(k); return k <= 1 ? 1 : k * fact(k - 1); }
    virtual std::unique_ptr<int> own(std::unique_ptr<int> p, int k) { log.push_back(8); log.push_back(p ? *p : -1); if (p) *p += k; return p; }
    virtual void nothing() { log.push_back(9); }
    virtual int rv(std::string &&s) { log.push_back(10); log.push_back(int(s.size())); std::string t(std::move(s)); return int(t.size()); }
    virtual int last(int a) { log.push_back(11); log.push_back(a); if (a == 13) throw Boom{a}; return -a; }
    virtual ~Base() {}
    std::vector<int> log; int cell[4] = {0, 1, 2, 3}; const void *addr = 0, *saddr = 0, *caddr = 0;
};
struct Derived : Base { int add(int a, int b) override { log.push_back(21); log.push_back(a); log.push_back(b); if (a == 13) throw Boom{b}; return a + b + 100; } int last(int a) override { log.push_back(31); log.push_back(a); if (a == 13) throw Boom{a}; return -a - 100; } };
enum { K = 11 };
static void spy(Mock<Base> &m, int w) {
    switch (w) { case 0: Spy(Method(m, add)); break; case 1: Spy(Method(m, out)); break; case 2: Spy(Method(m, str)); break; case 3: Spy(Method(m, ref)); break; case 4: Spy(Method(m, cst)); break; case 5: Spy(Method(m, outer)); break; case 6: Spy(Method(m, fact)); break;
        case 7: SpyWithoutVerify(Method(m, own)); break; case 8: Spy(Method(m, nothing)); break; case 9: SpyWithoutVerify(Method(m, rv)); break; default: Spy(Method(m, last)); }
}
static void spy_args(Mock<Base> &m, int w) { switch (w) { case 0: SpyWithoutVerify(Method(m, add)); break; case 1: SpyWithoutVerify(Method(m, out)); break; case 4: SpyWithoutVerify(Method(m, cst)); break; default: spy(m, w); } }
struct Rig {
    std::unique_ptr<Base> o, twin; std::unique_ptr<Mock<Base>> m; Adapter rec; drv::Choices &c; bool spied[K] = {}; int calls[K] = {}; int off;
    Rig(drv::Choices &c) : c(c) { bool d = c.flip(); o.reset(d ? new Derived : new Base); twin.reset(d ? new Derived : new Base); m.reset(new Mock<Base>(*o)); off = d ? 100 : 0; }
    void dospy(int w) { c.notef("spy ", w); if (c.pick(4) == 0) spy_args(*m, w); else spy(*m, w); spied[w] = true; }
    // runs the same call on the spied object and on a plain twin; both must agree
    void call(int w) {
        int a = c.pick(5); static const int av[] = {0, 1, 2, 3, 13}; a = av[a]; int b = c.range(-1, 2); Base &x = m->get(); Base &y = *twin; CHECK(&x == o.get(), "get() is the spied object"); c.notef("call ", w, "(", a, ",", b, ")"); size_t l0 = x.log.size(), t0 = y.log.size(); size_t e0 = rec.evs.size();
        std::string rx, ry;
        for (int side = 0; side < 2; ++side) {
            Base &z = side ? y : x; std::ostringstream r;
            try { switch (w) {
                case 0: r << z.add(a, b); break;
                case 1: { int q = 5; std::string s = "s"; z.out(q, s, b); CHECK(z.addr == &q && z.saddr == &s && z.caddr == &b, "reference arguments of the original"); r << q << s; break; }
                case 2: r << z.str("ab", b); break; case 3: { int &q = z.ref(a); CHECK(&q == &z.cell[a & 3], "returned reference"); r << q; break; } case 4: r << const_cast<const Base &>(z).cst(a); break; case 5: r << z.outer(a); break; case 6: r << z.fact(a > 3 ? 4 : a); break;
                case 7: { std::unique_ptr<int> p(new int(a)); int *raw = p.get(); auto q = z.own(std::move(p), b); CHECK(q.get() == raw && !p, "move-only argument and result"); r << *q; break; } case 8: z.nothing(); break; case 9: { std::string s(size_t(a), 'x'); r << z.rv(std::move(s)) << "/" << s.size(); break; } default: r << z.last(a); } }
            catch (Boom &e) { r << "Boom" << e.n; } catch (std::string &e) { r << "S" << e; } catch (UnexpectedMethodCallException &) { r << "unexpected"; }
            (side ? ry : rx) = r.str();
        }
        drv::same(rx, ry, "result of call ", w, "(", a, ",", b, ")"); std::vector<int> lx(x.log.begin() + l0, x.log.end()), ly(y.log.begin() + t0, y.log.end()); drv::samev(lx, ly, "originals run by call ", w, "(", a, ",", b, ")"); drv::same(rec.evs.size(), e0, "events");
        note(w, a);
    }
    void note(int w, int a) { if (spied[w]) calls[w]++; if (w == 5) { if (spied[0]) calls[0]++; if (a != 13 && spied[4]) calls[4]++; } }
    int cnt(int w) { auto &k = *m; std::unordered_set<Invocation *> s; switch (w) { case 0: { auto x = Method(k, add); static_cast<ActualInvocationsSource &>(x).getActualInvocations(s); break; } default: ; } return int(s.size()); }
    void verify() {
        int all = 0; for (int i = 0; i < K; ++i) all += calls[i]; std::unordered_set<Invocation *> s; m->getActualInvocations(s); drv::same(int(s.size()), all, "recorded calls"); auto &k = *m; bool b = true;
        for (int w = 0; w < K; ++w) if (spied[w]) { int n = calls[w]; switch (w) { case 0: b = Verify(Method(k, add)).Exactly(n); break; case 1: b = Verify(Method(k, out)).Exactly(n); break; case 2: b = Verify(Method(k, str)).Exactly(n); break; case 3: b = Verify(Method(k, ref)).Exactly(n); break; case 4: b = Verify(Method(k, cst)).Exactly(n); break; case 5: b = Verify(Method(k, outer)).Exactly(n); break; case 6: b = Verify(Method(k, fact)).Exactly(n); break; case 7: b = Verify(Method(k, own)).Exactly(n); break; case 8: b = Verify(Method(k, nothing)).Exactly(n); break; case 9: b = Verify(Method(k, rv)).Exactly(n); break; default: b = Verify(Method(k, last)).Exactly(n); } CHECK(b, "method ", w, " was not recorded ", n, " times"); }
        b = VerifyNoOtherInvocations(k); CHECK(b, "unverified calls left");
    }
};
SCENARIO_N(one_method, 4000, 1.5) { Rig r(c); int w = c.pick(K); r.dospy(w); int n = c.range(1, 4); for (int i = 0; i < n; ++i) r.call(w); if (c.flip()) r.call(c.pick(K)); r.verify(); }
SCENARIO_N(any_methods, 3000, 2) { Rig r(c); int n = c.range(1, 12); for (int i = 0; i < n; ++i) { if (c.pick(3) == 0) r.dospy(c.pick(K)); else r.call(c.pick(K)); } for (int w = 0; w < K; ++w) r.call(w); r.verify(); }
// spied repeatedly with recorded arguments
SCENARIO_N(arguments, 2000, 1) {
    Rig r(c); auto &m = *r.m; Spy(Method(m, add)); Spy(Method(m, str)); Spy(Method(m, ref)); int n = c.range(1, 5); std::map<std::pair<int, int>, int> cnt; std::vector<std::pair<int, int>> order;
    for (int i = 0; i < n; ++i) { int a = c.pick(3), b = c.pick(3); if (c.pick(4) == 0) a = 13; try { drv::same(m.get().add(a, b), a + b + r.off, "result"); CHECK(a != 13, "no exception"); } catch (Boom &e) { CHECK(a == 13 && e.n == b, "exception"); } cnt[{a, b}]++; order.push_back({a, b}); }
    for (auto &k : cnt) { bool b = Verify(Method(m, add).Using(k.first.first, k.first.second)).Exactly(k.second); CHECK(b, "recorded arguments"); }
    std::string s = "keep"; drv::same(m.get().str(s, 2), std::string("keepkeep"), "string result"); drv::same(s, std::string("keep"), "caller's string"); s = "changed"; bool b = Verify(Method(m, str).Using(std::string("keep"), 2)).Once(); CHECK(b, "recorded string");
    if (n >= 2) { bool q = Verify(Method(m, add).Using(order[0].first, order[0].second) + Method(m, add).Using(order[1].first, order[1].second)).AtLeastOnce(); CHECK(q, "order of the recorded calls"); }
}
// spied and stubbed: the latest applicable phrase wins, the others stay
SCENARIO_N(spy_and_stub, 3000, 1.5) {
    Rig r(c); auto &m = *r.m; int n = c.range(1, 4); struct S { int kind, arg, val, used; }; std::vector<S> st; // 0 spy 1 stub Using(arg,_) always 2 stub once
    for (int i = 0; i < n; ++i) { S s{c.pick(4), c.pick(2), 500 + i, 0}; c.notef("phrase ", s.kind, " arg ", s.arg); switch (s.kind) { case 0: Spy(Method(m, add)); break; case 1: When(Method(m, add).Using(s.arg, _)).AlwaysReturn(s.val); break; case 2: When(Method(m, add)).AlwaysReturn(s.val); break; default: Spy(Method(m, add).Using(s.arg, _)); } st.push_back(s); int k = c.range(0, 2);
        for (int j = 0; j < k; ++j) { int a = c.pick(2); S *hit = nullptr; for (auto &x : st) if (x.kind == 0 || x.kind == 2 || x.arg == a) hit = &x; size_t l0 = m.get().log.size(); int got = -1; bool th = false; try { got = m.get().add(a, 7); } catch (UnexpectedMethodCallException &) { th = true; } drv::same(th, !hit, "unexpected call"); if (hit) { bool orig = hit->kind == 0 || hit->kind == 3; drv::same(got, orig ? a + 7 + r.off : hit->val, "result"); drv::same(m.get().log.size() - l0, size_t(orig ? 3 : 0), "originals run"); } drv::same(m.get().last(1), -1 - r.off, "other method"); drv::same(m.get().cst(4), 8, "other const method"); } }
}
// many methods of one class spied in one phrase; several spied objects
SCENARIO_N(several_objects, 1500, 1) {
    Base a_; Derived b_; Base plain_; Base &a = drv::hide(a_), &b = drv::hide<Base>(b_), &plain = drv::hide(plain_); Adapter rec; Mock<Base> ma(a), mb(b); Spy(Method(ma, add), Method(ma, last), Method(mb, add), Method(mb, last)); int n = c.range(1, 6), na = 0, nb = 0, la = 0, lb = 0;
    for (int i = 0; i < n; ++i) { int k = c.pick(6), x = c.pick(4); switch (k) { case 0: drv::same(a.add(x, 1), x + 1, "a.add"); ++na; break; case 1: drv::same(b.add(x, 1), x + 101, "b.add"); ++nb; break; case 2: drv::same(plain.add(x, 1), x + 1, "plain.add"); break; case 3: drv::same(a.last(x), -x, "a.last"); ++la; break; case 4: drv::same(b.last(x), -x - 100, "b.last"); ++lb; break; default: try { b.add(13, x); CHECK(false, "no exception"); } catch (Boom &e) { drv::same(e.n, x, "exception"); } ++nb; } }
    bool v = Verify(Method(ma, add)).Exactly(na); CHECK(v, "calls of a.add"); v = Verify(Method(mb, add)).Exactly(nb); CHECK(v, "calls of b.add"); v = Verify(Method(ma, last)).Exactly(la); CHECK(v, "calls of a.last"); v = Verify(Method(mb, last)).Exactly(lb); CHECK(v, "calls of b.last"); v = VerifyNoOtherInvocations(ma, mb); CHECK(v, "unverified calls");
}
// the original calls back into the spied object while other mocks are used
SCENARIO_N(nested, 1500, 1) {
    Rig r(c); auto &m = *r.m; bool sa = c.flip(), sc = c.flip(), so = c.flip(); Mock<IA> other; When(Method(other, f)).AlwaysReturn(3); if (sa) Spy(Method(m, add)); if (sc) Spy(Method(m, cst)); if (so) Spy(Method(m, outer)); int n = c.range(1, 4); int ca = 0, cc = 0, co = 0;
    for (int i = 0; i < n; ++i) { int a = c.pick(3) == 0 ? 13 : c.pick(3); bool th = false; int got = 0; try { got = m.get().outer(a); } catch (Boom &) { th = true; } drv::same(th, a == 13, "exception of the inner call"); if (!th) drv::same(got, a + 1 + r.off + 2 * a, "result"); co += so; ca += sa; cc += sc && !th; other.get().f(1); int d = m.get().add(1, 1); drv::same(d, 2 + r.off, "plain call"); ca += sa; }
    if (sa) { bool v = Verify(Method(m, add)).Exactly(ca); CHECK(v, "calls of add"); } if (sc) { bool v = Verify(Method(m, cst)).Exactly(cc); CHECK(v, "calls of cst"); } if (so) { bool v = Verify(Method(m, outer)).Exactly(co); CHECK(v, "calls of outer"); if (sa) { bool q = Verify(Method(m, outer) + Method(m, add)).Exactly(n); CHECK(q, "order of the outer and the inner call"); } }
}
// stubbed methods answer the calls that a spied original makes on its own object
SCENARIO_N(stubbed_inside, 500, 0.5) {
    Rig r(c); auto &m = *r.m; int n = c.range(1, 3); Spy(Method(m, outer)); if (c.flip()) Spy(Method(m, add)); When(Method(m, cst)).AlwaysReturn(40); bool sa = c.flip(); if (sa) When(Method(m, add)).AlwaysReturn(7); Base &x = drv::hide(m.get());
    for (int i = 0; i < n; ++i) { size_t l0 = x.log.size(); drv::same(x.outer(i), (sa ? 7 : i + 1 + r.off) + 40, "result of the original"); drv::same(x.log.size() - l0, size_t(sa ? 2 : 5), "originals run"); }
    bool v = Verify(Method(m, cst)).Exactly(n); CHECK(v, "calls of the stubbed method"); v = Verify(Method(m, outer)).Exactly(n); CHECK(v, "calls of the spied method");
}
DRIVER_MAIN
