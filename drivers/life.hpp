// Two owned mocks and one spying mock driven by random operations, with a
// plain model of their stubbings, histories and data members.
#pragma once
#include "world.hpp"
namespace life {
using namespace world;

struct Tracked { static std::map<const Tracked *, int> &live() { static std::map<const Tracked *, int> m; return m; } static long &made() { static long n; return n; } static long &gone() { static long n; return n; }
    int n; Tracked(int k = 0, int j = 0) : n(k * 10 + j) { live()[this]++; ++made(); } Tracked(Tracked const &o) : n(o.n) { live()[this]++; ++made(); } ~Tracked() { live()[this]--; ++gone(); } };
struct IL {
    virtual int f(int) = 0; virtual int g(int) = 0; virtual int q(int, int) = 0; virtual ~IL() {} virtual int h(int) = 0;
    int before; int num; Tracked trk; std::string text; double dbl; int after;
};
struct Obj : IL { int calls = 0; Obj() { before = 1; num = 2; dbl = 3; after = 4; text = "obj"; } int f(int x) override { ++calls; return 1000 + x; } int g(int x) override { ++calls; return 2000 + x; } int q(int x, int) override { ++calls; return 3000 + x; } int h(int x) override { ++calls; return 4000 + x; } };

struct Stubbing { int crit; int arg; std::vector<int> rets; size_t used; bool always; };   // crit 0 any, 1 ==arg ; spy: always with rets empty
struct Done { int a; bool ver; };
struct Meth { bool bound = false; std::vector<Stubbing> st; std::vector<Done> hist; };
struct Model { Meth m[5]; bool num = false, trk = false, text = false, dbl = false; int vnum = 0, vtrk = 0; std::string vtext; double vdbl = 0; int vbefore = 0, vafter = 0; };

struct Life {
    Obj obj; std::unique_ptr<Mock<IL>> mk[3]; Model mo[3]; Adapter rec; drv::Choices &c; int serial = 0; long dt = 0;
    Life(drv::Choices &c) : c(c) { mk[0].reset(new Mock<IL>()); mk[1].reset(new Mock<IL>()); mk[2].reset(new Mock<IL>(obj)); mo[2].vnum = 2; mo[2].vbefore = 1; mo[2].vafter = 4; mo[2].vdbl = 3; mo[2].vtext = "obj"; }
    Mock<IL> &M(int k) { return *mk[k]; }
    template<class F> void on(int k, int w, F fn) { auto &m = M(k); switch (w) { case 0: fn(Method(m, f)); break; case 1: fn(Method(m, g)); break; case 2: fn(Method(m, h)); break; default: ; } }
    int raw(int k, int w, int a) { IL &o = M(k).get(); switch (w) { case 0: return o.f(a); case 1: return o.g(a); case 2: return o.h(a); default: return o.q(a, a + 1); } }
    // ---- operations
    void stub(int k, int w) {
        auto &m = M(k); Stubbing s; s.crit = c.pick(2); s.arg = s.crit ? c.pick(2) : 0; s.used = 0; int kind = c.pick(k == 2 ? 4 : 3); s.always = kind != 1; int a = ++serial, b = ++serial;
        mo[k].m[w].bound = true; c.notef("mock", k, " stub method ", w, " crit ", s.crit, "/", s.arg, " kind ", kind, " values ", a, ",", b);
        if (kind == 3) { s.crit = 0; s.always = true; switch (w) { case 0: Spy(Method(m, f)); break; case 1: Spy(Method(m, g)); break; case 2: Spy(Method(m, h)); break; default: Spy(Method(m, q)); } mo[k].m[w].st.push_back(s); return; }
        if (kind == 1) s.rets = {a, b}; else s.rets = {a};
#define ST(...) { if (kind == 0) When(__VA_ARGS__).AlwaysReturn(a); else if (kind == 1) When(__VA_ARGS__).Return(a, b); else When(__VA_ARGS__).AlwaysDo([a](auto...) { return a; }); }
        switch (w) {
            case 0: if (s.crit) ST(Method(m, f).Using(s.arg)) else ST(Method(m, f)) break; case 1: if (s.crit) ST(Method(m, g).Using(s.arg)) else ST(Method(m, g)) break;
            case 2: if (s.crit) ST(Method(m, h).Using(s.arg)) else ST(Method(m, h)) break; default: if (s.crit) ST(Method(m, q).Using(s.arg, _)) else ST(Method(m, q)) }
        mo[k].m[w].st.push_back(s);
    }
    // the outcome the model predicts: value, or -1 unmocked, -2 unmatched; original for the spy
    void call(int k, int w, int a) {
        Meth &me = mo[k].m[w]; int want = -1; bool orig = false; int event = 0; size_t e0 = rec.evs.size(); int oc = obj.calls;
        if (!me.bound) { if (k == 2) { orig = true; } else { want = -1; event = 1; } }
        else {
            Stubbing *s = nullptr; for (auto i = me.st.rbegin(); i != me.st.rend(); ++i) if (i->crit == 0 || i->arg == a) { s = &*i; break; }
            if (!s) { event = 2; }
            else { me.hist.push_back({a, false}); if (s->always) { if (s->rets.empty()) orig = true; else want = s->rets[0]; } else if (s->used < s->rets.size()) want = s->rets[s->used++]; else event = 2; }
        }
        if (orig) want = 1000 * (w == 0 ? 1 : w == 1 ? 2 : w == 3 ? 3 : 4) + a;
        c.notef("mock", k, " call method ", w, "(", a, ")");
        int got = -100; bool thrown = false; try { got = raw(k, w, a); } catch (UnexpectedMethodCallException &) { thrown = true; }
        drv::same(thrown, event != 0, "call of method ", w, " of mock ", k, " throws"); if (!event) drv::same(got, want, "result of method ", w, " of mock ", k);
        drv::same(rec.evs.size() - e0, size_t(event ? 1 : 0), "events of the call"); if (event) CHECK(rec.evs.back().kind == 3 && rec.evs.back().ut == (event == 1 ? UnexpectedType::Unmocked : UnexpectedType::Unmatched), "kind of the event of method ", w, " of mock ", k);
        drv::same(obj.calls - oc, orig ? 1 : 0, "original runs");
    }
    void dtor_call(int k) {
        Meth &me = mo[k].m[4]; size_t e0 = rec.evs.size(); long d0 = dt; bool del = c.flip(); int want = 0; bool ev = false; if (k == 2 && !me.bound) return;
        if (me.bound && me.st.empty()) return;
        if (me.bound) { Stubbing &s = me.st.back(); me.hist.push_back({0, false}); if (s.always) want = s.rets[0]; else if (s.used < s.rets.size()) want = s.rets[s.used++]; else ev = true; }
        if (ev) { me.hist.pop_back(); return; }     // destructors must not throw
        c.notef("mock", k, del ? " delete" : " explicit destructor"); IL *o = &M(k).get(); if (del) delete o; else o->~IL();
        drv::same(dt - d0, long(want), "destructor action run by mock ", k); drv::same(rec.evs.size(), e0, "events of the destructor");
    }
    void stub_dtor(int k) { auto &m = M(k); int a = ++serial; c.notef("mock", k, " stub destructor"); Stubbing s{0, 0, {a}, 0, true}; if (c.flip()) { Fake(Dtor(m)); s.rets = {0}; } else When(Dtor(m)).AlwaysDo([this, a]() { dt += a; }); mo[k].m[4].bound = true; mo[k].m[4].st.push_back(s); }
    void stub_member(int k) {
        if (k == 2) return; Model &o = mo[k]; int w = c.pick(4), a = ++serial; auto &m = M(k); long mk0 = Tracked::made(); c.notef("mock", k, " stub member ", w);
        switch (w) { case 0: if (o.num) return; m.Stub(&IL::num, a); o.num = true; o.vnum = a; break; case 1: if (o.trk) return; m.Stub(&IL::trk, a, 5); o.trk = true; o.vtrk = a * 10 + 5; break;
            case 2: if (o.text) return; { std::string t = "a text long enough to be on the heap " + std::to_string(a); m.Stub(&IL::text, t); o.text = true; o.vtext = t; } break; default: if (o.dbl) return; m.Stub(&IL::dbl, a + 0.5); o.dbl = true; o.vdbl = a + 0.5; }
        if (w == 1) drv::same(Tracked::made() - mk0, 1L, "objects constructed for the member");
    }
    void write_member(int k) {
        Model &o = mo[k]; IL &x = M(k).get(); int a = ++serial; c.notef("mock", k, " write members"); x.before = o.vbefore = a; x.after = o.vafter = a + 1; if (o.num || k == 2) x.num = o.vnum = a + 2; if (o.trk) x.trk.n = o.vtrk = a + 3; if (o.text || k == 2) x.text = o.vtext = "written and also long enough for the heap " + std::to_string(a); if (o.dbl || k == 2) x.dbl = o.vdbl = a + 4;
    }
    void check_members(int k) {
        Model &o = mo[k]; IL &x = M(k).get(); drv::same(x.before, o.vbefore, "member before the stubbed ones of mock ", k); drv::same(x.after, o.vafter, "member after the stubbed ones of mock ", k); drv::same(x.num, o.vnum, "int member of mock ", k); drv::same(x.dbl, o.vdbl, "double member of mock ", k);
        if (o.trk || k != 2) drv::same(x.trk.n, o.vtrk, "object member of mock ", k); if (o.text || k == 2) drv::same(x.text, o.vtext, "string member of mock ", k);
        if (k != 2) drv::same(Tracked::live()[&x.trk], o.trk ? 1 : 0, "live objects in the member of mock ", k);
    }
    size_t total(int k) { size_t n = 0; for (auto &m : mo[k].m) n += m.hist.size(); return n; }
    // the calls that any verification sees
    void check_history(int k, bool mention) {
        std::unordered_set<Invocation *> all; M(k).getActualInvocations(all); drv::same(all.size(), total(k), "invocations of mock ", k);
        bool allver = true; for (auto &m : mo[k].m) for (auto &d : m.hist) allver = allver && d.ver;
        size_t e0 = rec.evs.size(); bool none = VerifyNoOtherInvocations(M(k)); drv::same(none, allver, "VerifyNoOtherInvocations of mock ", k); CHECK(rec.evs.size() == e0, "events of a bool conversion");
        if (!mention) return; auto &m = M(k); c.notef("mock", k, " verify all methods");
        for (int w = 0; w < 4; ++w) { auto &h = mo[k].m[w].hist; int cnt = int(h.size()); bool b = false; mo[k].m[w].bound = true;
            for (int v = 0; v < 3; ++v) { int cv = 0; for (auto &z : h) cv += z.a == v; switch (w) { case 0: b = Verify(Method(m, f).Using(v)).Exactly(cv); break; case 1: b = Verify(Method(m, g).Using(v)).Exactly(cv); break; case 2: b = Verify(Method(m, h).Using(v)).Exactly(cv); break; default: b = Verify(Method(m, q).Using(v, _)).Exactly(cv); } CHECK(b, "calls of method ", w, "(", v, ") of mock ", k, " are not ", cv); }
            switch (w) { case 0: b = Verify(Method(m, f)).Exactly(cnt); break; case 1: b = Verify(Method(m, g)).Exactly(cnt); break; case 2: b = Verify(Method(m, h)).Exactly(cnt); break; default: b = Verify(Method(m, q)).Exactly(cnt); } CHECK(b, "number of calls of method ", w, " of mock ", k, " is not ", cnt);
            for (auto &z : h) z.ver = true; }
        if (mo[k].m[4].bound) { bool b = Verify(Dtor(m)).Exactly(int(mo[k].m[4].hist.size())); CHECK(b, "destructor calls of mock ", k); for (auto &z : mo[k].m[4].hist) z.ver = true; }
    }
    void reset(int k) {
        c.notef("mock", k, " Reset"); long g0 = Tracked::gone(); bool t = mo[k].trk; M(k).Reset(); drv::same(Tracked::gone() - g0, t ? 1L : 0L, "member objects destroyed by Reset"); Model n; if (k == 2) { n.vbefore = mo[2].vbefore; n.vafter = mo[2].vafter; n.vnum = mo[2].vnum; n.vtext = mo[2].vtext; n.vdbl = mo[2].vdbl; } mo[k] = n;
    }
    void clear(int k) { c.notef("mock", k, " ClearInvocationHistory"); M(k).ClearInvocationHistory(); for (auto &m : mo[k].m) m.hist.clear(); }
    void step(bool resets, bool clears) {
        int k = c.pick(3), op = c.pick(12);
        switch (op) { case 0: case 1: case 2: stub(k, c.pick(4)); break; case 3: case 4: case 5: { int w = c.pick(4); call(k, w, c.pick(3)); break; } case 6: stub_dtor(k); break; case 7: dtor_call(k); break; case 8: stub_member(k); break; case 9: write_member(k); break;
            case 10: if (clears) clear(k); else check_history(k, c.flip()); break; default: if (resets) reset(k); else check_members(k); }
    }
    void check_all(bool mention) {
        for (int k = 0; k < 3; ++k) { check_members(k); check_history(k, false); }
        for (int k = 0; k < 3; ++k) { for (int w = 0; w < 4; ++w) call(k, w, c.pick(3)); dtor_call(k); }
        if (mention) for (int k = 0; k < 3; ++k) check_history(k, true);
    }
};
}
