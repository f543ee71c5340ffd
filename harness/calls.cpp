// Calls of mocked methods: which stubbing answers, with which action, with which arguments.
#include "client.hpp"
struct K { long a, b; K(long a = 0, long b = 0) : a(a), b(b) {} K(const K &o) : a(o.a), b(o.b) {} K &operator=(const K &o) { a = o.a; b = o.b; return *this; } bool operator==(const K &o) const { return a == o.a && b == o.b; } };
struct Thrown { int v; };
struct A { virtual int f(int) = 0; virtual int g(int, double, K &, const K &, unsigned char) = 0; virtual void h(int &, int *) = 0; virtual K obj(K) = 0; virtual int &ref(int) = 0; virtual int two(int, int) = 0; virtual int f(double) = 0; virtual void none() = 0; virtual int c(int) const = 0; virtual ~A() {} };
#define F(m) OverloadedMethod(m, f, int(int))
#define SMALL(x) ASSUME((x) > -1000 && (x) < 1000)

// ---- which stubbing answers
PROOF(C01, one_stubbing)(int r, int a) { Mock<A> m; When(F(m)).AlwaysReturn(r); PROVE(m.get().f(a) == r, "the only stubbing answers every call"); PROVE((bool)Verify(F(m).Using(a)).Once(), "the call is in the history"); }
PROOF(C01, latest_matching)(int e1, int e2, int e3, int a) {
    Mock<A> m; When(F(m).Using(e1)).AlwaysReturn(1); When(F(m).Using(Lt(e2))).AlwaysReturn(2); When(F(m).Using(Gt(e3))).AlwaysReturn(3);
    int want = a > e3 ? 3 : a < e2 ? 2 : a == e1 ? 1 : 0, got = 0; Listen l;
    int how = ends([&] { got = m.get().f(a); });
    PROVE(got == want, "the most recent stubbing that accepts the argument answers");
    PROVE(how == (want ? RETURNED : UNEXPECTED), "no stubbing accepts: UnexpectedMethodCallException");
    PROVE(l.r.unexpected == (want ? 0 : 1) && l.r.unmocked == 0, "no stubbing accepts: one unmatched event");
    PROVE((bool)Verify(F(m)).Exactly(want ? 1 : 0), "an unmatched call does not enter the history"); }
PROOF(C01, four_stubbings)(int e1, int e2, int e3, int e4, int a) {
    Mock<A> m; int ran[4] = {0, 0, 0, 0};
    When(F(m).Using(Ge(e1))).AlwaysDo([&](int) { ++ran[0]; return 1; }); When(F(m).Using(Ne(e2))).AlwaysDo([&](int) { ++ran[1]; return 2; }); When(F(m).Using(Le(e3))).AlwaysDo([&](int) { ++ran[2]; return 3; }); When(F(m).Using(e4)).AlwaysDo([&](int) { ++ran[3]; return 4; });
    int want = a == e4 ? 4 : a <= e3 ? 3 : a != e2 ? 2 : a >= e1 ? 1 : 0, got = 0; ends([&] { got = m.get().f(a); });
    PROVE(got == want, "the most recent stubbing that accepts answers");
    PROVE(ran[0] == (want == 1) && ran[1] == (want == 2) && ran[2] == (want == 3) && ran[3] == (want == 4), "only its action runs, once"); }
PROOF(C01, replaced_for_all)(int a, int r1, int r2) { Mock<A> m; When(F(m)).AlwaysReturn(r1); PROVE(m.get().f(a) == r1, "first"); When(F(m)).AlwaysReturn(r2); PROVE(m.get().f(a) == r2, "the later stubbing"); PROVE(m.get().f(a) == r2, "the later stubbing, again"); }
PROOF(C01, other_methods)(int a, double d, int r1, int r2, int r3) {
    Mock<A> m, n; When(F(m)).AlwaysReturn(r1); When(OverloadedMethod(m, f, int(double))).AlwaysReturn(r2); When(F(n)).AlwaysReturn(r3); A &o = m.get();
    PROVE(o.f(a) == r1 && o.f(d) == r2 && n.get().f(a) == r3, "stubbings of other methods and other mocks do not answer"); }
PROOF(C01, event_carries_call)(int a, int e) { Mock<A> m; When(F(m).Using(e)).AlwaysReturn(1); ASSUME(a != e); Listen l; int before = 0, how;
    struct See : EventHandler { int arg = 0, n = 0; void handle(const UnexpectedMethodCallEvent &ev) override { ++n; auto *i = dynamic_cast<const ActualInvocation<int> *>(&ev.getInvocation()); arg = i ? std::get<0>(const_cast<ActualInvocation<int> *>(i)->getActualArguments()) : 0; } void handle(const SequenceVerificationEvent &) override {} void handle(const NoMoreInvocationsVerificationEvent &) override {} } see;
    Fakeit.addEventHandler(see); how = ends([&] { m.get().f(a); }); Fakeit.clearEventHandlers(); (void)before;
    PROVE(how == UNEXPECTED && see.n == 1 && see.arg == a, "the event carries the call with its arguments"); }
PROOF(C01, predicate_stubbing)(int lo, int hi, int a) { Mock<A> m; When(F(m).Matching([=](int x) { return x >= lo; })).AlwaysReturn(1); When(F(m).Matching([=](int x) { return x > hi; })).AlwaysReturn(2); int got = 0; ends([&] { got = m.get().f(a); }); PROVE(got == (a > hi ? 2 : a >= lo ? 1 : 0), "predicates decide like criteria"); }
PROOF(C01, exhausted_does_not_fall_back)(int a, int r1, int r2) { Mock<A> m; When(F(m)).AlwaysReturn(r1); When(F(m)).Return(r2); Listen l; PROVE(m.get().f(a) == r2, "the latest stubbing"); int got = 0; int how = ends([&] { got = m.get().f(a); }); PROVE(how == UNEXPECTED && l.r.unexpected == 1, "no other stubbing answers"); }
PROOF(C01, assignment_form)(int a, int r) { Mock<A> m; When(F(m)).AlwaysReturn(1); F(m) = [=](int x) { return x == a ? r : 0; }; PROVE(m.get().f(a) == r, "the assigned action answers"); }
PROOF(C01, recorded_during_action)(int a, int r) { Mock<A> m; When(F(m)).AlwaysDo([&](int) { When(F(m)).AlwaysReturn(r); return 1; }); PROVE(m.get().f(a) == 1, "answered by the stubbing chosen when the call arrived"); PROVE(m.get().f(a) == r, "then by the new one"); }
PROOF(C01, history_of_answered)(int a, int b, int e) { Mock<A> m; When(F(m).Using(Lt(e))).AlwaysReturn(1); ends([&] { m.get().f(a); }); ends([&] { m.get().f(b); }); PROVE((bool)Verify(F(m)).Exactly((a < e) + (b < e)), "exactly the answered calls are in the history"); PROVE((bool)Verify(F(m).Using(a)).Exactly(a < e ? (a == b ? 2 : 1) : 0), "with their arguments"); }
PROOF(C01, throwing_action_is_history)(int a) { Mock<A> m; When(F(m)).Throw(Thrown{3}); int how = ends([&] { m.get().f(a); }); PROVE(how == OTHER && (bool)Verify(F(m).Using(a)).Once(), "a call whose action throws is in the history"); }

// ---- actions in order
PROOF(C02, in_order)(int r1, int r2, int r3, int a) { Mock<A> m; When(F(m)).Return(r1, r2).Return(r3); A &o = m.get(); PROVE(o.f(a) == r1, "first action"); PROVE(o.f(a) == r2, "second action"); PROVE(o.f(a) == r3, "third action"); Listen l; PROVE(ends([&] { o.f(a); }) == UNEXPECTED && l.r.unexpected == 1 && l.r.unmocked == 0, "used up: one unexpected-call event and exception"); PROVE(ends([&] { o.f(a); }) == UNEXPECTED && l.r.unexpected == 2, "also the next time"); }
PROOF(C02, five_in_order)(int r1, int r2, int r3, int r4, int r5, int a) { Mock<A> m; When(F(m)).Return(r1, r2, r3, r4, r5); A &o = m.get(); int x1 = o.f(a), x2 = o.f(a), x3 = o.f(a), x4 = o.f(a), x5 = o.f(a); PROVE(x1 == r1 && x2 == r2 && x3 == r3 && x4 == r4 && x5 == r5, "recording order"); PROVE(ends([&] { o.f(a); }) == UNEXPECTED, "used up"); }
PROOF(C02, times)(int r1, int r2, int a) { Mock<A> m; When(F(m)).Return(3_Times(r1)).Return(2_Times(r2)); A &o = m.get(); PROVE(o.f(a) == r1 && o.f(a) == r1 && o.f(a) == r1, "n uses"); PROVE(o.f(a) == r2 && o.f(a) == r2, "then the next action"); PROVE(ends([&] { o.f(a); }) == UNEXPECTED, "used up"); }
PROOF(C02, times_zero)(int r1, int r2, int a) { Mock<A> m; When(F(m)).Return(0_Times(r1)).Return(r2); A &o = m.get(); PROVE(o.f(a) == r2, "an action recorded zero times answers no call"); PROVE(ends([&] { o.f(a); }) == UNEXPECTED, "used up"); }
PROOF(C02, times_of)(int r1, int r2, int a) { Mock<A> m; When(F(m)).Return(Times<2>::of(r1)).AlwaysReturn(r2); A &o = m.get(); int x1 = o.f(a), x2 = o.f(a), x3 = o.f(a), x4 = o.f(a); PROVE(x1 == r1 && x2 == r1 && x3 == r2 && x4 == r2, "Times<n>::of"); }
PROOF(C02, then_always)(int r1, int r2, int r3, int a) { Mock<A> m; When(F(m)).Return(r1).AlwaysReturn(r2); A &o = m.get(); int x1 = o.f(a), x2 = o.f(a), x3 = o.f(a), x4 = o.f(a); PROVE(x1 == r1 && x2 == r2 && x3 == r2 && x4 == r2, "an always action answers every later call"); }
PROOF(C02, throwing_actions)(int v, int r, int a) { Mock<A> m; When(F(m)).Throw(Thrown{v}).Return(r).Throw(Thrown{1}, Thrown{2}); A &o = m.get(); int got = 0; try { o.f(a); } catch (Thrown &t) { got = t.v; } PROVE(got == v, "the first action throws"); PROVE(o.f(a) == r, "a throwing action is used up"); try { o.f(a); } catch (Thrown &t) { got = t.v; } PROVE(got == 1, "third"); try { o.f(a); } catch (Thrown &t) { got = t.v; } PROVE(got == 2, "fourth"); PROVE(ends([&] { o.f(a); }) == UNEXPECTED, "used up"); }
PROOF(C02, throw_times)(int v, int r, int a) { Mock<A> m; Thrown t1{v}; When(F(m)).Throw(2_Times(t1)).Return(r); A &o = m.get(); int n = 0; for (int i = 0; i < 2; ++i) try { o.f(a); } catch (Thrown &t) { n += t.v == v; } PROVE(n == 2, "thrown twice"); PROVE(o.f(a) == r, "then the next action"); }
PROOF(C02, always_throw)(int v, int a) { Mock<A> m; When(F(m)).AlwaysThrow(Thrown{v}); A &o = m.get(); int n = 0; for (int i = 0; i < 3; ++i) try { o.f(a); } catch (Thrown &t) { n += t.v == v; } PROVE(n == 3, "thrown every time"); }
PROOF(C02, recursive)(int r2, int a) { Mock<A> m; int inner = 0; When(F(m)).Do([&](int x) { inner = m.get().f(x); return 1; }).Return(r2); A &o = m.get(); PROVE(o.f(a) == 1 && inner == r2, "a call from within an action gets the next action"); PROVE(ends([&] { o.f(a); }) == UNEXPECTED, "both are used up"); }
PROOF(C02, recursive_times)(int a) { Mock<A> m; int depth = 0, seen = 0; auto act = [&](int x) { ++seen; if (++depth < 3) m.get().f(x); return seen; }; When(F(m)).Do(3_Times(std::function<int(int)>(act))).Return(9); A &o = m.get(); o.f(a); PROVE(seen == 3, "the action recorded three times answers the three nested calls"); PROVE(o.f(a) == 9, "then the next one"); }
PROOF(C02, recursive_throw)(int a, int r) { Mock<A> m; When(F(m)).Do([&](int x) -> int { m.get().f(x); throw Thrown{1}; }).Return(5).Return(r); A &o = m.get(); PROVE(ends([&] { o.f(a); }) == OTHER, "throws"); PROVE(o.f(a) == r, "two actions are used up"); }
PROOF(C02, two_stubbings)(int e, int a, int r1, int r2, int r3, int r4) { Mock<A> m; When(F(m)).Return(r1, r2); When(F(m).Using(e)).Return(r3, r4); A &o = m.get(); ASSUME(a != e); int x1 = o.f(e), x2 = o.f(a), x3 = o.f(e), x4 = o.f(a); PROVE(x1 == r3 && x2 == r1 && x3 == r4 && x4 == r2, "every stubbing uses its own actions in order"); }
PROOF(C02, do_many)(int a) { Mock<A> m; SMALL(a); When(F(m)).Do([](int x) { return x + 1; }, [](int x) { return x + 2; }, [](int x) { return x + 3; }); A &o = m.get(); int x1 = o.f(a), x2 = o.f(a), x3 = o.f(a); PROVE(x1 == a + 1 && x2 == a + 2 && x3 == a + 3, "Do with several actions"); }
PROOF(C02, void_actions)(int a) { Mock<A> m; int n = 0; When(Method(m, none)).Return().Return().Return().Do([&] { ++n; }).Throw(Thrown{a}); A &o = m.get(); o.none(); o.none(); o.none(); PROVE(n == 0, "three defaults"); o.none(); PROVE(n == 1, "then the action"); int got = 0; try { o.none(); } catch (Thrown &t) { got = t.v; } PROVE(got == a, "then the exception"); PROVE(ends([&] { o.none(); }) == UNEXPECTED, "used up"); }

// ---- arguments
PROOF(C08, by_value_and_reference)(int a, double d, long k1, long k2, unsigned char u, int r) {
    Mock<A> m; K x(k1, k2), y(k2, k1), *px = nullptr; const K *py = nullptr; int ga = 0; double gd = 0; unsigned char gu = 0;
    When(Method(m, g)).AlwaysDo([&](int p, double q, K &s, const K &t, unsigned char v) { ga = p; gd = q; px = &s; py = &t; gu = v; return r; });
    int got = m.get().g(a, d, x, y, u);
    PROVE(got == r, "the caller gets what the action returns"); PROVE(ga == a && gu == u && (gd == d || d != d), "arguments by value have the values of the call"); PROVE(px == &x && py == &y, "arguments by reference are the caller's objects"); }
PROOF(C08, criteria_see_arguments)(int a, double d, long k1, long k2, unsigned char u) {
    Mock<A> m; K x(k1, k2), y(k2, k1), *px = nullptr; const K *py = nullptr; int ga = 0; double gd = 0; unsigned char gu = 0;
    When(Method(m, g).Matching([&](int p, double q, K &s, const K &t, unsigned char v) { ga = p; gd = q; px = &s; py = &t; gu = v; return true; })).AlwaysReturn(1);
    m.get().g(a, d, x, y, u);
    PROVE(ga == a && gu == u && (gd == d || d != d) && px == &x && py == &y, "a predicate receives the call's arguments, each at its own position"); }
PROOF(C08, writes_reach_caller)(int a, int b, int w1, int w2) { Mock<A> m; When(Method(m, h)).AlwaysDo([&](int &x, int *y) { x = w1; *y = w2; }); int p = a, q = b; m.get().h(p, &q); PROVE(p == w1 && q == w2, "what the action writes through references and pointers is in the caller's objects"); }
PROOF(C08, objects_by_value)(long k1, long k2, long l1, long l2) { Mock<A> m; K seen, arg(k1, k2); const K *at = nullptr; When(Method(m, obj)).AlwaysDo([&](K x) { seen = x; at = &x; return K(l1, l2); }); K got = m.get().obj(arg); PROVE(seen == arg && at != &arg, "an object argument arrives as a copy with the caller's value"); PROVE(got.a == l1 && got.b == l2, "the object returned by the action reaches the caller"); }
PROOF(C08, history_keeps_value)(int a, int b) { Mock<A> m; ASSUME(a != b); When(F(m)).AlwaysReturn(1); int v = a; m.get().f(v); v = b; PROVE((bool)Verify(F(m).Using(a)).Once() && (bool)Verify(F(m).Using(b)).Never(), "later changes of the variable do not alter the history"); }
PROOF(C08, history_keeps_object)(long k1, long k2) { Mock<A> m; ASSUME(k1 != k2); When(Method(m, obj)).AlwaysReturn(K()); K v(k1, 0); m.get().obj(v); v.a = k2; PROVE((bool)Verify(Method(m, obj).Using(K(k1, 0))).Once() && (bool)Verify(Method(m, obj).Using(K(k2, 0))).Never(), "an object argument is kept with the value it had"); }
PROOF(C08, action_argument_is_its_own)(int a, int b) { Mock<A> m; When(F(m)).AlwaysDo([&](int &x) { x = b; return 0; }); int v = a; m.get().f(v); PROVE(v == a, "an action cannot reach the caller's variable through a by-value parameter"); }
PROOF(C08, returns_reference)(int a) { Mock<A> m; int target = 5; When(Method(m, ref)).AlwaysReturn(target); PROVE(&m.get().ref(a) == &target, "a returned reference is the given object"); When(Method(m, ref)).AlwaysDo([&](int) -> int & { return target; }); PROVE(&m.get().ref(a) == &target, "also from an action"); }
PROOF(C08, throws_what_action_throws)(int v, int a) { Mock<A> m; When(F(m)).AlwaysDo([&](int) -> int { throw Thrown{v}; }); int got = 0; bool other = false; try { m.get().f(a); } catch (Thrown &t) { got = t.v; } catch (...) { other = true; } PROVE(got == v && !other, "the caller gets the exception that the action throws"); }
PROOF(C08, same_types_in_order)(int a, int b) { Mock<A> m; int p = 0, q = 0, s = 0, t = 0; When(Method(m, two).Matching([&](int x, int y) { s = x; t = y; return true; })).AlwaysDo([&](int x, int y) { p = x; q = y; return 0; }); m.get().two(a, b); PROVE(p == a && q == b && s == a && t == b, "two arguments of one type keep their order"); PROVE((bool)Verify(Method(m, two).Using(a, b)).Once(), "also in the history"); PROVE((bool)Verify(Method(m, two).Using(b, a)).Exactly(a == b ? 1 : 0), "and only there"); }
PROOF(C08, const_method)(int a, int r) { Mock<A> m; int p = 0; When(ConstOverloadedMethod(m, c, int(int))).AlwaysDo([&](int x) { p = x; return r; }); const A &o = m.get(); PROVE(o.c(a) == r && p == a, "const methods"); }
PROOF(C08, all_actions_see_arguments)(int a, int b) { Mock<A> m; int s1 = 0, s2 = 0; When(F(m)).Do([&](int x) { s1 = x; return 0; }).AlwaysDo([&](int x) { s2 = x; return 0; }); m.get().f(a); m.get().f(b); PROVE(s1 == a && s2 == b, "every call passes its own arguments"); }
