// Events: who gets them, and when a verification phrase is evaluated.
#include "client.hpp"
#include <stdexcept>
struct A { virtual int f(int) = 0; virtual int g(int) = 0; virtual ~A() {} };
// one event of the chosen kind
struct Source { Mock<A> m; int kind; Source(int kind) : kind(kind) { When(Method(m, f)).AlwaysReturn(1); m.get().f(1); }
    int fire() { try { switch (kind) { case 0: m.get().g(1); break; case 1: Verify(Method(m, f)).Exactly(7); break; default: VerifyNoOtherInvocations(m); } return 0; } catch (UnexpectedMethodCallException &) { return 1; } catch (SequenceVerificationException &) { return 2; } catch (NoMoreInvocationsVerificationException &) { return 3; } catch (...) { return 4; } } };
static bool once(const Rec &r, int kind) { return r.unexpected == (kind == 0) && r.sequence == (kind == 1) && r.nomore == (kind == 2); }
PROOF(C13, every_listener_in_order)() { int kind = below(3), n = below(4); Source s(kind); Rec r[4], ad; int clock = 0; for (int i = 0; i < n; ++i) { r[i].clock = &clock; Fakeit.addEventHandler(r[i]); } ad.clock = &clock; Fakeit.setTestingFrameworkAdapter(ad); int e = s.fire(); Fakeit.resetTestingFrameworkAdapter(); Fakeit.clearEventHandlers();
    for (int i = 0; i < n; ++i) PROVE(once(r[i], kind) && r[i].at == i + 1, "every handler once, in registration order"); PROVE(once(ad, kind) && ad.at == n + 1, "then once the adapter"); PROVE(e == (kind == 0), "the adapter did not throw"); }
PROOF(C13, adapter_in_force)() { int kind = below(3), set = below(3); Source s(kind); Rec a, b, l; Fakeit.addEventHandler(l); if (set > 0) Fakeit.setTestingFrameworkAdapter(a); if (set > 1) Fakeit.setTestingFrameworkAdapter(b); int e = s.fire(); Fakeit.resetTestingFrameworkAdapter(); int e2 = s.fire(); Fakeit.clearEventHandlers();
    PROVE(a.all() == (set == 1) && b.all() == (set == 2), "the adapter set last gets it"); PROVE(e == (set ? (kind == 0) : kind + 1), "without one the standard adapter throws the exception of the event"); PROVE(e2 == kind + 1, "and after it was reset"); PROVE(l.all() == 2, "handlers get both"); }
PROOF(C13, cleared_handlers)() { int kind = below(3); Source s(kind); Rec a, b, c; Fakeit.addEventHandler(a); Fakeit.addEventHandler(b); s.fire(); Fakeit.clearEventHandlers(); s.fire(); Fakeit.addEventHandler(c); s.fire(); Fakeit.clearEventHandlers(); PROVE(once(a, kind) && once(b, kind), "no event after clearEventHandlers"); PROVE(once(c, kind), "handlers added later get later events only"); }
PROOF(C13, registered_twice)() { int kind = below(3); Source s(kind); Rec a; Fakeit.addEventHandler(a); Fakeit.addEventHandler(a); s.fire(); Fakeit.clearEventHandlers(); PROVE(a.all() == 2, "once for every registration"); }
PROOF(C13, all_kinds_one_after_the_other)() { Source s(0); Rec a, b; Fakeit.addEventHandler(a); Fakeit.addEventHandler(b); for (int i = 0; i < 3; ++i) { s.kind = i; s.fire(); } Fakeit.clearEventHandlers(); PROVE(a.unexpected == 1 && a.sequence == 1 && a.nomore == 1 && b.unexpected == 1 && b.sequence == 1 && b.nomore == 1, "every event once"); }
PROOF(C13, several_mocks)() { Source s(below(3)), t(below(3)); Rec a; Fakeit.addEventHandler(a); int x = s.fire(), y = t.fire(); Fakeit.clearEventHandlers(); PROVE(a.all() == 2 && x == s.kind + 1 && y == t.kind + 1, "the events of every mock"); }
PROOF(C13, passing_phrases_are_silent)() { Mock<A> m; When(Method(m, f)).AlwaysReturn(1); Listen l; m.get().f(1); Verify(Method(m, f)); Verify(Method(m, f)).Once(); VerifyNoOtherInvocations(m); PROVE(l.r.all() == 0, "no event"); }
struct Form : EventFormatter { int n[3] = {0, 0, 0}; std::string format(const UnexpectedMethodCallEvent &) override { ++n[0]; return "custom"; } std::string format(const SequenceVerificationEvent &) override { ++n[1]; return "custom"; } std::string format(const NoMoreInvocationsVerificationEvent &) override { ++n[2]; return "custom"; } };
PROOF(C13, custom_formatter)() { int kind = below(3), o = (kind + 1) % 3, p = (kind + 2) % 3; Source s(kind); Form a, b; Fakeit.setCustomEventFormatter(a); int e = s.fire(), k = a.n[kind]; PROVE(e == kind + 1 && k >= 1 && a.n[o] == 0 && a.n[p] == 0, "the custom formatter makes the text"); Fakeit.setCustomEventFormatter(b); s.fire(); PROVE(b.n[kind] >= 1 && a.n[kind] == k, "the one set last"); int l = b.n[kind]; Fakeit.resetCustomEventFormatter(); s.fire(); PROVE(b.n[kind] == l && a.n[kind] == k, "after the reset the default formatter"); }

// ---- when a phrase is evaluated.  `looked` counts the evaluations: the criterion is asked once per call and evaluation
struct Boom {};
static int boom() { throw Boom(); }
static void take(bool b, bool &r) { r = b; }
struct Bench { Mock<A> m; int looked = 0, calls; Rec h; Adapt a; std::function<bool(int)> crit; Bench(int calls) : calls(calls), crit([this](int) { ++looked; return true; }) { When(Method(m, f)).AlwaysReturn(1); for (int i = 0; i < calls; ++i) m.get().f(i); Fakeit.addEventHandler(h); } ~Bench() { Fakeit.clearEventHandlers(); } int reports() const { return h.all() == a.r.all() ? h.all() : -1; } };
#define V Verify(Method(b.m, f).Matching(b.crit))
#define AT_END(P, pass) { int n = below(3); Bench b(n); P; PROVE(b.looked == n, "evaluated once at the end of the statement"); PROVE(b.reports() == ((pass) ? 0 : 1), "a failure is reported once"); }
#define AS_BOOL(P, pass) { int n = below(3); Bench b(n); bool r = P; PROVE(r == (pass), "the value is whether it passed"); PROVE(b.looked == n, "evaluated once"); PROVE(b.reports() == 0, "nothing is reported"); }
#define NEGATED(P, pass) { int n = below(3); Bench b(n); bool r = !P; PROVE(r == !(pass), "the value is whether it failed"); PROVE(b.looked == n, "evaluated once"); PROVE(b.reports() == 0, "nothing is reported"); }
#define ABANDONED(P, pass) { int n = below(3); Bench b(n); bool thrown = false; try { int z = ((void)(P), boom()); (void)z; } catch (Boom &) { thrown = true; } PROVE(thrown && b.looked == 0 && b.reports() == 0, "not evaluated when abandoned by an exception"); }
#define IN_HANDLER(P, pass) { int n = below(3); Bench b(n); try { throw 1; } catch (int) { P; } PROVE(b.looked == n && b.reports() == ((pass) ? 0 : 1), "evaluated in a catch block like anywhere else"); }
PROOF(C14, end_default)() AT_END(V, n >= 1)
PROOF(C14, end_once)() AT_END(V.Once(), n == 1)
PROOF(C14, end_twice)() AT_END(V.Twice(), n == 2)
PROOF(C14, end_never)() AT_END(V.Never(), n == 0)
PROOF(C14, end_exactly)() AT_END(V.Exactly(2), n == 2)
PROOF(C14, end_at_least)() AT_END(V.AtLeast(2), n >= 2)
PROOF(C14, end_at_least_once)() AT_END(V.AtLeastOnce(), n >= 1)
PROOF(C14, end_any)() AT_END(V.Any(), true)
PROOF(C14, end_using)() AT_END(Using(b.m).Verify(Method(b.m, f).Matching(b.crit)).Once(), n == 1)
PROOF(C14, end_unverified)() AT_END(Unverified.Verify(Method(b.m, f).Matching(b.crit)).Once(), n == 1)
PROOF(C14, bool_default)() AS_BOOL(V, n >= 1)
PROOF(C14, bool_once)() AS_BOOL(V.Once(), n == 1)
PROOF(C14, bool_twice)() AS_BOOL(V.Twice(), n == 2)
PROOF(C14, bool_never)() AS_BOOL(V.Never(), n == 0)
PROOF(C14, bool_exactly)() AS_BOOL(V.Exactly(2), n == 2)
PROOF(C14, bool_at_least)() AS_BOOL(V.AtLeast(2), n >= 2)
PROOF(C14, bool_at_least_once)() AS_BOOL(V.AtLeastOnce(), n >= 1)
PROOF(C14, bool_any)() AS_BOOL(V.Any(), true)
PROOF(C14, bool_quantity)() AS_BOOL(V.Exactly(Quantity(1)), n == 1)
PROOF(C14, bool_using)() AS_BOOL(Using(b.m).Verify(Method(b.m, f).Matching(b.crit)).Once(), n == 1)
PROOF(C14, not_default)() NEGATED(V, n >= 1)
PROOF(C14, not_once)() NEGATED(V.Once(), n == 1)
PROOF(C14, not_never)() NEGATED(V.Never(), n == 0)
PROOF(C14, not_at_least)() NEGATED(V.AtLeast(2), n >= 2)
PROOF(C14, abandoned_default)() ABANDONED(V, n >= 1)
PROOF(C14, abandoned_once)() ABANDONED(V.Once(), n == 1)
PROOF(C14, abandoned_at_least)() ABANDONED(V.AtLeast(2), n >= 2)
PROOF(C14, catch_default)() IN_HANDLER(V, n >= 1)
PROOF(C14, catch_exactly)() IN_HANDLER(V.Exactly(2), n == 2)
PROOF(C14, any_quantity)(int q) { ASSUME(q >= 0); int n = below(3), how = below(4); Bench b(n); bool r = false, pass = how == 0 || how == 2 ? n == q : n >= q; switch (how) { case 0: r = V.Exactly(q); break; case 1: r = V.AtLeast(q); break; case 2: V.Exactly(q); break; default: V.AtLeast(q); } if (how < 2) PROVE(r == pass && b.reports() == 0, "value"); else PROVE(b.reports() == (pass ? 0 : 1), "report"); PROVE(b.looked == n, "evaluated once"); }
PROOF(C14, negative_counts)(int q) { ASSUME(q < 0); int n = below(3); Bench b(n); int bad = 0; try { V.Exactly(q); } catch (std::invalid_argument &) { ++bad; } try { V.AtLeast(q); } catch (std::invalid_argument &) { ++bad; } try { bool r = V.Exactly(q); (void)r; } catch (std::invalid_argument &) { ++bad; } try { bool r = V.AtLeast(q); (void)r; } catch (std::invalid_argument &) { ++bad; } try { V.Exactly(Quantity(q)); } catch (std::invalid_argument &) { ++bad; } try { V.AtLeast(Quantity(q)); } catch (std::invalid_argument &) { ++bad; } PROVE(bad == 6 && b.reports() == 0 && b.looked == 0, "a negative count throws std::invalid_argument and reports nothing"); }
PROOF(C14, argument_and_condition)() { int n = below(3); Bench b(n); bool x = false, y = false; take(V.Once(), x); if (V.Twice()) y = true; PROVE(x == (n == 1) && y == (n == 2) && b.reports() == 0 && b.looked == 2 * n, "conversions in an argument and a condition"); }
PROOF(C14, later_call_in_the_expression)() { int n = below(2); Bench b(n); ((void)(V.Exactly(2)), (void)b.m.get().f(9)); PROVE(b.reports() == (n == 1 ? 0 : 1), "evaluated at the end of the full expression"); }
PROOF(C14, adapter_exception)() { int n = below(2); Bench b(n); b.a.r.refuse = true; int how = ends([&] { V; }); PROVE(how == (n ? RETURNED : OTHER) && b.looked == n && b.h.all() == (n ? 0 : 1) && b.a.r.all() == (n ? 0 : 1), "the adapter's exception leaves the statement, reported once"); }
PROOF(C14, handler_exception)() { Bench b(1); b.h.refuse = true; int how = ends([&] { V.Never(); }); PROVE(how == OTHER && b.h.all() == 1 && b.looked == 1, "reported once"); }
PROOF(C14 C04, no_other_at_end)() { int n = below(3); Bench b(n); VerifyNoOtherInvocations(b.m); PROVE(b.h.nomore == (n > 0) && b.reports() == (n > 0), "a failure is reported once at the end of the statement"); }
PROOF(C14 C04, no_other_bool)() { int n = below(3); Bench b(n); bool r = VerifyNoOtherInvocations(b.m), s = !VerifyNoOtherInvocations(Method(b.m, f)); PROVE(r == (n == 0) && s == (n > 0) && b.reports() == 0, "converted to bool nothing is reported"); }
PROOF(C14, no_other_abandoned)() { int n = below(3); Bench b(n); bool thrown = false; try { int z = ((void)(VerifyNoOtherInvocations(b.m)), boom()); (void)z; } catch (Boom &) { thrown = true; } PROVE(thrown && b.reports() == 0, "not evaluated when abandoned"); }
PROOF(C14, no_other_in_handler)() { int n = below(2); Bench b(n); try { throw 1; } catch (int) { VerifyNoOtherInvocations(b.m); } PROVE(b.reports() == n, "evaluated in a catch block"); }
PROOF(C14, marks_of_a_phrase)() { int n = 1 + below(2), use = below(4); Bench b(n); switch (use) { case 0: V.Exactly(2); break; case 1: { bool r = V.Exactly(2); (void)r; break; } case 2: { bool r = !V.Exactly(2); (void)r; break; } default: try { int z = ((void)(V.Exactly(2)), boom()); (void)z; } catch (Boom &) {} } PROVE((bool)VerifyNoOtherInvocations(b.m) == (use != 3 && n == 2), "an evaluated passing phrase marks, an abandoned one does not"); }
PROOF(C14, place)() { int which = below(6), n = 0; Bench b(1); switch (which) { case 0: n = __LINE__; V.Never(); break; case 1: n = __LINE__; VerifyNoOtherInvocations(b.m); break; case 2: n = __LINE__; Using(b.m).Verify(Method(b.m, f)).Exactly(9); break; case 3: n = __LINE__; Unverified.Verify(Method(b.m, f)).AtLeast(9); break; case 4: n = __LINE__; Verify(Method(b.m, f), Method(b.m, f)); break; default: n = __LINE__; VerifyNoOtherInvocations(b.m, Method(b.m, f)); }
    PROVE(b.reports() == 1 && b.h.line == n && same(b.h.file, __FILE__) && same(b.h.in, __func__), "the event carries file, line and function of the phrase"); PROVE(b.a.r.line == n && same(b.a.r.file, __FILE__) && same(b.a.r.in, __func__), "at the adapter too"); }
static int far_line; static void far_away(Mock<A> &m) { far_line = __LINE__ + 1;
    Verify(Method(m, f)).Exactly(77); }
PROOF(C14, place_of_another_function)() { Bench b(1); far_away(b.m); PROVE(b.h.line == far_line && same(b.h.in, "far_away") && same(b.h.file, __FILE__), "the place of the phrase"); Bench c(1); [&] { VerifyNoOtherInvocations(c.m); }(); PROVE(same(c.h.in, "operator()"), "in a lambda"); }
