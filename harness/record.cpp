// The call side: what a mocked call does once it has reached the recorded body of its method.
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
#define OFF(id, T, f) extern "C" const unsigned long off_##id; const unsigned long off_##id = __builtin_offsetof(T, f)
#define X extern "C"
#define TI(id, ...) extern "C" const std::type_info *const ti_##id; const std::type_info *const ti_##id = &typeid(__VA_ARGS__)
#define BODY(p, ...) \
    typedef RecordedMethodBody<__VA_ARGS__> p##B; typedef ActionSequence<__VA_ARGS__> p##A; \
    OFF(p##_handlers, p##B, _invocationHandlers); OFF(p##_history, p##B, _actualInvocations); OFF(p##_fakeit, p##B, _fakeit); OFF(p##_method, p##B, _method); \
    OFF(p##_matcher, p##B::MatchedInvocationHandler, _matcher); OFF(p##_action, p##B::MatchedInvocationHandler, _invocationHandler); \
    OFF(p##_recorded, p##A, _recordedActions); OFF(p##_used, p##A, _usedActions)
#define TYPES(p, ...) TI(p##_mih, p##B::MatchedInvocationHandler); TI(p##_m, p##I::Matcher); TI(p##_h, ActualInvocationHandler<__VA_ARGS__>); TI(p##_i, p##I); TI(p##_a, Action<__VA_ARGS__>)
BODY(ii, int, int); typedef ActualInvocation<int> iiI;
BODY(v, void); typedef ActualInvocation<> vI;
BODY(li, long, int, long, int); typedef ActualInvocation<int, long, int> liI;
TYPES(ii, int, int); TYPES(v, void); TYPES(li, long, int, long, int);
OFF(ev_type, UnexpectedMethodCallEvent, _unexpectedType); OFF(ev_inv, UnexpectedMethodCallEvent, _invocation);
OFF(mi_id, MethodInfo, _id);
OFF(inv_ordinal, Invocation, _ordinal); OFF(inv_method, Invocation, _method); OFF(inv_verified, Invocation, _isVerified);
OFF(ii_args, iiI, actualArguments); OFF(li_args, liI, actualArguments); OFF(v_args, vI, actualArguments);
OFF(ii_accepted, iiI, _matcher); OFF(li_accepted, liI, _matcher); OFF(v_accepted, vI, _matcher);

X int rb_ii_call(iiB &b, int a) { return b.iiB::handleMethodInvocation(a); }
X void rb_v_call(vB &b) { b.vB::handleMethodInvocation(); }
X long rb_li_call(liB &b, int a, long c, int d) { return b.liB::handleMethodInvocation(a, c, d); }
X void rb_ii_add(iiB &b, iiI::Matcher *m, ActualInvocationHandler<int, int> *h) { b.addMethodInvocationHandler(m, h); }
X void rb_v_add(vB &b, vI::Matcher *m, ActualInvocationHandler<void> *h) { b.addMethodInvocationHandler(m, h); }
X void rb_li_add(liB &b, liI::Matcher *m, ActualInvocationHandler<long, int, long, int> *h) { b.addMethodInvocationHandler(m, h); }
X void rb_ii_history(const iiB &b, std::unordered_set<Invocation *> &into) { b.iiB::getActualInvocations(into); }
X void rb_ii_scan(iiB &b, const std::function<void(iiI &)> &f) { b.scanActualInvocations(f); }
X void rb_ii_clear(iiB &b) { b.iiB::clear(); }
X bool rb_ii_of(iiB &b, MethodInfo &m) { return b.isOfMethod(m); }

X int as_ii_call(iiA &s, ArgumentsTuple<int> &a) { return s.iiA::handleMethodInvocation(a); }
X void as_v_call(vA &s, ArgumentsTuple<> &a) { s.vA::handleMethodInvocation(a); }
X void as_ii_add(iiA &s, Action<int, int> *a) { s.AppendDo(a); }
X void as_v_add(vA &s, Action<void> *a) { s.AppendDo(a); }
X void as_ii_clear(iiA &s) { s.clear(); }

typedef Repeat<int, int> RP; typedef RepeatForever<int, int> RF; typedef ReturnDelegateValue<int, int> RD; typedef ReturnDefaultValue<int, int> RV;
typedef Repeat<long, int, long, int> RP3;
OFF(rp_times, RP, times); OFF(rp_f, RP, f); OFF(rf_f, RF, f); OFF(rd_f, RD, _delegate); OFF(rp3_times, RP3, times); OFF(rp3_f, RP3, f);
X int rp_invoke(RP &r, const ArgumentsTuple<int> &a) { return r.RP::invoke(a); }
X long rp3_invoke(RP3 &r, const ArgumentsTuple<int, long, int> &a) { return r.RP3::invoke(a); }
X bool rp_done(RP &r) { return r.RP::isDone(); }
X int rf_invoke(RF &r, const ArgumentsTuple<int> &a) { return r.RF::invoke(a); }
X bool rf_done(RF &r) { return r.RF::isDone(); }
X int rd_invoke(RD &r, const ArgumentsTuple<int> &a) { return r.RD::invoke(a); }
X bool rd_done(RD &r) { return r.RD::isDone(); }
X int rv_invoke(RV &r, const ArgumentsTuple<int> &a) { return r.RV::invoke(a); }
X bool rv_done(RV &r) { return r.RV::isDone(); }
X bool rp_new(long n, std::function<int(int &)> *f) { RP r(*f, n); return r.times == n && !r.f == !*f; }
X bool rp_new1(std::function<int(int &)> *f) { RP r(*f); return r.times == 1; }
X bool no_more_done(iiA::NoMoreRecordedAction &a) { return a.iiA::NoMoreRecordedAction::isDone(); }
X int no_more_invoke(iiA::NoMoreRecordedAction &a, const ArgumentsTuple<int> &t) { return a.iiA::NoMoreRecordedAction::invoke(t); }

// what is stored by addMethodInvocationHandler, read back with the library's own accessors
#define ADDED(p, ...) \
X bool rb_##p##_added(p##B &b, p##I::Matcher *m, ActualInvocationHandler<__VA_ARGS__> *h) { b.addMethodInvocationHandler(m, h); \
    p##B::MatchedInvocationHandler &e = b.asMatchedInvocationHandler(*b._invocationHandlers.back()); return &e.getMatcher() == m && &e != nullptr; } \
X void rb_##p##_added_acts(p##B &b, p##I::Matcher *m, ActualInvocationHandler<__VA_ARGS__> *h, ArgumentsTuple<p##T> &a) { b.addMethodInvocationHandler(m, h); \
    p##B::MatchedInvocationHandler &e = b.asMatchedInvocationHandler(*b._invocationHandlers.back()); e.p##B::MatchedInvocationHandler::handleMethodInvocation(a); }
#define iiT int
#define vT
#define liT int, long, int
ADDED(ii, int, int)
ADDED(v, void)
ADDED(li, long, int, long, int)

// events
OFF(fc_listeners, FakeitContext, _eventListeners);
X void fc_unexpected(FakeitContext &c, const UnexpectedMethodCallEvent &e) { c.FakeitContext::handle(e); }
X void fc_sequence(FakeitContext &c, const SequenceVerificationEvent &e) { c.FakeitContext::handle(e); }
X void fc_nomore(FakeitContext &c, const NoMoreInvocationsVerificationEvent &e) { c.FakeitContext::handle(e); }
X void fc_add(FakeitContext &c, EventHandler &h) { c.addEventHandler(h); }
X void fc_clear(FakeitContext &c) { c.clearEventHandlers(); }
OFF(df_adapter, DefaultFakeit, _testingFrameworkAdapter); OFF(df_formatter, DefaultFakeit, _customFormatter); OFF(df_own, DefaultFakeit, _formatter);
X EventHandler *df_get(DefaultFakeit &c) { return &c.DefaultFakeit::getTestingFrameworkAdapter(); }
X EventFormatter *df_fmt(DefaultFakeit &c) { return &c.DefaultFakeit::getEventFormatter(); }
X void df_set(DefaultFakeit &c, EventHandler &h) { c.setTestingFrameworkAdapter(h); }
X void df_unset(DefaultFakeit &c) { c.resetTestingFrameworkAdapter(); }
X void df_setf(DefaultFakeit &c, EventFormatter &h) { c.setCustomEventFormatter(h); }
X void df_unsetf(DefaultFakeit &c) { c.resetCustomEventFormatter(); }
