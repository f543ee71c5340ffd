// The actions made by the parts of a phrase, and what happens when they run.
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
using namespace fakeit::placeholders;
#define X extern "C"
#define TI(id, ...) extern "C" const std::type_info *const ti_##id; const std::type_info *const ti_##id = &typeid(__VA_ARGS__)
template<class R, class... A> struct Grab : MethodStubbingProgress<R, A...> { Action<R, A...> *a = nullptr; int n = 0; MethodStubbingProgress<R, A...> &DoImpl(Action<R, A...> *x) override { a = x; n++; return *this; } };
template<class R, class... A> struct Grab2 : MethodStubbingProgress<R, A...> { Action<R, A...> *a[3]; int n = 0; MethodStubbingProgress<R, A...> &DoImpl(Action<R, A...> *x) override { a[n++] = x; return *this; } };
struct Err { long code; };
TI(err, Err);
X int act_return(int v, int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.Return(v); *before = g.a->isDone(); int r = g.a->invoke(t); *done = g.a->isDone(); return r; }
X int act_always(int v, int x, bool *before, bool *done, int *again) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.AlwaysReturn(v); *before = g.a->isDone(); int r = g.a->invoke(t); *done = g.a->isDone(); *again = g.a->invoke(t); return r; }
X int act_return_first(int v, int w, int x) { ArgumentsTuple<int> t(x); Grab2<int, int> g; g.Return(v, w); return g.a[0]->invoke(t); }
X int act_return_second(int v, int w, int x) { ArgumentsTuple<int> t(x); Grab2<int, int> g; g.Return(v, w); return g.a[1]->invoke(t); }
X int act_return_third(int v, int w, int z, int x) { ArgumentsTuple<int> t(x); Grab2<int, int> g; g.Return(v, w, z); return g.a[2]->invoke(t); }
X int act_return_times(int v, long n, int x, bool *before, bool *done, int *again) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.Return(Quantifier<int>(n, v)); *before = g.a->isDone(); int r = g.a->invoke(t); *done = g.a->isDone(); *again = g.a->invoke(t); return r; }
X int *act_return_ref(int &v, int x) { ArgumentsTuple<int> t(x); Grab<int &, int> g; g.Return(v); return &g.a->invoke(t); }
X int *act_always_ref(int &v, int x) { ArgumentsTuple<int> t(x); Grab<int &, int> g; g.AlwaysReturn(v); return &g.a->invoke(t); }
X int act_throw(const Err &e, int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.Throw(e); return g.a->invoke(t); }
X int act_always_throw(const Err &e, int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.AlwaysThrow(e); return g.a->invoke(t); }
X int act_throw_times(const Err &e, long n, int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.Throw(Quantifier<Err>(n, e)); return g.a->invoke(t); }
X void act_void_throw(const Err &e, int x) { ArgumentsTuple<int> t(x); Grab<void, int> g; g.Throw(e); g.a->invoke(t); }
X void act_void_return(int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); Grab<void, int> g; g.Return(); *before = g.a->isDone(); g.a->invoke(t); *done = g.a->isDone(); }
X int act_set(int v, int a, int *p, int x) { ArgumentsTuple<int *, int> t(p, x); Grab<int, int *, int> g; g.ReturnAndSet(std::move(v), a); return g.a->invoke(t); }
X int act_set2(int v, int a, long b, int *p, long &q, int *again) { ArgumentsTuple<int *, long &> t(p, q); Grab<int, int *, long &> g; g.ReturnAndSet(std::move(v), a, b); int r = g.a->invoke(t); *again = g.a->invoke(t); return r; }
X int act_always_set(int v, int a, long b, int *p, long &q, int *again) { ArgumentsTuple<int *, long &> t(p, q); Grab<int, int *, long &> g; g.AlwaysReturnAndSet(std::move(v), a, b); int r = g.a->invoke(t); *again = g.a->invoke(t); return r; }
X void act_void_set(int a, long b, int *p, long &q) { ArgumentsTuple<int *, long &> t(p, q); Grab<void, int *, long &> g; g.ReturnAndSet(a, b); g.a->invoke(t); }
X void act_void_always_set(int a, long b, int *p, long &q) { ArgumentsTuple<int *, long &> t(p, q); Grab<void, int *, long &> g; g.AlwaysReturnAndSet(a, b); g.a->invoke(t); }
X int act_place(int v, int a, int b, int *p, int x, int *q, int *again) { ArgumentsTuple<int *, int, int *> t(p, x, q); Grab<int, int *, int, int *> g; g.ReturnAndSet(std::move(v), _3 <= a, _1 <= b); int r = g.a->invoke(t); *again = g.a->invoke(t); return r; }
X int act_place_one(int v, int b, int *p, int x, int *q, int *again) { ArgumentsTuple<int *, int, int *> t(p, x, q); Grab<int, int *, int, int *> g; g.ReturnAndSet(std::move(v), _3 <= b); int r = g.a->invoke(t); *again = g.a->invoke(t); return r; }
X void act_void_place(int a, int b, int *p, int x, int *q) { ArgumentsTuple<int *, int, int *> t(p, x, q); Grab<void, int *, int, int *> g; g.ReturnAndSet(_1 <= a, _3 <= b); g.a->invoke(t); }
X int act_do(int (*f)(int &), int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.Do(f); return g.a->invoke(t); }
X int act_always_do(int (*f)(int &), int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; g.AlwaysDo(f); return g.a->invoke(t); }

// values that are spoilt when they are moved from
struct Mv { long v; Mv() : v(77) {} explicit Mv(long n) : v(n) {} Mv(const Mv &o) : v(o.v) {} Mv(Mv &&o) : v(o.v) { o.v = -1; } Mv &operator=(const Mv &o) { v = o.v; return *this; } Mv &operator=(Mv &&o) { v = o.v; o.v = -1; return *this; } };
#define TWICE(g) { ArgumentsTuple<int> t(x); { Mv m(g.a->invoke(t)); *first = m.v; } { Mv m(g.a->invoke(t)); *again = m.v; } }
X void mv_times(const Mv &v, int x, long *first, long *again) { Grab<Mv, int> g; g.Return(Quantifier<Mv>(2, v)); TWICE(g) }
X void mv_always(const Mv &v, int x, long *first, long *again) { Grab<Mv, int> g; g.AlwaysReturn(v); TWICE(g) }
X void mv_default(int x, long *first, long *again) { Grab<Mv, int> g; g.AlwaysReturn(); TWICE(g) }
X void mv_fake(int x, long *first, long *again) { struct { Action<Mv, int> *a; } g; g.a = new ReturnDefaultValue<Mv, int>(); TWICE(g) }
#define TWICES(g) { ArgumentsTuple<Mv *, int> t(p, 1); { Mv m(g.a->invoke(t)); *first = m.v; *set = p->v; } { Mv m(g.a->invoke(t)); *again = m.v; } }
X void mv_set(long v, long a, Mv *p, long *first, long *set, long *again) { Grab<Mv, Mv *, int> g; g.AlwaysReturnAndSet(Mv(v), Mv(a)); TWICES(g) }
X void mv_place(long v, long a, Mv *p, long *first, long *set, long *again) { Grab<Mv, Mv *, int> g; g.AlwaysReturnAndSet(Mv(v), _1 <= Mv(a)); TWICES(g) }
#define TWICEV(g) { ArgumentsTuple<Mv *, int> t(p, 1); g.a->invoke(t); *set = p->v; g.a->invoke(t); }
X void mv_void_set(long a, Mv *p, long *set) { Grab<void, Mv *, int> g; g.AlwaysReturnAndSet(Mv(a)); TWICEV(g) }
X void mv_void_place(long a, Mv *p, long *set) { Grab<void, Mv *, int> g; g.AlwaysReturnAndSet(_1 <= Mv(a)); TWICEV(g) }
X void mv_throw(const Mv &v, int x) { Grab<int, int> g; g.AlwaysThrow(v); ArgumentsTuple<int> t(x); try { g.a->invoke(t); } catch (Mv &m) { m.v = 0; } g.a->invoke(t); }
TI(mv, Mv);

// the variable that was given changes after the phrase was written
X int kept_return(int v, int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; { int u = v; g.Return(u); u = u + 1; } return g.a->invoke(t); }
X int kept_always(int v, int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; { int u = v; g.AlwaysReturn(u); u = u + 1; } return g.a->invoke(t); }
X int kept_times(int v, int x) { ArgumentsTuple<int> t(x); Grab<int, int> g; { int u = v; g.Return(Quantifier<int>(2, u)); u = u + 1; } return g.a->invoke(t); }
#define KEPT_THROW(id, R, W) X R id(const Err &e, int x) { ArgumentsTuple<int> t(x); Grab<R, int> g; { Err u = e; g.W; u.code = u.code + 1; } return g.a->invoke(t); }
KEPT_THROW(kept_throw, int, Throw(u)) KEPT_THROW(kept_always_throw, int, AlwaysThrow(u)) KEPT_THROW(kept_throw_times, int, Throw(Quantifier<Err>(2, u)))
KEPT_THROW(kept_void_throw, void, Throw(u)) KEPT_THROW(kept_void_always_throw, void, AlwaysThrow(u)) KEPT_THROW(kept_void_throw_times, void, Throw(Quantifier<Err>(2, u)))
#define SPOIL a = a + 1; b = b + 1;
X int kept_set(int v, int a, long b, int *p, long &q) { ArgumentsTuple<int *, long &> t(p, q); Grab<int, int *, long &> g; g.ReturnAndSet(std::move(v), a, b); SPOIL return g.a->invoke(t); }
X void kept_void_set(int a, long b, int *p, long &q) { ArgumentsTuple<int *, long &> t(p, q); Grab<void, int *, long &> g; g.AlwaysReturnAndSet(a, b); SPOIL g.a->invoke(t); }
X int kept_place(int v, int a, int b, int *p, int x, int *q) { ArgumentsTuple<int *, int, int *> t(p, x, q); Grab<int, int *, int, int *> g; g.AlwaysReturnAndSet(std::move(v), _3 <= a, _1 <= b); SPOIL return g.a->invoke(t); }
X void kept_void_place(int a, int b, int *p, int x, int *q) { ArgumentsTuple<int *, int, int *> t(p, x, q); Grab<void, int *, int, int *> g; g.ReturnAndSet(_1 <= a, _3 <= b); SPOIL g.a->invoke(t); }

static int nope(int &) { return 0; }
static void vnope(int &) {}
// how often an action is used
X void mark(const void *a);
#define COUNT(id, R, ...) X void id(long n, int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); Grab<R, int> g; g.__VA_ARGS__; *before = g.a->isDone(); try { g.a->invoke(t); } catch (Err &) {} *done = g.a->isDone(); }
COUNT(count_do, int, Do(Quantifier<int (*)(int &)>(n, nope))) COUNT(count_throw, int, Throw(Quantifier<Err>(n, Err()))) COUNT(count_return, int, Return(Quantifier<int>(n, 1)))
COUNT(count_void_do, void, Do(Quantifier<void (*)(int &)>(n, vnope))) COUNT(count_void_throw, void, Throw(Quantifier<Err>(n, Err()))) COUNT(count_void_return, void, Return(Quantifier<void>(n)))
#define EVER(id, R, ...) X void id(int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); Grab<R, int> g; g.__VA_ARGS__; *before = g.a->isDone(); mark(g.a); try { g.a->invoke(t); } catch (Err &) {} mark(g.a); *done = g.a->isDone(); }
EVER(ever_do, int, AlwaysDo(nope)) EVER(ever_throw, int, AlwaysThrow(Err())) EVER(ever_return, int, AlwaysReturn(1)) EVER(ever_default, int, AlwaysReturn())
EVER(ever_void_do, void, AlwaysDo(vnope)) EVER(ever_void_throw, void, AlwaysThrow(Err())) EVER(ever_void_return, void, AlwaysReturn())
X void ever_fake(int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); Action<int, int> *a = new ReturnDefaultValue<int, int>(); *before = a->isDone(); mark(a); a->invoke(t); mark(a); *done = a->isDone(); }
X void ever_spied(int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); Action<int, int> *a = new ReturnDelegateValue<int, int>(nope); *before = a->isDone(); mark(a); a->invoke(t); mark(a); *done = a->isDone(); }
X void ever_set(int a, int *p, bool *before, bool *done) { ArgumentsTuple<int *> t(p); Grab<int, int *> g; g.AlwaysReturnAndSet(1, a); *before = g.a->isDone(); mark(g.a); g.a->invoke(t); mark(g.a); *done = g.a->isDone(); }
X void ever_void_set(int a, int *p, bool *before, bool *done) { ArgumentsTuple<int *> t(p); Grab<void, int *> g; g.AlwaysReturnAndSet(_1 <= a); *before = g.a->isDone(); mark(g.a); g.a->invoke(t); mark(g.a); *done = g.a->isDone(); }

// the actions of whole Fake and Spy phrases
template<class R> struct Root : StubbingContext<R, int>, SpyingContext<R, int> {
    R (*f)(int &); Action<R, int> *a = nullptr; int n = 0;
    Root(R (*f)(int &)) : f(f) {}
    void appendAction(Action<R, int> *x) override { a = x; } void commit() override { n++; }
    std::function<R(int &)> getOriginalMethodCopyArgs() override { return f; } std::function<R(int &)> getOriginalMethodForwardArgs() override { return f; }
};
#define PHRASE(id, R, f, C, F) X void ever_##id(int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); Root<R> r(f); F functor; functor(static_cast<const C &>(r)); *before = r.a->isDone(); mark(r.a); r.a->invoke(t); mark(r.a); *done = r.a->isDone(); }
typedef StubbingContext<int, int> SI; typedef StubbingContext<void, int> SV; typedef SpyingContext<int, int> YI; typedef SpyingContext<void, int> YV;
PHRASE(fake_phrase, int, nope, SI, FakeFunctor) PHRASE(fake_void_phrase, void, vnope, SV, FakeFunctor) PHRASE(spy_phrase, int, nope, YI, SpyFunctor) PHRASE(spy_void_phrase, void, vnope, YV, SpyFunctor) PHRASE(spy_without_phrase, int, nope, YI, SpyWithoutVerifyFunctor)
X int fake_value(int x, int *n) { ArgumentsTuple<int> t(x); Root<int> r(nope); FakeFunctor functor; functor(static_cast<const SI &>(r)); *n = r.n; return r.a->invoke(t); }
X int spy_value(int (*f)(int &), int x, int *n) { ArgumentsTuple<int> t(x); Root<int> r(f); SpyFunctor functor; functor(static_cast<const YI &>(r)); *n = r.n; return r.a->invoke(t); }
X int spy_without_value(int (*f)(int &), int x, int *n) { ArgumentsTuple<int> t(x); Root<int> r(f); SpyWithoutVerifyFunctor functor; functor(static_cast<const YI &>(r)); *n = r.n; return r.a->invoke(t); }

// the action of an assignment phrase
template<class R> struct Held : MethodMockingContext<R, int>::Context {
    int n = 0;
    std::function<R(int &)> getOriginalMethodCopyArgs() override { return nullptr; } std::function<R(int &)> getOriginalMethodForwardArgs() override { return nullptr; }
    std::string getMethodName() override { return ""; } void setMethodDetails(std::string, std::string) override {} bool isOfMethod(MethodInfo &) override { return true; }
    void addMethodInvocationHandler(typename ActualInvocation<int>::Matcher *, ActualInvocationHandler<R, int> *) override { n++; }
    void scanActualInvocations(const std::function<void(ActualInvocation<int> &)> &) override {} ActualInvocationsSource &getInvolvedMock() override { return *(ActualInvocationsSource *) this; }
};
#define ASSIGN(id, R, v) X void ever_##id(int x, bool *before, bool *done) { ArgumentsTuple<int> t(x); MockingContext<R, int> *c = new MockingContext<R, int>(new Held<R>); *c = v; \
    Action<R, int> *a = static_cast<Action<R, int> *>(c->_impl->_recordedActionSequence->_recordedActions[0].get()); *before = a->isDone(); mark(a); a->invoke(t); mark(a); *done = a->isDone(); }
ASSIGN(assign_value, int, 1) ASSIGN(assign_body, int, nope) ASSIGN(assign_void_body, void, vnope)
