// The binding side: proxies, virtual tables, mocks and the contexts of phrases.
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
#define OFF(id, T, f) extern "C" const unsigned long off_##id; const unsigned long off_##id = __builtin_offsetof(T, f)
#define NUM(id, v) extern "C" const unsigned long off_##id; const unsigned long off_##id = (v)
#define X extern "C"
#define TI(id, ...) extern "C" const std::type_info *const ti_##id; const std::type_info *const ti_##id = &typeid(__VA_ARGS__)
#define FN(id, T, f) extern "C" T const fn_##id; T const fn_##id = f
struct K { virtual int f(int); virtual void g(); virtual ~K(); virtual long h(int, long, int); int x; long y; };
typedef DynamicProxy<K> P; typedef MockImpl<K> MI; typedef FakeObject<K> FO; typedef VirtualTable<K> VT;
OFF(p_instance, P, instance); OFF(p_orig, P, originalVtHandle); OFF(p_clone, P, _cloneVt); OFF(p_mocks, P, _methodMocks); OFF(p_members, P, _members); OFF(p_offsets, P, _offsets); OFF(p_handlers, P, _invocationHandlers);
OFF(ih_mocks, InvocationHandlers, _methodMocks); OFF(ih_offsets, InvocationHandlers, _offsets);
NUM(k_size, sizeof(K)); OFF(k_x, K, x); OFF(k_y, K, y); NUM(p_size, sizeof(P));
OFF(mi_proxy, MI, _proxy); OFF(mi_owner, MI, _instanceOwner); OFF(mi_fakeit, MI, _fakeit);
OFF(mp_id, MethodProxy, _id); OFF(mp_offset, MethodProxy, _offset); OFF(mp_fn, MethodProxy, _vMethod);
TI(source, ActualInvocationsSource); TI(container, ActualInvocationsContainer); TI(k, K);
typedef RecordedMethodBody<int, int> RBf; typedef RecordedMethodBody<void> RBg; typedef RecordedMethodBody<long, int, long, int> RBh;
TI(rb_f, RBf); TI(rb_g, RBg); TI(rb_h, RBh);

X Destructible *ih_get(InvocationHandlers &h, unsigned id) { return h.InvocationHandlers::getInvocatoinHandlerPtrById(id); }
X void ih_new(InvocationHandlers *h, std::vector<std::shared_ptr<Destructible>> &m, std::vector<unsigned> &o) { new (h) InvocationHandlers(m, o); }
X void p_sources(const P &p, std::vector<ActualInvocationsSource *> &into) { p.getMethodMocks(into); }
X void p_containers(const P &p, std::vector<ActualInvocationsContainer *> &into) { p.getMethodMocks(into); }
X void mi_history(const MI &m, std::unordered_set<Invocation *> &into) { m.MI::getActualInvocations(into); }
X void mi_clear(MI &m) { m.clear(); }

// one method of each kind of position in the table
X void p_stub_f(P &p, MethodInvocationHandler<int, int> *h) { p.stubMethod<6>(&K::f, h); }
X void p_stub_g(P &p, MethodInvocationHandler<void> *h) { p.stubMethod<7>(&K::g, h); }
X void p_stub_h(P &p, MethodInvocationHandler<long, int, long, int> *h) { p.stubMethod<8>(&K::h, h); }
X void p_stub_dtor(P &p, MethodInvocationHandler<void> *h) { p.stubDtor(h); }
X void p_stub_all(P &p, MethodInvocationHandler<int, int> *f, MethodInvocationHandler<void> *g, MethodInvocationHandler<long, int, long, int> *h, MethodInvocationHandler<void> *d) { p.stubMethod<1>(&K::f, f); p.stubMethod<0>(&K::g, g); p.stubMethod<2>(&K::h, h); p.stubDtor(d); }
X bool p_bound_f(P &p) { return p.isMethodStubbed(&K::f); }
X bool p_bound_g(P &p) { return p.isMethodStubbed(&K::g); }
X bool p_bound_h(P &p) { return p.isMethodStubbed(&K::h); }
X bool p_bound_dtor(P &p) { return p.isDtorStubbed(); }
X Destructible *p_mock_f(P &p) { return p.getMethodMock(&K::f); }
X Destructible *p_mock_g(P &p) { return p.getMethodMock(&K::g); }
X Destructible *p_mock_h(P &p) { return p.getMethodMock(&K::h); }
X Destructible *p_mock_dtor(P &p) { return p.getDtorMock(); }
X K *p_get(P &p) { return &p.get(); }
X void p_detach(P &p) { p.detach(); }
X void p_reset(P &p) { p.Reset(); }
X void p_new(P *p, K &k) { new (p) P(k); }
X void p_end(P &p) { p.~P(); }

// what the table of a mock holds for a stubbed method
typedef MethodProxyCreator<int, int> MCf; typedef MethodProxyCreator<void> MCg; typedef MethodProxyCreator<long, int, long, int> MCh;
X int call_f(MCf &o, int a) { return o.methodProxyX<7>(a); }
X void call_g(MCg &o) { o.methodProxyX<8>(); }
X long call_h(MCh &o, int a, long b, int c) { return o.methodProxyX<9>(a, b, c); }
X void call_dtor(MCg &o) { o.methodProxyX<0>(); }

// spied methods
X void swap_f(P &p, void (*original)(void *), void *arg) { auto s = p.createRaiiMethodSwapper(&K::f); original(arg); }
X void swap_h(P &p, void (*original)(void *), void *arg) { auto s = p.createRaiiMethodSwapper(&K::h); original(arg); }
typedef MI::UniqueMethodMockingContextImpl<6, int, int> CXf; typedef MI::UniqueMethodMockingContextImpl<7, void> CXg; typedef MI::UniqueMethodMockingContextImpl<8, long, int, long, int> CXh;
OFF(cx_mock, CXf, _mock); OFF(cx_method, CXf, _vMethod);
X int spied_f(MI &m, int a) { CXf c(m, &K::f); auto f = c.CXf::getOriginalMethodCopyArgs(); return f(a); }
X void spied_g(MI &m) { CXg c(m, &K::g); auto f = c.CXg::getOriginalMethodCopyArgs(); f(); }
X long spied_h(MI &m, int a, long b, int d) { CXh c(m, &K::h); auto f = c.CXh::getOriginalMethodCopyArgs(); return f(a, b, d); }
X int forwarded_f(MI &m, int a) { CXf c(m, &K::f); auto f = c.CXf::getOriginalMethodForwardArgs(); return f(a); }
X void forwarded_g(MI &m) { CXg c(m, &K::g); auto f = c.CXg::getOriginalMethodForwardArgs(); f(); }
X long forwarded_h(MI &m, int a, long b, int d) { CXh c(m, &K::h); auto f = c.CXh::getOriginalMethodForwardArgs(); return f(a, b, d); }

// the recorded body of a method, made when it is needed
OFF(rb_handlers, RBf, _invocationHandlers); OFF(rb_history, RBf, _actualInvocations); OFF(rb_fakeit, RBf, _fakeit);
X RBf *body_f(MI &m) { return &m.stubMethodIfNotStubbed<6>(m._proxy, &K::f); }
X RBg *body_g(MI &m) { return &m.stubMethodIfNotStubbed<7>(m._proxy, &K::g); }
X RBh *body_h(MI &m) { return &m.stubMethodIfNotStubbed<8>(m._proxy, &K::h); }
X RBg *body_dtor(MI &m) { return &m.stubDtorIfNotStubbed(m._proxy); }

X MI *mi_spy(FakeitContext &c, K &k) { return new MI(c, k); }
X MI *mi_new(FakeitContext &c) { return new MI(c); }
X void mi_end(MI &m) { m.MI::~MI(); }

// the object of an owned mock
X void fo_new(FO *o) { new (o) FO; }
X void fo_clear(FO &o) { o.initializeDataMembersArea(); }
X K *fake_new() { return MI::createFakeInstance(); }
X void mi_unmocked(MI &m) { m.unmocked(); }
X void vt_deldtor(K &k) { ((VT &) k).dtor(0); }
OFF(ev_type, UnexpectedMethodCallEvent, _unexpectedType); OFF(ev_inv, UnexpectedMethodCallEvent, _invocation); OFF(inv_method, Invocation, _method);

// a phrase
typedef MethodMockingContext<int, int>::Implementation IM; typedef ActualInvocation<int> Af; typedef ActionSequence<int, int> ASf;
OFF(im_context, IM, _stubbingContext); OFF(im_sequence, IM, _recordedActionSequence); OFF(im_matcher, IM, _invocationMatcher); OFF(im_commited, IM, _commited); NUM(im_size, sizeof(IM));
OFF(as_recorded, ASf, _recordedActions);
TI(af, Af);
X bool im_matches(IM &i, Invocation &v) { return i.matches(v); }
X void im_history(const IM &i, std::unordered_set<Invocation *> &into) { i.getActualInvocations(into); }
X void im_commit(IM &i) { i.commit(); }
X void im_end(IM &i) { i.~IM(); }
X void im_setmatcher(IM &i, Af::Matcher *m) { i.setInvocationMatcher(m); }
X void im_append(IM &i, Action<int, int> *a) { i.appendAction(a); }
X void im_new(IM *i, MethodMockingContext<int, int>::Context *c) { new (i) IM(c); }
X void im_mocks(const IM &i, std::vector<ActualInvocationsSource *> &into) { i.getInvolvedMocks(into); }

// When
typedef WhenFunctor::StubbingChange SC; typedef smart_ptr<SC> SP; typedef WhenFunctor::MethodProgress<int, int> MP;
OFF(sc_x, SC, _xaction); OFF(sp_data, SP, pData); OFF(sp_ref, SP, reference); OFF(rc_count, RefCount, count);
X void sc_end(SC &c) { c.SC::~SC(); }
X void sp_end(SP &p) { p.~SP(); }
X void sp_copy(SP *p, const SP &o) { new (p) SP(o); }
X void sp_new(SP *p, SC *d) { new (p) SP(d); }
X void when_plain(StubbingContext<int, int> &c, Action<int, int> *a, Action<int, int> *b) { WhenFunctor w; MP p = w(c); p.DoImpl(a).DoImpl(b); }
X void when_copied(StubbingContext<int, int> &c, Action<int, int> *a) { WhenFunctor w; MP p = w(c); { MP q(p); q.DoImpl(a); } }
X void when_abandoned(StubbingContext<int, int> &c, Action<int, int> *a, void (*f)(void *), void *x) { WhenFunctor w; MP p = w(c); p.DoImpl(a); f(x); }
X void fake_one(FakeFunctor &f, StubbingContext<int, int> &c) { f.fake(c); }
X void fin_end(Finally &f) { f.~Finally(); }

// making and ending proxies and mocks
X void mi_reset(MI &m) { m.reset(); }
NUM(mi_size, sizeof(MI));

// data members
X void member_x(P &p, const int &v) { p.stubDataMember(&K::x, v); }
X void member_y(P &p, const long &v) { p.stubDataMember(&K::y, v); }

// assigning a body
X void im_assign(IM &i, int (*m)(int &)) { i.setMethodBodyByAssignment(m); }

// what a phrase reaches of its method
X void cx_add_f(CXf &c, Af::Matcher *m, ActualInvocationHandler<int, int> *h) { c.CXf::addMethodInvocationHandler(m, h); }
X bool cx_of_f(CXf &c, MethodInfo &m) { return c.CXf::isOfMethod(m); }
X void cx_scan_f(CXf &c, const std::function<void(Af &)> &s) { c.CXf::scanActualInvocations(s); }
X ActualInvocationsSource *cx_mock_f(CXf &c) { return &c.CXf::getInvolvedMock(); }
NUM(cx_size, sizeof(CXf));
