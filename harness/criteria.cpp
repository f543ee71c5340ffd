// What a call is compared with: the criteria of phrases.
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
#define OFF(id, T, f) extern "C" const unsigned long off_##id; const unsigned long off_##id = __builtin_offsetof(T, f)
#define NUM(id, v) extern "C" const unsigned long off_##id; const unsigned long off_##id = (v)
#define X extern "C"
#define TI(id, ...) extern "C" const std::type_info *const ti_##id; const std::type_info *const ti_##id = &typeid(__VA_ARGS__)
typedef ActualInvocation<int, long> AI; typedef ArgumentsMatcherInvocationMatcher<int, long> AM; typedef UserDefinedInvocationMatcher<int, long> UM; typedef DefaultInvocationMatcher<int, long> DM;
typedef ActualInvocation<int &, long> AIr; typedef ArgumentsMatcherInvocationMatcher<int &, long> AMr; typedef UserDefinedInvocationMatcher<int &, long> UMr;
typedef MethodMockingContext<int, int, long> MM; typedef MockingContext<int, int, long> MC; typedef MM::Implementation IM; typedef MockingContext<void, int, long> MCv; typedef MethodMockingContext<void, int, long>::Implementation IMv;
OFF(ai_accepted, AI, _matcher); OFF(ai_args, AI, actualArguments); NUM(ai_size, sizeof(AI)); OFF(am_matchers, AM, _matchers); NUM(am_size, sizeof(AM)); OFF(um_function, UM, matcher); NUM(um_size, sizeof(UM));
OFF(air_accepted, AIr, _matcher); OFF(air_args, AIr, actualArguments); NUM(air_size, sizeof(AIr)); OFF(amr_matchers, AMr, _matchers); NUM(amr_size, sizeof(AMr)); OFF(umr_function, UMr, matcher); NUM(umr_size, sizeof(UMr));
OFF(im_context, IM, _stubbingContext); OFF(im_sequence, IM, _recordedActionSequence); OFF(im_matcher, IM, _invocationMatcher); OFF(im_commited, IM, _commited); NUM(im_size, sizeof(IM)); OFF(mm_impl, MC, _impl); NUM(mm_size, sizeof(MC)); OFF(mv_impl, MCv, _impl);
TI(ti, TypedMatcher<int>); TI(tl, TypedMatcher<long>);
X int *ai_first(AI &c) { return &std::get<0>(c.getActualArguments()); }
X long *ai_second(AI &c) { return &std::get<1>(c.getActualArguments()); }
X int *air_first(AIr &c) { return &std::get<0>(c.getActualArguments()); }
X long *air_second(AIr &c) { return &std::get<1>(c.getActualArguments()); }
#define ASK(M, I, ...) M *m = new M(__VA_ARGS__); if (same) c.setActualMatcher(m); I::Matcher *i = m; return i->matches(c);
X bool am_matches(const std::vector<Destructible *> &v, bool same, AI &c) { ASK(AM, AI, v) }
X bool amr_matches(const std::vector<Destructible *> &v, bool same, AIr &c) { ASK(AMr, AIr, v) }
X bool um_matches(bool (*f)(int &, long &), bool same, AI &c) { ASK(UM, AI, f) }
X bool umr_matches(bool (*f)(int &, long &), bool same, AIr &c) { ASK(UMr, AIr, f) }
X bool dm_matches(bool same, AI &c) { ASK(DM, AI) }
X void am_end(AM &m) { m.AM::~AM(); }
X void am_new(AM *m, const std::vector<Destructible *> &v) { new (m) AM(v); }
X bool use_values(MC &m, AI &c, const int &a, const long &b) { m(a, b); return m._impl->_invocationMatcher->matches(c); }
X bool use_using(MC &m, AI &c, int a, long b) { { int t = a; long u = b; m.Using(t, u); t++; u++; } return m._impl->_invocationMatcher->matches(c); }
X bool use_temp(MC &m, AI &c, int a, long b) { m.Using(int(a), long(b)); return m._impl->_invocationMatcher->matches(c); }
X bool use_any(MC &m, AI &c, int a, long b) { m.Using(_, b); return m._impl->_invocationMatcher->matches(c); }
X bool use_any2(MC &m, AI &c, int a, long b) { m.Using(a, Any<long>()); return m._impl->_invocationMatcher->matches(c); }
X bool use_gt(MC &m, AI &c, int a, long b) { m.Using(Gt(a), Le(b)); return m._impl->_invocationMatcher->matches(c); }
X bool use_lt(MC &m, AI &c, int a, long b) { m.Using(Lt(a), Ge(b)); return m._impl->_invocationMatcher->matches(c); }
X bool use_ne(MC &m, AI &c, int a, long b) { m.Using(Ne(a), Eq(b)); return m._impl->_invocationMatcher->matches(c); }
X bool use_function(MC &m, AI &c, bool (*f)(int &, long &)) { m.Matching(f); return m._impl->_invocationMatcher->matches(c); }
X bool use_call(MC &m, AI &c, bool (*f)(int &, long &)) { m(f); return m._impl->_invocationMatcher->matches(c); }
X bool usev_values(MCv &m, AI &c, const int &a, const long &b) { m(a, b); return m._impl->_invocationMatcher->matches(c); }
X bool usev_gt(MCv &m, AI &c, int a, long b) { m.Using(Gt(a), Le(b)); return m._impl->_invocationMatcher->matches(c); }
X bool usev_function(MCv &m, AI &c, bool (*f)(int &, long &)) { m.Matching(f); return m._impl->_invocationMatcher->matches(c); }
X bool usev_call(MCv &m, AI &c, bool (*f)(int &, long &)) { m(f); return m._impl->_invocationMatcher->matches(c); }
X void use_twice(MC &m, const int &a, const long &b) { m(a, b); m(b, a); }
X void collect(std::vector<Destructible *> &v, int a, long b) { MatchersCollector<0, int, long> c(v); c.CollectMatchers(a, b); }
