// Instantiates the verification side of the library so that its code is emitted.
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
#define OFF(id, T, f) extern "C" const unsigned long off_##id; const unsigned long off_##id = __builtin_offsetof(T, f)
OFF(SVE_handler, SequenceVerificationExpectation, _involvedInvocationSources);
OFF(SVE_pattern, SequenceVerificationExpectation, _expectedPattern);
OFF(SVE_count, SequenceVerificationExpectation, _expectedCount);
OFF(SVE_any, SequenceVerificationExpectation, _expectAnything);
OFF(SVE_file, SequenceVerificationExpectation, _file);
OFF(SVE_line, SequenceVerificationExpectation, _line);
OFF(SVE_method, SequenceVerificationExpectation, _testMethod);
OFF(SVE_done, SequenceVerificationExpectation, _isVerified);
OFF(MA_actual, MatchAnalysis, actualSequence);
OFF(MA_matched, MatchAnalysis, matchedInvocations);
OFF(MA_count, MatchAnalysis, count);
OFF(AIS_sources, AggregateInvocationsSource, _sources);
OFF(UIS_decorated, UnverifiedInvocationsSource, _decorated);
OFF(ISP_inner, InvocationsSourceProxy, _inner);

struct I { virtual int foo(int) = 0; virtual int bar(int, int &) = 0; virtual ~I() {} };
int use() {
    Mock<I> m;
    When(Method(m, foo).Using(Gt(3))).Return(1, 2).Throw(3);
    Verify(Method(m, foo) * 2 + 2 * Method(m, bar)).Exactly(1);
    Verify(Method(m, foo)).AtLeast(2);
    if (Verify(Method(m, foo)).Once()) {}
    if (!Verify(Method(m, foo)).Twice()) {}
    Using(m).Verify(Method(m, foo)).Never();
    Using(Unverified(m)).Verify(Method(m, foo)).Any();
    Unverified.Verify(Method(m, foo)).Any();
    VerifyNoOtherInvocations(m);
    VerifyNoOtherInvocations(Method(m, foo), Method(m, bar));
    return 0;
}

// client phrases; everything they call is walked in place or replaced by a contract
#define X extern "C"
typedef const Sequence S_; typedef const ActualInvocationsSource A_; typedef const char *P_;
X void cl_exactly(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { v(a).setFileInfo(f, l, m).Exactly(n); }
X void cl_atleast(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { v(a).setFileInfo(f, l, m).AtLeast(n); }
X void cl_default(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { v(a).setFileInfo(f, l, m); }
X void cl_never(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { v(a).setFileInfo(f, l, m).Never(); }
X void cl_once(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { v(a).setFileInfo(f, l, m).Once(); }
X void cl_twice(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { v(a).setFileInfo(f, l, m).Twice(); }
X void cl_any(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { v(a).setFileInfo(f, l, m).Any(); }
X void cl_atleastonce(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { v(a).setFileInfo(f, l, m).AtLeastOnce(); }
X void cl_exactly_q(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { v(a).setFileInfo(f, l, m).Exactly(Quantity(n)); }
X void cl_atleast_q(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { v(a).setFileInfo(f, l, m).AtLeast(Quantity(n)); }
X void cl_two(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n, S_ &b) { v(a, b).setFileInfo(f, l, m).Exactly(n); }
X void cl_three(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n, S_ &b, S_ &c) { v(a, b, c).setFileInfo(f, l, m).AtLeast(n); }
X bool cl_exactly_b(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { return v(a).setFileInfo(f, l, m).Exactly(n); }
X bool cl_atleast_b(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { return v(a).setFileInfo(f, l, m).AtLeast(n); }
X bool cl_exactly_n(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { return !v(a).setFileInfo(f, l, m).Exactly(n); }
X bool cl_default_b(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { return v(a).setFileInfo(f, l, m); }
X bool cl_default_n(VerifyFunctor &v, S_ &a, P_ f, int l, P_ m, int) { return !v(a).setFileInfo(f, l, m); }
X void cl_using(UsingFunctor &v, S_ &a, P_ f, int l, P_ m, int n, A_ &s, A_ &t) { v(s, t).Verify(a).setFileInfo(f, l, m).Exactly(n); }
X void cl_using_two(UsingFunctor &v, S_ &a, P_ f, int l, P_ m, int n, A_ &s, S_ &b) { v(s).Verify(a, b).setFileInfo(f, l, m).AtLeast(n); }
X bool cl_using_b(UsingFunctor &v, S_ &a, P_ f, int l, P_ m, int n, A_ &s, A_ &t) { return v(s, t).Verify(a).setFileInfo(f, l, m).Exactly(n); }
X void cl_unverified(VerifyUnverifiedFunctor &v, S_ &a, P_ f, int l, P_ m, int n) { v(a).setFileInfo(f, l, m).Exactly(n); }
X void cl_using_unverified(UsingFunctor &v, S_ &a, P_ f, int l, P_ m, int n, A_ &s, A_ &t, UnverifiedFunctor &u) { v(u(s, t)).Verify(a).setFileInfo(f, l, m).Exactly(n); }
X void cl_noother(VerifyNoOtherInvocationsFunctor &v, P_ f, int l, P_ m, A_ &s, A_ &t) { v(s, t).setFileInfo(f, l, m); }
X bool cl_noother_b(VerifyNoOtherInvocationsFunctor &v, P_ f, int l, P_ m, A_ &s, A_ &t) { return v(s, t).setFileInfo(f, l, m); }
X bool cl_noother_n(VerifyNoOtherInvocationsFunctor &v, P_ f, int l, P_ m, A_ &s, A_ &t) { return !v(s, t).setFileInfo(f, l, m); }
X void ev_seq(const SequenceVerificationEvent &e) { e.expectedPattern(); e.actualSequence(); e.expectedCount(); e.actualCount(); e.verificationType(); e.file(); e.line(); e.callingMethod(); }
X void ev_no(const NoMoreInvocationsVerificationEvent &e) { e.allIvocations(); e.unverifedIvocations(); }
