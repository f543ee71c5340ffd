// The default texts of failures, and the texts of calls, criteria and sequences they are made of.
#include <string.h>
#include <cstddef>
#include <string>
#include <vector>
#include "fakeit.hpp"
using namespace fakeit;
#define X extern "C"
typedef std::string S;
X void t_unexpected(S *o, bool unmatched, const Invocation &i) { UnexpectedMethodCallEvent e(unmatched ? UnexpectedType::Unmatched : UnexpectedType::Unmocked, i); DefaultEventFormatter f; new (o) S(f.format(e)); }
X void t_sequence(S *o, bool exact, std::vector<Sequence *> &p, std::vector<Invocation *> &a, int expected, int actual) { SequenceVerificationEvent e(exact ? VerificationType::Exact : VerificationType::AtLeast, p, a, expected, actual); DefaultEventFormatter f; new (o) S(f.format(e)); }
X void t_nomore(S *o, std::vector<Invocation *> &all, std::vector<Invocation *> &a) { NoMoreInvocationsVerificationEvent e(all, a); DefaultEventFormatter f; new (o) S(f.format(e)); }
X void t_pattern(S *o, std::vector<Sequence *> &p) { new (o) S(DefaultEventFormatter::formatExpectedPattern(p)); }
// sequences: operands are any sequences
#define SEQ(id, decl, ...) X void id(S *o, __VA_ARGS__) { decl; std::vector<Sequence *> p; p.push_back(&s); new (o) S(DefaultEventFormatter::formatExpectedPattern(p)); }
SEQ(t_concat, ConcatenatedSequence s(l, r), const Sequence &l, const Sequence &r)
SEQ(t_repeat, RepeatedSequence s(l, n), const Sequence &l, int n)
SEQ(t_repeat_concat, ConcatenatedSequence i(l, r); RepeatedSequence s(i, n), const Sequence &l, const Sequence &r, int n)
SEQ(t_repeat_repeat, RepeatedSequence i(l, m); RepeatedSequence s(i, n), const Sequence &l, int m, int n)
SEQ(t_concat_concat, ConcatenatedSequence i(l, r); ConcatenatedSequence s(i, z), const Sequence &l, const Sequence &r, const Sequence &z)
SEQ(t_concat_repeat, RepeatedSequence i(l, n); ConcatenatedSequence s(z, i), const Sequence &l, const Sequence &z, int n)
struct Leaf : Sequence { Invocation::Matcher *m; Leaf(Invocation::Matcher *m) : m(m) {} void getExpectedSequence(std::vector<Invocation::Matcher *> &into) const override { into.push_back(m); } unsigned int size() const override { return 1; } void getInvolvedMocks(std::vector<ActualInvocationsSource *> &) const override {} };
SEQ(t_leaf, Leaf s(m), Invocation::Matcher *m)
SEQ(t_repeat_leaf, Leaf i(m); RepeatedSequence s(i, n), Invocation::Matcher *m, int n)
// calls
struct Opaque { int x; };
struct Shown { int x; };
X void show(std::ostream &o, const Shown &s);
static std::ostream &operator<<(std::ostream &o, const Shown &s) { show(o, s); return o; }
#define CALL(id, T, P, A) X void id(S *o, const S &name, P) { MethodInfo info(7, name); ActualInvocation<T> i(3, info, A); new (o) S(i.format()); }
#define L(...) __VA_ARGS__
X void t_call0(S *o, const S &name) { MethodInfo info(7, name); ActualInvocation<> i(3, info); new (o) S(i.format()); }
CALL(t_call1, int, int a, a)
CALL(t_call3, L(int, bool, char), L(int a, bool b, char c), L(a, b, c))
CALL(t_call2, L(unsigned long, Opaque), L(unsigned long a, Opaque b), L(a, b))
CALL(t_call5, L(int, int, int, int, int), L(int a, int b, int c, int d, int e), L(a, b, c, d, e))
CALL(t_callref, L(int &, const long &), L(int &a, const long &b), L(a, b))
CALL(t_calltext, L(const char *, int), L(const char *a, int b), L(a, b))
CALL(t_callshown, L(Shown, short), L(Shown a, short b), L(a, b))
// criteria
template<class T> static TypedMatcher<int> *mk(const T &t) { return t.template createMatcher<int>(); }
#define CRIT(id, P, ...) X void id(S *o, P) { TypedMatcher<int> *m = mk(__VA_ARGS__); new (o) S(m->format()); }
CRIT(t_eq, int a, Eq(a)) CRIT(t_ne, int a, Ne(a)) CRIT(t_gt, int a, Gt(a)) CRIT(t_ge, int a, Ge(a)) CRIT(t_lt, int a, Lt(a)) CRIT(t_le, int a, Le(a)) CRIT(t_any, int, Any())
CRIT(t_eq_r, int a, Eq(std::move(a))) CRIT(t_approx, L(int a, int b), ApproxEq(a, b))
X void t_criteria(S *o, const std::vector<Destructible *> &v) { ArgumentsMatcherInvocationMatcher<int, int> m(v); new (o) S(m.format()); }
X void t_anyargs(S *o) { DefaultInvocationMatcher<int> m; new (o) S(m.format()); }
