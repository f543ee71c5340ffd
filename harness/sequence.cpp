// Sequence expressions: client functions of the operators and of method phrases.
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
#define X extern "C"
typedef const Sequence S_; typedef std::vector<Invocation::Matcher *> MV; typedef std::vector<ActualInvocationsSource *> SV;
X void sq_cat(S_ &a, S_ &b, MV &into) { (a + b).getExpectedSequence(into); }
X void sq_cat_base(S_ &a, S_ &b, MV &into) { S_ &s = a + b; s.getExpectedSequence(into); }
X unsigned sq_cat_size(S_ &a, S_ &b) { return (a + b).size(); }
X void sq_cat_mocks(S_ &a, S_ &b, SV &into) { (a + b).getInvolvedMocks(into); }
X void sq_rep(S_ &a, int n, MV &into) { (a * n).getExpectedSequence(into); }
X void sq_repl(S_ &a, int n, MV &into) { (n * a).getExpectedSequence(into); }
X unsigned sq_rep_size(S_ &a, int n) { return (a * n).size(); }
X unsigned sq_repl_size(S_ &a, int n) { return (n * a).size(); }
X void sq_rep_mocks(S_ &a, int n, SV &into) { (a * n).getInvolvedMocks(into); }
X void sq_repl_mocks(S_ &a, int n, SV &into) { (n * a).getInvolvedMocks(into); }
typedef MockingContext<int, int, int &> MC;
X bool sq_one(MC::Context *x, MV &into) { MC c(x); S_ &s = c; s.getExpectedSequence(into); return into[into.size() - 1] == static_cast<Invocation::Matcher *>(&c); }
X unsigned sq_one_size(MC::Context *x) { MC c(x); S_ &s = c; return s.size(); }
X void sq_one_mocks(MC::Context *x, SV &into) { MC c(x); S_ &s = c; s.getInvolvedMocks(into); }
// nested: the operands are themselves expressions
X void sq_nest(S_ &a, S_ &b, int n, MV &into) { (a + b * n).getExpectedSequence(into); }
X void sq_nest2(S_ &a, S_ &b, S_ &c, MV &into) { ((a + b) + c).getExpectedSequence(into); }
// the list that the failure text walks
X S_ *sq_left(S_ &a, S_ &b) { return &(a + b).getLeft(); }
X S_ *sq_right(S_ &a, S_ &b) { return &(a + b).getRight(); }
X S_ *sq_inner(S_ &a, int n) { return &(a * n).getSequence(); }
X int sq_times(S_ &a, int n) { return (n * a).getTimes(); }
