// Argument criteria, through the phrases Method(mock, f).Using(...) and .Matching(...).
#include "proof.hpp"
struct K { long a, b; K(const K &o) : a(o.a), b(o.b) {} K &operator=(const K &o) { a = o.a; b = o.b; return *this; } };                             // compared by functions without a body
bool operator==(const K &, const K &); bool operator!=(const K &, const K &); bool operator<(const K &, const K &); bool operator>(const K &, const K &); bool operator<=(const K &, const K &); bool operator>=(const K &, const K &);
typedef long long LL_; typedef unsigned long long ULL_; typedef unsigned char UC_;
template<class... T> struct Of { typedef MockingContext<int, T...> MC; typedef typename MethodMockingContext<int, T...>::Context Ctx; };
// the answer of a phrase for a recorded call
template<class... T, class... A> static bool ask(MockingContext<int, T...> &c, MethodInfo &mi, A &&... a) { ActualInvocation<T...> inv(1, mi, std::forward<A>(a)...); return static_cast<Invocation::Matcher &>(c).matches(inv); }
#define SAYS "the phrase matches exactly when the call is of its method and every criterion holds for the argument at its position"
// one criterion: the expected value is the one the variable e has when the phrase is written
#define ONE(nm, T, expr, want) PROOF(C07, nm)(Of<T>::Ctx *x, MethodInfo &mi, T e, T later, T a) { Of<T>::MC c(x); c.Using(expr); T e0 = e; e = later; bool r = ask<T>(c, mi, a); PROVE(r == (x->isOfMethod(mi) && (want)), SAYS); }
#define ALL(P, T) \
ONE(P##_eq, T, Eq(e), a == e0) ONE(P##_value, T, e, a == e0) ONE(P##_gt, T, Gt(e), a > e0) ONE(P##_ge, T, Ge(e), a >= e0) ONE(P##_lt, T, Lt(e), a < e0) ONE(P##_le, T, Le(e), a <= e0) ONE(P##_ne, T, Ne(e), a != e0) \
ONE(P##_rvalue, T, T{e}, a == e0) ONE(P##_gt_rvalue, T, Gt(T{e}), a > e0) ONE(P##_any, T, Any(), true) ONE(P##_any_of, T, Any<T>(), true) ONE(P##_underscore, T, _, true)
ALL(int, int) ALL(unsigned, unsigned) ALL(longlong, LL_) ALL(ulonglong, ULL_) ALL(short, short) ALL(uchar, UC_) ALL(char, char) ALL(bool, bool) ALL(double, double) ALL(float, float)
// objects of a class compared by its own operators; the criterion keeps a copy
#define OBJ(nm, T, expr, want) PROOF(C07, nm)(Of<T>::Ctx *x, MethodInfo &mi, K &e_, K &later, K &a) { K e = e_, e0 = e_; Of<T>::MC c(x); c.Using(expr); e = later; bool r = ask<T>(c, mi, a); PROVE(r == (x->isOfMethod(mi) && (want)), SAYS); }
#define OBJS(P, T) \
OBJ(P##_eq, T, Eq(e), a == e0) OBJ(P##_value, T, e, a == e0) OBJ(P##_gt, T, Gt(e), a > e0) OBJ(P##_ge, T, Ge(e), a >= e0) OBJ(P##_lt, T, Lt(e), a < e0) OBJ(P##_le, T, Le(e), a <= e0) OBJ(P##_ne, T, Ne(e), a != e0) OBJ(P##_any, T, Any(), true)
OBJS(object, K) OBJS(object_ref, K &) OBJS(object_const, const K &)
// pointers are compared as addresses
#define PTRS(nm, expr, want) PROOF(C07, nm)(Of<K *>::Ctx *x, MethodInfo &mi, K *e, K *later, K *a) { Of<K *>::MC c(x); c.Using(expr); K *e0 = e; e = later; bool r = ask<K *>(c, mi, a); PROVE(r == (x->isOfMethod(mi) && (want)), SAYS); }
PTRS(pointer_eq, Eq(e), a == e0) PTRS(pointer_value, e, a == e0) PTRS(pointer_ne, Ne(e), a != e0) PTRS(pointer_null, nullptr, a == nullptr) PTRS(pointer_ne_null, Ne(nullptr), a != nullptr)
// mixed types follow the language's own comparison
PROOF(C07, long_against_int)(Of<long>::Ctx *x, MethodInfo &mi, int e, long a) { Of<long>::MC c(x); c.Using(Ge(e)); PROVE(ask<long>(c, mi, a) == (x->isOfMethod(mi) && a >= e), SAYS); }
PROOF(C07, int_against_long)(Of<int>::Ctx *x, MethodInfo &mi, long e, int a) { Of<int>::MC c(x); c.Using(Lt(e)); PROVE(ask<int>(c, mi, a) == (x->isOfMethod(mi) && a < e), SAYS); }
PROOF(C07, int_against_double)(Of<int>::Ctx *x, MethodInfo &mi, double e, int a) { Of<int>::MC c(x); c.Using(Lt(e)); PROVE(ask<int>(c, mi, a) == (x->isOfMethod(mi) && a < e), SAYS); }
PROOF(C07, int_value_long)(Of<int>::Ctx *x, MethodInfo &mi, long e, int a) { Of<int>::MC c(x); c.Using(e); PROVE(ask<int>(c, mi, a) == (x->isOfMethod(mi) && a == e), SAYS); }
// C strings
#define STRS(nm, F, op) PROOF(C07, nm)(Of<const char *>::Ctx *x, MethodInfo &mi, const char *e, const char *later, const char *a) { std::string s(e), s0(e); Of<const char *>::MC c(x); c.Using(F(s)); s = std::string(later); PROVE(ask<const char *>(c, mi, a) == (x->isOfMethod(mi) && strcmp(a, s0.c_str()) op 0), SAYS); } \
PROOF(C07, nm##_rvalue)(Of<const char *>::Ctx *x, MethodInfo &mi, const char *e, const char *a) { std::string s0(e); Of<const char *>::MC c(x); c.Using(F(std::string(e))); PROVE(ask<const char *>(c, mi, a) == (x->isOfMethod(mi) && strcmp(a, s0.c_str()) op 0), SAYS); }
STRS(str_eq, StrEq, ==) STRS(str_ne, StrNe, !=) STRS(str_gt, StrGt, >) STRS(str_ge, StrGe, >=) STRS(str_lt, StrLt, <) STRS(str_le, StrLe, <=)
// approximate equality, with the arithmetic of the argument types
PROOF(C07, approx_double)(Of<double>::Ctx *x, MethodInfo &mi, double e, double m, double later, double a) { Of<double>::MC c(x); c.Using(ApproxEq(e, m)); double e0 = e, m0 = m; e = m = later; double d = a - e0; if (d < 0) d = -d; PROVE(ask<double>(c, mi, a) == (x->isOfMethod(mi) && d <= m0), SAYS); }
PROOF(C07, approx_float)(Of<float>::Ctx *x, MethodInfo &mi, float e, float m, float a) { Of<float>::MC c(x); c.Using(ApproxEq(e, m)); float d = a - e; if (d < 0) d = -d; PROVE(ask<float>(c, mi, a) == (x->isOfMethod(mi) && d <= m), SAYS); }
PROOF(C07, approx_int)(Of<int>::Ctx *x, MethodInfo &mi, int e, int m, int a) { ASSUME(e >= -1000000000 && e <= 1000000000 && a >= -1000000000 && a <= 1000000000); Of<int>::MC c(x); c.Using(ApproxEq(e, m)); int d = a - e; if (d < 0) d = -d; PROVE(ask<int>(c, mi, a) == (x->isOfMethod(mi) && d <= m), SAYS); }
PROOF(C07, approx_int_double)(Of<int>::Ctx *x, MethodInfo &mi, double e, double m, int a) { Of<int>::MC c(x); c.Using(ApproxEq(e, m)); double d = a - e; if (d < 0) d = -d; PROVE(ask<int>(c, mi, a) == (x->isOfMethod(mi) && d <= m), SAYS); }
// every criterion examines the argument at its own position
typedef Of<int, double, K &, unsigned> P4;
PROOF(C07 C08, positions)(P4::Ctx *x, MethodInfo &mi, int e1, double e2, K &e3, unsigned e4, int a1, double a2, K &a3, unsigned a4) { K k = e3; P4::MC c(x); c.Using(Lt(e1), e2, Ne(k), Ge(e4)); PROVE((ask<int, double, K &, unsigned>(c, mi, a1, a2, a3, a4) == (x->isOfMethod(mi) && a1 < e1 && a2 == e2 && a3 != k && a4 >= e4)), SAYS); }
PROOF(C07 C08, positions_any)(P4::Ctx *x, MethodInfo &mi, double e2, unsigned e4, int a1, double a2, K &a3, unsigned a4) { P4::MC c(x); c.Using(_, Gt(e2), Any(), e4); PROVE((ask<int, double, K &, unsigned>(c, mi, a1, a2, a3, a4) == (x->isOfMethod(mi) && a2 > e2 && a4 == e4)), SAYS); }
typedef Of<int, int, int, int, int, int> P6;
PROOF(C07 C08, positions_same_type)(P6::Ctx *x, MethodInfo &mi, int e1, int e2, int e3, int e4, int e5, int e6, int a1, int a2, int a3, int a4, int a5, int a6) { P6::MC c(x); c.Using(Le(e1), Ge(e2), Lt(e3), Gt(e4), e5, Ne(e6)); PROVE((ask<int, int, int, int, int, int>(c, mi, a1, a2, a3, a4, a5, a6) == (x->isOfMethod(mi) && a1 <= e1 && a2 >= e2 && a3 < e3 && a4 > e4 && a5 == e5 && a6 != e6)), SAYS); }
PROOF(C07 C08, positions_call_form)(P6::Ctx *x, MethodInfo &mi, int e1, int e2, int e3, int e4, int e5, int e6, int a1, int a2, int a3, int a4, int a5, int a6) { P6::MC c(x); c(e1, e2, e3, e4, e5, e6); PROVE((ask<int, int, int, int, int, int>(c, mi, a1, a2, a3, a4, a5, a6) == (x->isOfMethod(mi) && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5 && a6 == e6)), SAYS); }
// no criteria: every call of the method
PROOF(C07, no_criteria)(P4::Ctx *x, MethodInfo &mi, int a1, double a2, K &a3, unsigned a4) { P4::MC c(x); PROVE((ask<int, double, K &, unsigned>(c, mi, a1, a2, a3, a4) == x->isOfMethod(mi)), SAYS); }
PROOF(C07, no_parameters)(Of<>::Ctx *x, MethodInfo &mi) { Of<>::MC c(x); PROVE(ask<>(c, mi) == x->isOfMethod(mi), SAYS); }
PROOF(C07, any_arguments)(P4::Ctx *x, MethodInfo &mi, int a1, double a2, K &a3, unsigned a4) { P4::MC c(x); c.Using(_, _, _, _); PROVE((ask<int, double, K &, unsigned>(c, mi, a1, a2, a3, a4) == x->isOfMethod(mi)), SAYS); }
// user predicates
bool user4(int, double, K &, unsigned); bool user4b(int, double, K &, unsigned); bool user0();
PROOF(C07 C08, predicate)(P4::Ctx *x, MethodInfo &mi, int a1, double a2, K &a3, unsigned a4) { P4::MC c(x); c.Matching([](int p, double q, K &r, unsigned s) { return user4(p, q, r, s); }); PROVE((ask<int, double, K &, unsigned>(c, mi, a1, a2, a3, a4) == (x->isOfMethod(mi) && user4(a1, a2, a3, a4))), SAYS); }
PROOF(C07 C08, predicate_call_form)(P4::Ctx *x, MethodInfo &mi, int a1, double a2, K &a3, unsigned a4) { P4::MC c(x); c([](int p, double q, K &r, unsigned s) { return user4(p, q, r, s); }); PROVE((ask<int, double, K &, unsigned>(c, mi, a1, a2, a3, a4) == (x->isOfMethod(mi) && user4(a1, a2, a3, a4))), SAYS); }
PROOF(C07, predicate_none)(Of<>::Ctx *x, MethodInfo &mi) { Of<>::MC c(x); c.Matching([] { return user0(); }); PROVE(ask<>(c, mi) == (x->isOfMethod(mi) && user0()), SAYS); }
// the criteria given last count
PROOF(C07, criteria_replaced)(Of<int>::Ctx *x, MethodInfo &mi, int e, int e2, int a) { Of<int>::MC c(x); c.Using(Lt(e)); c.Using(Gt(e2)); PROVE(ask<int>(c, mi, a) == (x->isOfMethod(mi) && a > e2), SAYS); }
// a method of twelve arguments: every position counts
PROOF(C07, twelve_arguments)(Of<int, int, int, int, int, int, int, int, int, int, int, int>::Ctx *x, MethodInfo &mi, int *e, int *a) { typedef Of<int, int, int, int, int, int, int, int, int, int, int, int>::MC MC; MC c(x); c.Using(e[0], Eq(e[1]), e[2], Lt(e[3]), e[4], Ge(e[5]), e[6], Ne(e[7]), e[8], Eq(e[9]), Gt(e[10]), e[11]);
    bool r = ask<int, int, int, int, int, int, int, int, int, int, int, int>(c, mi, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    PROVE(r == (x->isOfMethod(mi) && a[0] == e[0] && a[1] == e[1] && a[2] == e[2] && a[3] < e[3] && a[4] == e[4] && a[5] >= e[5] && a[6] == e[6] && a[7] != e[7] && a[8] == e[8] && a[9] == e[9] && a[10] > e[10] && a[11] == e[11]), SAYS); }
// the quantities that phrases carry
PROOF(C02, times_literal)(unsigned n) { ASSUME(n <= 0x7fffffffu); Quantity q = operator""_Times((unsigned long long) n); PROVE(q.quantity == (int) n, "n_Times stands for n uses"); }
PROOF(C02, time_literal)() { PROVE((1_Time).quantity == 1, "1_Time stands for one use"); }
PROOF(C02, times_of)(int v) { PROVE(Times<1>::of(v).quantity == 1 && Times<1>::of(v).value == v && Times<7>::of(v).quantity == 7 && Times<1500>::of(v).quantity == 1500 && Times<70000>::of(v).quantity == 70000 && Times<2147483647>::of(v).quantity == 2147483647, "Times<n>::of(v) stands for n uses of v"); PROVE(Times<7>::Void().quantity == 7 && Times<1500>::Void().quantity == 1500 && Times<70000>::Void().quantity == 70000, "Times<n>::Void() stands for n uses"); }
