// Virtual tables of the largest supported size: 1000 places, with the destructor at the front, inside and at the end.
#include <cstddef>
#include <functional>
#include <string>
#include "fakeit.hpp"
using namespace fakeit;
#define OFF(id, T, f) extern "C" const unsigned long off_##id; const unsigned long off_##id = __builtin_offsetof(T, f)
#define X extern "C"
#define V(n) virtual int m##n(int) = 0;
#define T(p) V(p##0) V(p##1) V(p##2) V(p##3) V(p##4) V(p##5) V(p##6) V(p##7) V(p##8) V(p##9)
#define H(p) T(p##0) T(p##1) T(p##2) T(p##3) T(p##4) T(p##5) T(p##6) T(p##7) T(p##8) T(p##9)
#define T8(p) V(p##0) V(p##1) V(p##2) V(p##3) V(p##4) V(p##5) V(p##6) V(p##7)
#define H8(p) T(p##0) T(p##1) T(p##2) T(p##3) T(p##4) T(p##5) T(p##6) T(p##7) T(p##8) T8(p##9)
struct First { virtual ~First(); H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H8(9) };
struct Inside { H(0) H(1) H(2) H(3) H(4) virtual ~Inside(); H(5) H(6) H(7) H(8) H8(9) };
struct Last { H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H8(9) virtual ~Last(); };
struct Hundred { H(0) };
typedef VirtualTable<Inside> VT; typedef DynamicProxy<Inside> P;
OFF(p_instance, P, instance); OFF(p_orig, P, originalVtHandle); OFF(p_clone, P, _cloneVt); OFF(p_mocks, P, _methodMocks); OFF(p_members, P, _members); OFF(p_offsets, P, _offsets); OFF(p_handlers, P, _invocationHandlers);
OFF(ih_mocks, InvocationHandlers, _methodMocks); OFF(ih_offsets, InvocationHandlers, _offsets);

X unsigned slot_of(int (Inside::*m)(int)) { return VTUtils::getOffset(m); }
X unsigned dtor_first() { return VTUtils::getDestructorOffset<First>(); }
X unsigned dtor_inside() { return VTUtils::getDestructorOffset<Inside>(); }
X unsigned dtor_last() { return VTUtils::getDestructorOffset<Last>(); }
X unsigned size_first() { return VTUtils::getVTSize<First>(); }
X unsigned size_inside() { return VTUtils::getVTSize<Inside>(); }
X unsigned size_last() { return VTUtils::getVTSize<Last>(); }
X unsigned size_hundred() { return VTUtils::getVTSize<Hundred>(); }
X void copy_from(VT &t, VT &from) { t.copyFrom(from); }
X void init_all(VT &t, void *p) { t.initAll(p); }
X void set_dtor(VT &t, void *p) { t.setDtor(p); }
X void set_method(VT &t, unsigned i, void *p) { t.setMethod(i, p); }
X void *get_method(VT &t, unsigned i) { return t.getMethod(i); }
X void stub_at(P &p, int (Inside::*m)(int), MethodInvocationHandler<int, int> *h) { p.stubMethod<70000>(m, h); }
X bool bound_at(P &p, int (Inside::*m)(int)) { return p.isMethodStubbed(m); }
X Destructible *mock_at(P &p, int (Inside::*m)(int)) { return p.getMethodMock(m); }
X void swap_at(P &p, int (Inside::*m)(int), void (*original)(void *), void *arg) { auto s = p.createRaiiMethodSwapper(m); original(arg); }
typedef MethodInvocationHandler<int, int> MIH;
X void stub_ids(P &p, MIH *a, MIH *b, MIH *c, MIH *d) { p.stubMethod<70000>(&Inside::m000, a); p.stubMethod<4464>(&Inside::m001, b); p.stubMethod<368>(&Inside::m002, c); p.stubMethod<112>(&Inside::m003, d); }
