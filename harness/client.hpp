// Client side of the whole-program proofs.
#pragma once
#include "proof.hpp"
extern "C" long verif_live();                                // heap objects that exist now
#ifdef VERIF_NATIVE
template<class T> static T *launder(T *p) { asm volatile("" : "+r"(p) : : "memory"); return p; }
#else
template<class T> static T *launder(T *p) { return p; }      // keeps calls on local objects virtual
#endif
// remembers the events it gets
struct Rec : EventHandler {
    int unexpected = 0, sequence = 0, nomore = 0, unmocked = 0, expected = 0, count = 0, line = 0, type = 0; unsigned long actual = 0, unverified = 0, pattern = 0; const Invocation *inv = nullptr; const MethodInfo *method = nullptr; unsigned ordinal = 0; bool refuse = false; int *clock = nullptr; int at = 0;
    const char *file = nullptr, *in = nullptr; const Invocation *first = nullptr, *last = nullptr;
    void tick() { if (clock) at = ++*clock; if (refuse) throw 1; }
    void handle(const UnexpectedMethodCallEvent &e) override { ++unexpected; unmocked += e.getUnexpectedType() == UnexpectedType::Unmocked; inv = &e.getInvocation(); method = &inv->getMethod(); ordinal = inv->getOrdinal(); tick(); }
    void handle(const SequenceVerificationEvent &e) override { ++sequence; expected = e.expectedCount(); count = e.actualCount(); type = (int)e.verificationType(); actual = e.actualSequence().size(); pattern = e.expectedPattern().size(); if (actual) { first = e.actualSequence()[0]; last = e.actualSequence()[actual - 1]; } where(e); tick(); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { ++nomore; type = (int)e.verificationType(); actual = e.allIvocations().size(); unverified = e.unverifedIvocations().size(); if (unverified) { first = e.unverifedIvocations()[0]; last = e.unverifedIvocations()[unverified - 1]; } where(e); tick(); }
    void where(const VerificationEvent &e) { file = e.file(); line = e.line(); in = e.callingMethod(); }
    int all() const { return unexpected + sequence + nomore; }
};
struct Listen { Rec r; Listen() { Fakeit.addEventHandler(r); } ~Listen() { Fakeit.clearEventHandlers(); } };
// how a call ends
enum { RETURNED, UNEXPECTED, OTHER };
template<class F> static int ends(F f) { try { f(); return RETURNED; } catch (UnexpectedMethodCallException &) { return UNEXPECTED; } catch (...) { return OTHER; } }
struct Adapt { Rec r; Adapt() { Fakeit.setTestingFrameworkAdapter(r); } ~Adapt() { Fakeit.resetTestingFrameworkAdapter(); } };
static bool same(const char *a, const char *b) { return a == b || (a && b && !std::strcmp(a, b)); }
