// Verifications of whole mocks against an independent reading of the property texts.
#include "client.hpp"
struct A { virtual int f(int) = 0; virtual int g(int) = 0; virtual ~A() {} };
enum { MF, MG, NF };
struct World {
    Mock<A> m, n; int kind[4], arg[4], count = 0; bool mark[4] = {false, false, false, false};
    World() { Fake(Method(m, f), Method(m, g), Method(n, f)); }
    void call(int k, int a) { kind[count] = k; arg[count] = a; ++count; switch (k) { case MF: m.get().f(a); break; case MG: m.get().g(a); break; default: n.get().f(a); } }
    void calls(int n, int x = MF, int y = MG, int z = NF, int kinds = 3) { for (int i = 0; i < n; ++i) { int k = below(kinds), a = verif_int(); call(k == 0 ? x : k == 1 ? y : z, a); } }
    void two(int n, int x, int y) { calls(n, x, y, x, 2); }
};
struct Atom { int kind; int how; int e; bool ok(int k, int a) const { return k == kind && (how == 0 || (how == 1 ? a == e : a > e)); } };   // how: 0 any, 1 Eq, 2 Gt
struct Pat { Atom a[6]; int len[3]; int n; };       // n sequences one after the other in a
// greedy, non-overlapping, in order, over the calls of the mocks in `mocks` (1: m, 2: n)
static int match(World &w, const Pat &p, int mocks, bool *used) {
    int idx[4], k = 0, rounds = 0, pos = 0; for (int i = 0; i < w.count; ++i) { used[i] = false; if (mocks & (w.kind[i] == NF ? 2 : 1)) idx[k++] = i; }
    for (;;) {
        int taken[8], t = 0, at = pos, off = 0;
        for (int s = 0; s < p.n; ++s) { bool found = false; for (; at + p.len[s] <= k; ++at) { bool all = true; for (int j = 0; j < p.len[s] && all; ++j) all = p.a[off + j].ok(w.kind[idx[at + j]], w.arg[idx[at + j]]); if (all) { found = true; break; } } if (!found) return rounds; for (int j = 0; j < p.len[s]; ++j) taken[t++] = idx[at + j]; at += p.len[s]; off += p.len[s]; }
        for (int j = 0; j < t; ++j) used[taken[j]] = true; ++rounds; pos = at;
    }
}
static bool unverified_as(World &w, int src, const Rec &r) { int all = 0, un = 0; for (int i = 0; i < w.count; ++i) if (src & (w.kind[i] == NF ? 2 : 1)) { ++all; un += !w.mark[i]; } return un == 0 ? r.nomore == 0 : r.nomore == 1 && (int)r.actual == all && (int)r.unverified == un; }
static bool marks(World &w) { Adapt a; VerifyNoOtherInvocations(w.m); bool one = unverified_as(w, 1, a.r); Adapt c; VerifyNoOtherInvocations(w.n, w.m); return one && unverified_as(w, 3, c.r); }
static int total(World &w, int mocks) { int k = 0; for (int i = 0; i < w.count; ++i) k += (mocks & (w.kind[i] == NF ? 2 : 1)) != 0; return k; }
// how: 0 Exactly, 1 AtLeast, 2 default
template<class V> static void check(World &w, const Pat &p, int mocks, int seqs, V v, int how, int q) {
    bool used[4]; int c = match(w, p, mocks, used); bool pass = how == 0 ? c == q : how == 1 ? c >= q : c >= 1; Adapt a; 
    v(how, q);
    PROVE(a.r.sequence == (pass ? 0 : 1) && a.r.all() == a.r.sequence, "passes exactly when the match count meets the quantity; one event otherwise");
    if (!pass) { PROVE(a.r.count == c, "the event carries the actual count"); PROVE(a.r.type == (int)(how == 0 ? VerificationType::Exact : VerificationType::AtLeast) && a.r.expected == (how == 2 ? 1 : q), "and the expected kind and count"); PROVE((int)a.r.pattern == seqs && (int)a.r.actual == total(w, mocks), "and the pattern and the actual sequence"); }
    else for (int i = 0; i < w.count; ++i) if (used[i]) w.mark[i] = true;
    PROVE(marks(w), "exactly the calls of complete matches are verified, and only if the verification passed"); }
#ifdef VERIF_NATIVE
#define HOW below(3)
#else
#define HOW 0            // the other quantities: theorem `quantities` and the contracts of group verify
#endif
#define PAT(...) Pat __VA_ARGS__
#define RUN(cnt_, x_, y_, mocks, seqs, pat, ...) int how = HOW, q = below(4); World w; w.two(cnt_, x_, y_); Mock<A> &m = w.m, &o = w.n; (void)o; check(w, PAT pat, mocks, seqs, [&](int how, int q) { if (how == 0) Verify(__VA_ARGS__).Exactly(q); else if (how == 1) Verify(__VA_ARGS__).AtLeast(q); else Verify(__VA_ARGS__); }, how, q);
PROOF(C03 C04 C05, one_phrase)(int e) { RUN(3, MF, MG, 1, 1, ({{{MF, 1, e}}, {1}, 1}), Method(m, f).Using(e)) }
PROOF(C03 C04 C05, phrase_without_criteria)(int e) { RUN(3, MF, NF, 1, 1, ({{{MF, 0, 0}}, {1}, 1}), Method(m, f)) }
PROOF(C03 C04 C05 C06, adjacent)(int e) { RUN(3, MF, MG, 1, 1, ({{{MF, 2, e}, {MG, 0, 0}}, {2}, 1}), Method(m, f).Using(Gt(e)) + Method(m, g)) }
PROOF(C03 C04 C05 C06, adjacent_two_mocks)(int e) { RUN(3, MF, NF, 3, 1, ({{{MF, 0, e}, {NF, 1, e}}, {2}, 1}), Method(m, f) + Method(o, f).Using(e)) }
PROOF(C03 C04 C06, repeated)(int e) { RUN(4, MF, MG, 1, 1, ({{{MF, 0, 0}, {MF, 0, 0}}, {2}, 1}), Method(m, f) * 2) }
PROOF(C03 C04, in_turn)(int e) { RUN(3, MF, MG, 1, 2, ({{{MF, 2, e}, {MG, 0, 0}}, {1, 1}, 2}), Method(m, f).Using(Gt(e)), Method(m, g)) }
PROOF(C03 C04 C05, in_turn_two_mocks)(int e) { RUN(3, MF, NF, 3, 2, ({{{NF, 0, 0}, {MF, 0, 0}}, {1, 1}, 2}), Method(o, f), Method(m, f)) }
PROOF(C03 C04 C06, mixed)(int e) { RUN(3, MF, MG, 1, 2, ({{{MG, 0, 0}, {MF, 0, 0}, {MF, 1, e}}, {1, 2}, 2}), Method(m, g), Method(m, f) + Method(m, f).Using(e)) }
PROOF(C06 C03, nested)(int e) { RUN(4, MF, MG, 1, 1, ({{{MF, 0, 0}, {MG, 0, 0}, {MF, 0, 0}, {MG, 0, 0}}, {4}, 1}), (Method(m, f) + Method(m, g)) * 2) }
PROOF(C06 C03, number_first)(int e) { RUN(3, MF, MG, 1, 1, ({{{MF, 0, 0}, {MF, 0, 0}, {MG, 0, 0}}, {3}, 1}), 2 * Method(m, f) + Method(m, g)) }
PROOF(C06, bad_repetition)(int k) { ASSUME(k <= 0); Mock<A> m; Fake(Method(m, f)); int n = 0; try { Verify(Method(m, f) * k); } catch (std::invalid_argument &) { ++n; } try { Verify(k * Method(m, f)); } catch (std::invalid_argument &) { ++n; } try { auto s = (Method(m, f) + Method(m, f)) * k; } catch (std::invalid_argument &) { ++n; } PROVE(n == 3, "repetition with n <= 0 throws std::invalid_argument"); }
// two verifications one after the other: marks add up and are never taken back
PROOF(C04 C03, marks_add_up)(int e) { World w; w.two(2, MF, MG); Mock<A> &m = w.m; bool used[4]; Pat p = {{{MF, 1, e}}, {1}, 1}, r = {{{MG, 2, e}}, {1}, 1}; check(w, p, 1, 1, [&](int, int) { Verify(Method(m, f).Using(e)); }, 2, 1); check(w, r, 1, 1, [&](int, int) { Verify(Method(m, g).Using(Gt(e))); }, 2, 1); check(w, p, 1, 1, [&](int, int) { Verify(Method(m, f).Using(e)); }, 2, 1); (void)used; }
PROOF(C03 C14, quantities)() { int n = below(4); Mock<A> m; Fake(Method(m, f)); for (int i = 0; i < n; ++i) m.get().f(1);
    PROVE((bool)Verify(Method(m, f)).Once() == (n == 1), "Once"); PROVE((bool)Verify(Method(m, f)).Twice() == (n == 2), "Twice"); PROVE((bool)Verify(Method(m, f)).Never() == (n == 0), "Never"); PROVE((bool)Verify(Method(m, f)).AtLeastOnce() == (n >= 1), "AtLeastOnce"); PROVE((bool)Verify(Method(m, f)).Any(), "Any"); PROVE((bool)Verify(Method(m, f)) == (n >= 1), "default"); PROVE((bool)Verify(Method(m, f)).Exactly(2_Times) == (n == 2), "2_Times"); PROVE((bool)Verify(Method(m, f)).Exactly(Once) == (n == 1), "Exactly(Once)"); PROVE((bool)Verify(Method(m, f)).AtLeast(Once) == (n >= 1), "AtLeast(Once)"); }
// the sources of a verification
static bool saw(const Rec &r, int n, const Invocation *first, const Invocation *last) { return (int)r.actual == n && (n == 0 || (r.first == first && r.last == last)); }
PROOF(C05, order_across_mocks)(int x) { World w; w.calls(3); Mock<A> &m = w.m, &n = w.n; struct See : EventHandler { unsigned ord[8]; int k = 0; void handle(const UnexpectedMethodCallEvent &) override {} void handle(const SequenceVerificationEvent &e) override { for (auto i : e.actualSequence()) ord[k++] = i->getOrdinal(); } void handle(const NoMoreInvocationsVerificationEvent &) override {} } s; { Adapt a; Fakeit.addEventHandler(s); Using(m, n, m).Verify(Method(m, g)).Exactly(9); Fakeit.clearEventHandlers(); } PROVE(s.k == 3 && s.ord[0] < s.ord[1] && s.ord[1] < s.ord[2], "every call once, in call order"); }
PROOF(C05, source_is_a_phrase)(int e) { World w; w.calls(3); Mock<A> &m = w.m; Adapt a; Using(Method(m, f).Using(Gt(e))).Verify(Method(m, g)).Exactly(9); int want = 0; for (int i = 0; i < 3; ++i) want += w.kind[i] == MF && w.arg[i] > e; PROVE(a.r.sequence == 1 && (int)a.r.actual == want && a.r.count == 0, "the calls of the method that the criteria accept"); }
PROOF(C05, several_sources)(int e) { World w; w.calls(3); Mock<A> &m = w.m, &n = w.n; Adapt a; Using(Method(m, f).Using(e), n, Method(m, f)).Verify(Method(m, g)).Exactly(9); int want = 0; for (int i = 0; i < 3; ++i) want += w.kind[i] != MG; PROVE(a.r.sequence == 1 && (int)a.r.actual == want, "the union, each call once"); }
PROOF(C05, mentioned_mocks)(int e) { World w; w.calls(3); Mock<A> &m = w.m, &n = w.n; { Adapt a; Verify(Method(n, f)).Exactly(9); PROVE((int)a.r.actual == total(w, 2), "the mock that the pattern mentions"); } { Adapt a; Verify(Method(m, f), Method(n, f) + Method(m, g)).Exactly(9); PROVE((int)a.r.actual == total(w, 3), "the mocks that the pattern mentions"); } }
PROOF(C05 C04, no_other_sources)(int e) { World w; w.calls(3); Mock<A> &m = w.m; int fs = 0; for (int i = 0; i < 3; ++i) fs += w.kind[i] == MF; { Adapt a; VerifyNoOtherInvocations(Method(m, f)); PROVE(a.r.nomore == (fs > 0) && (fs == 0 || ((int)a.r.actual == fs && (int)a.r.unverified == fs)), "a method phrase as source"); } }
PROOF(C04, unverified_source)(int e) { World w; w.two(3, MF, MG); Mock<A> &m = w.m; bool used[4]; int c = match(w, {{{MF, 1, e}}, {1}, 1}, 1, used); (bool)Verify(Method(m, f).Using(e)).AtLeast(0); int left = 0, lf = 0; for (int i = 0; i < 3; ++i) if (w.kind[i] != NF && !used[i]) { ++left; lf += w.kind[i] == MF; } { Adapt a; Using(Unverified(m)).Verify(Method(m, g)).Exactly(9); PROVE((int)a.r.actual == left, "Unverified(m) exposes exactly the unverified calls"); } { Adapt a; Unverified.Verify(Method(m, g)).Exactly(9); PROVE((int)a.r.actual == left, "Unverified.Verify too"); } PROVE((bool)Unverified.Verify(Method(m, f)).Exactly(lf), "and matches only in them"); (void)c; }
PROOF(C04, failing_marks_none)() { int q = below(5), n = 1 + below(3); Mock<A> m; Fake(Method(m, f)); for (int i = 0; i < n; ++i) m.get().f(i); bool pass = Verify(Method(m, f)).Exactly(q); PROVE(pass == (q == n), "result"); PROVE((bool)VerifyNoOtherInvocations(m) == pass, "verified exactly if it passed"); PROVE((bool)VerifyNoOtherInvocations(m) == pass, "the mark stays"); }
PROOF(C05 C20, ordinals_increase)(int a) { Mock<A> m, n; std::vector<Invocation *> v; Fake(Method(m, f), Method(n, f)); m.get().f(a); n.get().f(a); m.get().f(a); std::unordered_set<Invocation *> s; m.getActualInvocations(s); PROVE(s.size() == 2, "two calls"); unsigned lo = ~0u, hi = 0; for (auto i : s) { if (i->getOrdinal() < lo) lo = i->getOrdinal(); if (i->getOrdinal() > hi) hi = i->getOrdinal(); } s.clear(); n.getActualInvocations(s); PROVE(s.size() == 1 && lo < (*s.begin())->getOrdinal() && (*s.begin())->getOrdinal() < hi, "later calls have later positions"); }
// the order of calls is the order of their numbers, whatever the numbers are
struct Numbered : Invocation { Numbered(unsigned n, MethodInfo &m) : Invocation(n, m) {} std::string format() const override { return std::string(); } };
PROOF(C05, order_of_two)(unsigned a, unsigned b) { ASSUME(a != b); MethodInfo info(1, "m"); Numbered x(a, info), y(b, info); std::unordered_set<Invocation *> s; s.insert(&x); s.insert(&y); std::vector<Invocation *> v; InvocationUtils::sortByInvocationOrder(s, v); PROVE(v.size() == 2 && v[0] == (a < b ? &x : &y) && v[1] == (a < b ? &y : &x), "the earlier call comes first"); }
PROOF(C05, order_of_three)(unsigned a, unsigned b, unsigned c) { ASSUME(a < b && b < c); MethodInfo info(1, "m"); Numbered x(a, info), y(b, info), z(c, info); std::unordered_set<Invocation *> s; s.insert(&z); s.insert(&x); s.insert(&y); std::vector<Invocation *> v; InvocationUtils::sortByInvocationOrder(s, v); PROVE(v.size() == 3 && v[0] == &x && v[1] == &y && v[2] == &z, "calls are listed in order"); }
// six sources
PROOF(C05 C04, six_sources)(int a) { Mock<A> m0, m1, m2, m3, m4, m5; Fake(Method(m0, f), Method(m1, f), Method(m2, f), Method(m3, f), Method(m4, f), Method(m5, f)); m0.get().f(a); m4.get().f(a); int k = 2; bool last = verif_bool(); if (last) { m5.get().f(a); ++k; } { Adapt q; VerifyNoOtherInvocations(m1, m2, m3, m0, m5, m4); PROVE(q.r.nomore && (int) q.r.actual == k, "every one of six sources is asked"); } { Adapt q; VerifyNoOtherInvocations(m1, m2, m3, Method(m0, g), Method(m4, g), m5); PROVE(q.r.nomore == last, "the last of six sources is asked"); }
    { Adapt q; Using(m1, m2, m3, m0, m4, m5).Verify(Method(m5, f)).Exactly(9); PROVE(q.r.sequence && (int) q.r.actual == k, "the calls of six sources are counted"); } { Adapt q; Verify(Method(m1, f), Method(m2, f), Method(m3, f), Method(m0, f), Method(m4, f), Method(m5, f)).Exactly(9); PROVE(q.r.sequence && (int) q.r.actual == k, "the calls of six mentioned mocks are counted"); } }
