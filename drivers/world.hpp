// A small world of mocks with a plain model of the history next to it.
#pragma once
#include "common.hpp"
#include <memory>
#include "fakeit.hpp"

namespace world {
using namespace fakeit;

struct IA { virtual int f(int) = 0; virtual int g(int) = 0; virtual void h() = 0; virtual ~IA() = default; };
struct IB { virtual void x() = 0; virtual int p(int, int) = 0; virtual int f(int) = 0; virtual ~IB() = default; };

struct Call { int id, mid, arg; bool verified; const Invocation *inv; };

// methods: 0 A1.f 1 A1.g 2 A2.f 3 B.p 4 A1.h 5 B.f
enum { NM = 6 };
inline int mock_of(int mid) { return mid == 2 ? 1 : mid == 3 || mid == 5 ? 2 : 0; }
inline const char *name_of(int mid) { static const char *n[] = {"A1.f", "A1.g", "A2.f", "B.p", "A1.h", "B.f"}; return n[mid]; }

struct Atom {
    int mid, crit, v;   // crit: 0 any, 1 ==v, 2 wildcard, 3 >v, 4 predicate odd/even, 5 call-operator ==v
    bool accepts(Call const &c) const {
        if (c.mid != mid) return false;
        switch (crit) { case 1: case 5: return c.arg == v; case 3: return c.arg > v; case 4: return (c.arg & 1) == (v & 1); default: return true; }
    }
    std::string str() const {
        std::ostringstream o; o << name_of(mid);
        if (crit == 1) o << "==" << v; if (crit == 5) o << "(" << v << ")"; if (crit == 2) o << "(_)"; if (crit == 3) o << ">" << v; if (crit == 4) o << (v & 1 ? "odd" : "even");
        return o.str();
    }
};

struct Seq {
    std::shared_ptr<void> keep; const Sequence *s = nullptr;
    const ActualInvocationsSource *src = nullptr;   // only for single phrases
    std::vector<Atom> flat; std::set<int> mocks; std::string text;
    std::vector<Seq> kids;
};

struct Ev {
    int kind = 0;       // 1 sequence, 2 no more, 3 unexpected
    VerificationType vt = VerificationType::Exact; std::vector<Sequence *> pattern; std::vector<Invocation *> actual, unverified;
    int expected = 0, count = 0; std::string file, method; int line = 0; UnexpectedType ut = UnexpectedType::Unmocked; const Invocation *inv = nullptr; std::string text, invtext;
};

struct Recorder : EventHandler {
    std::vector<Ev> evs; bool rethrow = false;
    void handle(const UnexpectedMethodCallEvent &e) override { Ev v; v.kind = 3; v.ut = e.getUnexpectedType(); v.inv = &e.getInvocation(); v.invtext = e.getInvocation().format(); evs.push_back(v); }
    void handle(const SequenceVerificationEvent &e) override {
        Ev v; v.kind = 1; v.vt = e.verificationType(); v.pattern = e.expectedPattern(); v.actual = e.actualSequence(); v.expected = e.expectedCount(); v.count = e.actualCount();
        v.file = e.file() ? e.file() : ""; v.method = e.callingMethod() ? e.callingMethod() : ""; v.line = e.line(); evs.push_back(v);
    }
    void handle(const NoMoreInvocationsVerificationEvent &e) override {
        Ev v; v.kind = 2; v.vt = e.verificationType(); v.actual = e.allIvocations(); v.unverified = e.unverifedIvocations();
        v.file = e.file() ? e.file() : ""; v.method = e.callingMethod() ? e.callingMethod() : ""; v.line = e.line(); evs.push_back(v);
    }
};

// installs a recorder as framework adapter for the life of the object
struct Adapter : Recorder {
    Adapter() { Fakeit.clearEventHandlers(); Fakeit.resetCustomEventFormatter(); Fakeit.setTestingFrameworkAdapter(*this); }
    ~Adapter() { Fakeit.resetTestingFrameworkAdapter(); Fakeit.clearEventHandlers(); }
};

struct World {
    Mock<IA> A1, A2; Mock<IB> B;
    std::vector<Call> calls; int next = 0;
    Adapter rec;

    World() {
        When(Method(A1, f)).AlwaysReturn(1); When(Method(A1, g)).AlwaysReturn(2); When(Method(A2, f)).AlwaysReturn(3);
        When(Method(B, p)).AlwaysReturn(4); When(Method(A1, h)).AlwaysReturn(); When(Method(B, f)).AlwaysReturn(5);
    }
    ActualInvocationsSource &mock(int i) { if (i == 0) return A1; if (i == 1) return A2; return B; }

    void call(drv::Choices &c, int mid, int arg) {
        std::unordered_set<Invocation *> before, after;
        mock(mock_of(mid)).getActualInvocations(before);
        c.notef("call ", name_of(mid), "(", arg, ")");
        switch (mid) {
            case 0: A1.get().f(arg); break; case 1: A1.get().g(arg); break; case 2: A2.get().f(arg); break;
            case 3: B.get().p(arg, arg + 10); break; case 4: A1.get().h(); break; case 5: B.get().f(arg); break;
        }
        mock(mock_of(mid)).getActualInvocations(after);
        const Invocation *n = nullptr; int fresh = 0;
        for (auto i : after) if (!before.count(i)) { n = i; ++fresh; }
        CHECK(fresh == 1 && after.size() == before.size() + 1, "a call of ", name_of(mid), " adds ", fresh, " invocations to the history");
        calls.push_back({next++, mid, arg, false, n});
    }
    int id_of(const Invocation *i) { for (auto &k : calls) if (k.inv == i) return k.id; return -1; }
    std::vector<int> ids(std::vector<Invocation *> const &v) { std::vector<int> r; for (auto i : v) r.push_back(id_of(i)); return r; }

    Seq atom(Atom a) {
        Seq r; r.flat = {a}; r.mocks = {mock_of(a.mid)}; r.text = a.str();
#define MK(M, m, R, P) { typedef MockingContext<R, int> T; std::shared_ptr<T> t; \
            switch (a.crit) { case 1: t.reset(new T(Method(M, m).Using(a.v))); break; case 2: t.reset(new T(Method(M, m).Using(_))); break; \
                case 3: t.reset(new T(Method(M, m).Using(Gt(a.v)))); break; case 4: { int v = a.v; t.reset(new T(Method(M, m).Matching([v](int x) { return (x & 1) == (v & 1); }))); break; } \
                case 5: t.reset(new T(Method(M, m)(a.v))); break; default: t.reset(new T(Method(M, m))); } \
            r.s = t.get(); r.src = t.get(); r.keep = t; }
        switch (a.mid) {
            case 0: MK(A1, f, int, 1) break; case 1: MK(A1, g, int, 1) break; case 2: MK(A2, f, int, 1) break; case 5: MK(B, f, int, 1) break;
            case 3: { typedef MockingContext<int, int, int> T; std::shared_ptr<T> t;
                switch (a.crit) { case 1: t.reset(new T(Method(B, p).Using(a.v, _))); break; case 2: t.reset(new T(Method(B, p).Using(_, _))); break;
                    case 3: t.reset(new T(Method(B, p).Using(_, Gt(a.v + 10)))); break; case 4: { int v = a.v; t.reset(new T(Method(B, p).Matching([v](int x, int) { return (x & 1) == (v & 1); }))); break; }
                    case 5: t.reset(new T(Method(B, p)(a.v, a.v + 10))); break; default: t.reset(new T(Method(B, p))); }
                r.s = t.get(); r.src = t.get(); r.keep = t; break; }
            case 4: { typedef MockingContext<void> T; std::shared_ptr<T> t(new T(Method(A1, h))); r.s = t.get(); r.src = t.get(); r.keep = t; break; }
        }
        return r;
    }
    static Atom any_atom(drv::Choices &c, int nmeth) {
        Atom a; a.mid = c.pick(nmeth); a.crit = a.mid == 4 ? 0 : c.pick(6); a.v = (a.crit == 0 || a.crit == 2) ? 0 : c.pick(3); return a;
    }
    static Seq plus(Seq const &a, Seq const &b) {
        Seq r; r.kids = {a, b}; typedef ConcatenatedSequence T; std::shared_ptr<T> t(new T(*a.s + *b.s)); r.keep = t; r.s = t.get();
        r.flat = a.flat; r.flat.insert(r.flat.end(), b.flat.begin(), b.flat.end()); r.mocks = a.mocks; r.mocks.insert(b.mocks.begin(), b.mocks.end());
        r.text = "(" + a.text + " + " + b.text + ")"; return r;
    }
    static Seq times(Seq const &a, int n, bool left) {
        Seq r; r.kids = {a}; typedef RepeatedSequence T; std::shared_ptr<T> t(left ? new T(n * *a.s) : new T(*a.s * n)); r.keep = t; r.s = t.get();
        for (int i = 0; i < n; ++i) r.flat.insert(r.flat.end(), a.flat.begin(), a.flat.end());
        r.mocks = a.mocks; r.text = "(" + a.text + " * " + std::to_string(n) + ")"; return r;
    }
    Seq seq(drv::Choices &c, int depth, int nmeth) {
        int k = depth <= 0 ? 0 : c.pick(4);
        if (k <= 1) return atom(any_atom(c, nmeth));
        if (k == 2) { Seq a = seq(c, depth - 1, nmeth); Seq b = seq(c, depth - 1, nmeth); return plus(a, b); }
        Seq a = seq(c, depth - 1, nmeth); int n = c.range(1, 3); bool l = c.flip(); return times(a, n, l);
    }

    // ---- oracle
    // calls of the given mocks, in call order
    std::vector<int> involved(std::set<int> const &mocks) { std::vector<int> r; for (auto &k : calls) if (mocks.count(mock_of(k.mid))) r.push_back(k.id); return r; }
    Call &by_id(int id) { for (auto &k : calls) if (k.id == id) return k; throw drv::Failure{"model: no such call"}; }
    // greedy matching of the pattern over the involved calls
    int match(std::vector<int> const &act, std::vector<Seq> const &pat, std::vector<int> &matched) {
        int count = 0; size_t pos = 0; matched.clear();
        for (;;) {
            std::vector<int> round; size_t p = pos; bool ok = true;
            for (auto &s : pat) {
                size_t n = s.flat.size(); size_t i = p; bool found = false;
                for (; i + n <= act.size(); ++i) {
                    bool m = true;
                    for (size_t j = 0; j < n && m; ++j) m = s.flat[j].accepts(by_id(act[i + j]));
                    if (m) { found = true; break; }
                }
                if (!found) { ok = false; break; }
                for (size_t j = 0; j < n; ++j) round.push_back(act[i + j]);
                p = i + n;
            }
            if (!ok) return count;
            ++count; matched.insert(matched.end(), round.begin(), round.end()); pos = p;
        }
    }
    std::string describe(std::vector<Seq> const &p) { std::string s; for (auto &x : p) s += (s.empty() ? "" : ", ") + x.text; return s; }
};

struct Quant {
    int kind, n;   // 0 default 1 Any 2 Never 3 Once 4 Twice 5 AtLeastOnce 6 Exactly(n) 7 AtLeast(n) 8 Exactly(n_Times) 9 AtLeast(n_Times)
    static Quant any(drv::Choices &c, int maxn = 4) { Quant q; q.kind = c.pick(10); q.n = q.kind >= 6 ? c.pick(maxn + 1) : 0; return q; }
    bool passes(int count) const {
        switch (kind) { case 0: case 5: return count >= 1; case 1: return true; case 2: return count == 0; case 3: return count == 1; case 4: return count == 2; case 6: case 8: return count == n; default: return count >= n; }
    }
    bool exact() const { return kind == 2 || kind == 3 || kind == 4 || kind == 6 || kind == 8; }
    int expected() const { switch (kind) { case 0: case 5: return 1; case 2: return 0; case 3: return 1; case 4: return 2; default: return n; } }
    std::string str() const { static const char *k[] = {"", ".Any()", ".Never()", ".Once()", ".Twice()", ".AtLeastOnce()", ".Exactly", ".AtLeast", ".Exactly", ".AtLeast"}; return std::string(k[kind]) + (kind >= 6 ? "(" + std::to_string(n) + (kind >= 8 ? "_Times)" : ")") : ""); }
};

// how a phrase is evaluated: 0 left to the end of the statement, 1 converted to bool, 2 through operator!
// result: 1 true, 0 false, 2 no value
template<class P> int apply(P &&p, Quant const &q, int how) {
#define EV(e) { if (how == 1) { bool ev_ = (e); return ev_ ? 1 : 0; } if (how == 2) { bool ev_ = !(e); return ev_ ? 0 : 1; } e; return 2; }
    switch (q.kind) {
        case 0: { if (how == 1) { bool b = p; return b ? 1 : 0; } if (how == 2) { bool b = !p; return b ? 0 : 1; } return 2; }
        case 1: EV(p.Any()) case 2: EV(p.Never()) case 3: EV(p.Once()) case 4: EV(p.Twice()) case 5: EV(p.AtLeastOnce())
        case 6: EV(p.Exactly(q.n)) case 7: EV(p.AtLeast(q.n)) case 8: EV(p.Exactly(Quantity(q.n))) default: EV(p.AtLeast(Quantity(q.n)))
    }
#undef EV
}
} // namespace world
