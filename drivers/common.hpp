// Bounded search used next to the proofs: scenarios draw all their decisions
// from a recorded choice sequence, so every case can be enumerated, replayed
// and shrunk.  The expectations are computed by oracles written here from the
// property texts; only the public interface of the library is used.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace drv {

// hides the dynamic type of an object from the compiler
template<class T> __attribute__((noinline)) T &hide(T &x) { T *p = &x; asm volatile("" : "+r"(p) : : "memory"); return *p; }

struct Failure { std::string what; };

struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};

struct Choices {
    std::vector<int> given; size_t pos = 0;
    std::vector<int> val, bound;
    Rng *rng = nullptr;
    bool log = false; std::vector<std::string> notes;
    // a value in 0..n-1
    int pick(int n) {
        int v;
        if (pos < given.size()) v = given[pos] % n;
        else v = rng ? int(rng->next() % uint64_t(n)) : 0;
        ++pos; val.push_back(v); bound.push_back(n);
        return v;
    }
    int range(int lo, int hi) { return lo + pick(hi - lo + 1); }
    bool flip() { return pick(2) == 1; }
    void note(const std::string &s) { if (log) notes.push_back(s); }
    template<class... A> void notef(A const &... a) { if (log) { std::ostringstream o; int d[] = {0, ((void)(o << a), 0)...}; (void)d; notes.push_back(o.str()); } }
};

struct Scenario { std::string name; std::function<void(Choices &)> run; long exhaustive; double weight; };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char *n, std::function<void(Choices &)> f, long ex = 2000, double w = 1) { scenarios().push_back({n, f, ex, w}); } };
#define SCENARIO(name) static void sc_##name(drv::Choices &c); static drv::Reg rg_##name(#name, sc_##name); static void sc_##name(drv::Choices &c)
// ex: cases to enumerate in full order before random search
#define SCENARIO_N(name, ex, w) static void sc_##name(drv::Choices &c); static drv::Reg rg_##name(#name, sc_##name, ex, w); static void sc_##name(drv::Choices &c)

template<class... A> [[noreturn]] void fail(A const &... a) { std::ostringstream o; int d[] = {0, ((void)(o << a), 0)...}; (void)d; throw Failure{o.str()}; }
#define CHECK(cond, ...) do { if (!(cond)) drv::fail(__VA_ARGS__); } while (0)
template<class A, class B, class... M> void same(A const &got, B const &want, M const &... m) {
    if (!(got == want)) { std::ostringstream o; int d[] = {0, ((void)(o << m), 0)...}; (void)d; o << ": got " << got << ", expected " << want; throw Failure{o.str()}; }
}
template<class T> std::string show(std::vector<T> const &v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
template<class T, class... M> void samev(std::vector<T> const &got, std::vector<T> const &want, M const &... m) { if (got != want) { std::ostringstream o; int d[] = {0, ((void)(o << m), 0)...}; (void)d; o << ": got " << show(got) << ", expected " << show(want); throw Failure{o.str()}; } }

struct Shared { volatile int state; volatile int scen; volatile int n; int val[4096]; volatile long evals, distinct, exhausted; char msg[65536]; char sample[4][512]; volatile int nsamples; };
inline Shared *&shared() { static Shared *s = nullptr; return s; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void publish(Choices &c, int sc) {
    Shared *s = shared(); s->scen = sc; int n = int(c.given.size()); if (n > 4096) n = 4096;
    for (int i = 0; i < n; ++i) s->val[i] = c.given[i];
    s->n = n;
}
inline std::string enc(std::vector<int> const &v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? "." : "") + std::to_string(v[i]); return s.empty() ? "-" : s; }

// one case; empty string when the expectations hold
inline std::string run_case(Scenario &s, Choices &c) {
    try { s.run(c); return ""; }
    catch (Failure &f) { return f.what.empty() ? "failed" : f.what; }
    catch (std::exception &e) { return std::string("unexpected exception: ") + e.what(); }
    catch (...) { return "unexpected exception"; }
}

inline void child_search(uint64_t seed, double budget, const char *only) {
    Shared *S = shared(); Rng rng{seed};
    double total = 0; for (auto &s : scenarios()) if (!only || s.name == only) total += s.weight;
    for (size_t si = 0; si < scenarios().size(); ++si) {
        auto &s = scenarios()[si];
        if (only && s.name != only) continue;
        double end = now() + budget * s.weight / total;
        std::unordered_set<uint64_t> seen;
        std::vector<int> given; long done = 0; bool more = true; bool randomMode = false;
        std::vector<int> val, bound;
        while (now() < end || done < 20) {
            Choices c;
            if (!randomMode) c.given = given;
            else {
                c.rng = nullptr; c.given.clear();
                // draw ahead so that a crash can be replayed: plain random numbers, reduced by pick
                for (int i = 0; i < 400; ++i) c.given.push_back(int(rng.next() % 1000003));
            }
            publish(c, int(si));
            alarm(60);
            std::string r = run_case(s, c);
            alarm(0);
            if (!r.empty()) {
                c.given = c.val; publish(c, int(si));
                std::snprintf(S->msg, sizeof S->msg, "%s", r.c_str()); S->state = 1; _exit(0);
            }
            ++done; S->evals = S->evals + 1;
            uint64_t h = 1469598103934665603ull; for (int v : c.val) { h ^= uint64_t(v) + 1; h *= 1099511628211ull; }
            if (c.val.size() > 0 && seen.size() < 2000000 && seen.insert(h).second) {
                S->distinct = S->distinct + 1;
                if (S->nsamples < 4 && done % 7 == 1) { std::snprintf(S->sample[S->nsamples], 512, "%s %s", s.name.c_str(), enc(c.val).substr(0, 400).c_str()); S->nsamples = S->nsamples + 1; }
            }
            if (!randomMode) {
                val = c.val; bound = c.bound;
                while (!val.empty() && val.back() + 1 >= bound.back()) { val.pop_back(); bound.pop_back(); }
                if (val.empty()) { more = false; S->exhausted = S->exhausted + 1; break; }
                ++val.back(); given = val;
                if (done >= s.exhaustive) randomMode = true;
            }
        }
        (void)more;
    }
    S->state = 2; _exit(0);
}

inline int report(Shared *S, int sc, std::vector<int> v, std::string msg, const char *argv0);

// run one case in a child; returns "" or the failure text
inline std::string isolated(int sc, std::vector<int> const &v, std::vector<std::string> *notes, std::vector<int> *used) {
    int fd[2]; if (pipe(fd)) _exit(3);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]); alarm(60);
        Choices c; c.given = v; c.log = true;
        FILE *o = fdopen(fd[1], "w");
        // notes are written even if the case crashes
        static Choices *cc; static FILE *oo; cc = &c; oo = o;
        auto dump = [](int sig) { for (auto &n : cc->notes) std::fprintf(oo, "N%s\n", n.c_str()); std::fprintf(oo, "V"); for (int x : cc->val) std::fprintf(oo, " %d", x); std::fprintf(oo, "\n"); if (sig) { std::fprintf(oo, "Rcrashed or hung (signal %d)\n", sig); fflush(oo); _exit(0); } };
        for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGTRAP}) signal(sg, dump);
        std::string r = run_case(scenarios()[sc], c);
        dump(0);
        for (auto &ch : r) if (ch == '\n') ch = ' ';
        std::fprintf(o, "R%s\n", r.c_str()); fflush(o); _exit(0);
    }
    close(fd[1]); std::string all; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) all.append(b, n);
    close(fd[0]); int st; waitpid(p, &st, 0);
    std::string res; bool got = false; std::istringstream is(all); std::string l;
    while (std::getline(is, l)) {
        if (l[0] == 'N' && notes) notes->push_back(l.substr(1));
        if (l[0] == 'V' && used) { used->clear(); std::istringstream q(l.substr(1)); int x; while (q >> x) used->push_back(x); }
        if (l[0] == 'R') { got = true; res = l.substr(1); }
    }
    if (!got) { std::ostringstream o; o << "crashed (wait status " << st << ")"; res = o.str(); }
    return res;
}

inline int report(int sc, std::vector<int> v, std::string msg, bool shrink) {
    std::vector<int> used; std::string r = isolated(sc, v, nullptr, &used);
    if (r.empty()) {
        // depends on what ran before in the same process: keep the case as found
        std::printf("FAIL %s %s %s\n", scenarios()[sc].name.c_str(), enc(v).c_str(), ("(only after earlier cases) " + msg).c_str());
        return 1;
    }
    if (!used.empty()) v = used;
    if (shrink) {
        double end = now() + 10; bool again = true;
        while (again && now() < end) {
            again = false;
            for (size_t i = v.size(); i-- > 0 && now() < end;) {
                for (int t : {0, v[i] / 2, v[i] - 1}) {
                    if (t < 0 || t >= v[i]) continue;
                    auto w = v; w[i] = t; std::vector<int> u;
                    std::string q = isolated(sc, w, nullptr, &u);
                    if (!q.empty()) { v = u.empty() ? w : u; r = q; again = true; break; }
                }
                if (i >= v.size()) i = v.size();
            }
        }
    }
    std::vector<std::string> notes; r = isolated(sc, v, &notes, nullptr);
    for (auto &n : notes) std::printf("STEP %s\n", n.c_str());
    std::printf("FAIL %s %s %s\n", scenarios()[sc].name.c_str(), enc(v).c_str(), r.empty() ? msg.c_str() : r.c_str());
    return 1;
}

inline int main_(int argc, char **argv) {
    uint64_t seed = 1; double budget = 5; const char *only = nullptr; const char *cs = nullptr;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--scenario") only = argv[++i];
        else if (a == "--case") cs = argv[++i];
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    shared() = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (cs) {
        for (size_t i = 0; i < scenarios().size(); ++i) if (only && scenarios()[i].name == only) {
            std::vector<int> v; std::string t; for (const char *p = cs; ; ++p) { if (*p == '.' || !*p) { if (!t.empty() && t != "-") v.push_back(atoi(t.c_str())); t.clear(); if (!*p) break; } else t += *p; }
            std::string r = isolated(int(i), v, nullptr, nullptr);
            if (r.empty()) { std::printf("PASS %s %s\n", only, cs); return 0; }
            return report(int(i), v, r, false);
        }
        std::printf("ERROR no such scenario\n"); return 3;
    }
    pid_t p = fork();
    if (p == 0) child_search(seed, budget, only);
    int st; waitpid(p, &st, 0);
    Shared *S = shared();
    int rc = 0;
    if (S->state != 2) {
        std::vector<int> v(S->val, S->val + S->n);
        std::ostringstream o; if (S->state == 1) o << S->msg; else o << "crashed or hung (wait status " << st << ")";
        rc = report(S->scen, v, o.str(), true);
    }
    std::printf("STATS evaluations=%ld distinct=%ld scenarios=%zu exhausted=%ld\n", (long)S->evals, (long)S->distinct, scenarios().size(), (long)S->exhausted);
    for (int i = 0; i < S->nsamples; ++i) std::printf("SAMPLE %s\n", S->sample[i]);
    return rc;
}
} // namespace drv
#define DRIVER_MAIN int main(int argc, char **argv) { return drv::main_(argc, argv); }
