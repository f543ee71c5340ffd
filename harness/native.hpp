// Runs the proof functions of a harness as ordinary programs: with given values
// (the replay of a counterexample) or with drawn ones.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <type_traits>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
namespace native {
    struct Shared { char values[8192]; char what[512]; long runs, assumed, used; };
    inline Shared *sh() { static Shared *s = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
    inline long &live() { static long n = 0; return n; }
    struct Discard {};
    struct Source {
        std::vector<std::string> given; size_t pos = 0; uint64_t s = 1; std::vector<long long> seen; bool random = false;
        uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        void note(const std::string &t) { size_t l = strlen(sh()->values); snprintf(sh()->values + l, sizeof(sh()->values) - l, "%s%s", l ? "," : "", t.c_str()); }
        long long draw() {
            switch (next() % 8) {
                case 0: case 1: case 2: return (long long) (next() % 7) - 2;
                case 3: if (!seen.empty()) return seen[next() % seen.size()]; return 0;
                case 4: if (!seen.empty()) return (long long) ((uint64_t) seen[next() % seen.size()] + (next() % 2 ? 1 : -1)); return 1;
                case 5: return (long long) (next() % 2000) - 1000;
                case 6: { static const long long e[] = {2147483647ll, -2147483648ll, 255, 256, 127, 128, -128, 65535, 65536, 32767, 32768, 9223372036854775807ll, -9223372036854775807ll - 1, 4294967295ll, 4294967296ll}; return e[next() % (sizeof(e) / sizeof(*e))]; }
                default: return (long long) next();
            }
        }
        template<class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value, T>::type get() {
            long long v = pos < given.size() ? strtoll(given[pos].c_str(), nullptr, 10) : random ? draw() : 0; ++pos; T t = (T) v; seen.push_back((long long) t); note(std::to_string((long long) t)); return t; }
        template<class T> typename std::enable_if<std::is_floating_point<T>::value, T>::type get() {
            T t = 0; if (pos < given.size()) t = (T) strtod(given[pos].c_str(), nullptr); else if (random) { long long v = draw(); t = next() % 4 ? (T) v : (T) v / 3; } ++pos; char b[64]; snprintf(b, 64, "%a", (double) t); note(b); return t; }
    };
    inline Source &src() { static Source s; return s; }
    inline std::string &failed() { static std::string s; return s; }
    template<class... A> void call(void (*f)(A...)) { std::tuple<A...> t{src().get<A>()...}; std::apply(f, t); }
    struct Test { const char *name, *props; void (*run)(); };
    // one case; empty when all holds
    inline std::string one(const Test &t) {
        failed().clear(); sh()->values[0] = 0; src().pos = 0; src().seen.clear(); std::string r;
        try { t.run(); r = failed(); sh()->runs++; } catch (Discard &) { sh()->assumed++; r = failed(); } catch (...) { r = "an exception leaves the proof function"; }
        return r;
    }
    inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
    inline int isolated(const Test &t, double secs, long n, uint64_t seed) {
        pid_t p = fork();
        if (!p) {
            double end = now() + secs;
            for (long i = 0; i < n && now() < end; ++i) {
                src().s = seed + i * 7919; std::string r = one(t);
                if (!r.empty()) { snprintf(sh()->what, 512, "%s", r.c_str()); _exit(3); }
            }
            _exit(0);
        }
        int st = 0; double end = now() + secs + 20; bool late = false;
        while (waitpid(p, &st, WNOHANG) == 0) { if (now() > end) { late = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(2000); }
        if (late) { snprintf(sh()->what, 512, "does not end"); return 2; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) snprintf(sh()->what, 512, "%s %d", WIFSIGNALED(st) ? "ended by signal" : "ended with status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        return 1;
    }
    inline int main(int argc, char **argv, const std::vector<Test> &tests) {
        sh();
        if (argc >= 4 && !strcmp(argv[1], "--run")) {
            std::string v = argv[3], x; for (char c : v + ",") if (c == ',') { if (!x.empty()) src().given.push_back(x); x.clear(); } else x += c;
            for (auto &t : tests) if (!strcmp(t.name, argv[2])) { int r = isolated(t, 30, 1, 1); if (r) printf("FAIL %s %s %s\n", t.name, sh()->values, sh()->what); else if (!sh()->runs) printf("DISCARDED\n"); fflush(stdout); return r == 1; }
            return 2;
        }
        std::string prop = argv[1]; uint64_t seed = strtoull(argv[2], nullptr, 10); double secs = atof(argv[3]); src().random = true; int bad = 0; std::vector<const Test *> use;
        for (auto &t : tests) if (std::string(" ").append(t.props).append(" ").find(" " + prop + " ") != std::string::npos) use.push_back(&t);
        for (auto t : use) { fflush(stdout); int r = isolated(*t, secs / use.size(), 400, seed * 1000003); if (r == 1) { ++bad; printf("FAIL %s %s %s\n", t->name, sh()->values, sh()->what); } else if (r == 2) printf("LATE %s\n", t->name); }
        printf("STATS theorems=%zu runs=%ld discarded=%ld\n", use.size(), sh()->runs, sh()->assumed); fflush(stdout); return bad ? 1 : 0;
    }
}
extern "C" void verif_prove(bool c, const char *what) { if (!c && native::failed().empty()) native::failed() = what; }
extern "C" void verif_assume(bool c) { if (!c) throw native::Discard(); }
extern "C" bool verif_bool() { return native::src().get<bool>(); }
extern "C" int verif_int() { return native::src().get<int>(); }
extern "C" long verif_live() { return native::live(); }
void *operator new(std::size_t n) { ++native::live(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0xA5, n); return p; }
void operator delete(void *p) noexcept { if (p) --native::live(); free(p); }
void operator delete(void *p, std::size_t) noexcept { if (p) --native::live(); free(p); }
