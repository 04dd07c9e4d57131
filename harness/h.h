// Witness search / replay harness support.  Everything here runs the real headers of the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
typedef __int128 i128; typedef unsigned __int128 u128;
// libc++abi frees exception objects with free(); not a defect of the code under test
extern "C" __attribute__((used)) const char* __asan_default_options() { return "alloc_dealloc_mismatch=0"; }
namespace vh {
struct Case { std::string name; int n; i128 a[12]; std::string* extra; };
static Case cur{"(none)", 0, {}, nullptr};
static unsigned long long evals = 0, last_evals = 0; static int stuck = 0;
static unsigned long long nontrivial = 0;
static std::string only;           // replay: restrict to one sub-check
static uint64_t seed = 1; static double budget = 5; static bool deep = false;
static std::vector<i128> lits;     // integer literals of the code under contract
static std::vector<std::string> samples;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t0;
inline std::string str(i128 x) { if (x == 0) return "0"; bool n = x < 0; u128 u = n ? -(u128)x : (u128)x; std::string s; while (u) { s += char('0' + int(u % 10)); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
inline std::string show() { std::string s = cur.name; s += "("; for (int i = 0; i < cur.n; i++) { if (i) s += ", "; s += str(cur.a[i]); } s += ")"; if (cur.extra) { s += " "; s += *cur.extra; } return s; }
inline void out(const char* kind, const std::string& msg) { printf("%s %s :: %s\n", kind, show().c_str(), msg.c_str()); fflush(stdout); }
inline void fail(const std::string& msg) { out("FAIL", msg); _exit(1); }
inline void death() { out("FAIL", "run-time error (undefined behaviour or memory error reported by the sanitizer)"); _exit(1); }
inline void onsig(int s) { if (s == SIGALRM) { if (evals == last_evals) { if (++stuck >= 2) { out("FAIL", "does not terminate (no progress for 20 s of CPU time)"); _exit(1); } } else stuck = 0; last_evals = evals; return; } out("FAIL", s == SIGSEGV ? "crash (SIGSEGV)" : s == SIGFPE ? "crash (SIGFPE)" : "crash (signal)"); _exit(1); }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void init(int argc, char** argv) {
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; 
        if (a.rfind("--seed=", 0) == 0) seed = strtoull(a.c_str() + 7, 0, 10);
        if (a.rfind("--budget=", 0) == 0) budget = atof(a.c_str() + 9);
        if (a == "--deep") deep = true;
        if (a.rfind("--only=", 0) == 0) only = a.substr(7);
        if (a.rfind("--lits=", 0) == 0) { const char* p = a.c_str() + 7; while (*p) { char* e; lits.push_back((i128)strtoll(p, &e, 10)); if (e == p) break; p = *e ? e + 1 : e; } }
    }
    t0 = now();
    static char stack[1 << 16]; stack_t ss; ss.ss_sp = stack; ss.ss_size = sizeof stack; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGALRM, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0);
    // CPU time, so that a loaded machine is not mistaken for non-termination
    sa.sa_flags = SA_ONSTACK | SA_RESTART; signal(SIGVTALRM, SIG_DFL);
    struct sigaction sv; memset(&sv, 0, sizeof sv); sv.sa_handler = [](int) { onsig(SIGALRM); }; sv.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sv, 0);
    itimerval it; it.it_interval.tv_sec = 10; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_VIRTUAL, &it, 0);
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(undefined_behavior_sanitizer)
    __sanitizer_set_death_callback(death);
#endif
#endif
}
inline bool on(const char* name) { return only.empty() || only == name; }
inline bool timeup(double frac = 1.0) { return now() - t0 > budget * frac; }
struct Rng { uint64_t s; uint64_t operator()() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
    // skewed magnitudes
    uint64_t any() { uint64_t v = (*this)(); return v >> ((*this)() & 63); } };
static Rng rng{1};
template<typename... A> inline void set(const std::string& name, A... a) { cur.name = name; cur.n = 0; cur.extra = nullptr; i128 t[] = {i128(0), (i128)a...}; for (size_t i = 1; i < sizeof(t) / sizeof(t[0]) && i <= 12; i++) cur.a[cur.n++] = t[i]; evals++; static unsigned long long nexts = 64; if (samples.size() < 6 && evals >= nexts) { samples.push_back(show()); nexts = evals * 4; } }
template<typename... A> inline void setx(const std::string& name, std::string* ex, A... a) { set(name, a...); cur.extra = ex; }
#define CHECK(cond, ...) do { if (!(cond)) vh::fail(std::string("violated: " #cond " ") + std::string(__VA_ARGS__)); } while (0)
// interesting values of an integral type, including literal neighbours
template<typename T> std::vector<T> edges(T lo, T hi) { std::vector<T> r; auto add = [&](i128 v) { if (v >= (i128)lo && v <= (i128)hi) r.push_back((T)v); };
    for (int i = -4; i <= 4; i++) { add(i); add((i128)lo + i); add((i128)hi + i); }
    for (int b = 3; b < 64; b++) for (int d = -2; d <= 2; d++) { add(((i128)1 << b) + d); add(-((i128)1 << b) + d); }
    for (i128 l : lits) for (int d = -1; d <= 1; d++) { add(l + d); add(-l + d); }
    for (i128 p : {6, 7, 9, 10, 12, 13, 25, 30, 97, 100, 210, 255, 257, 1000003, 65537}) add(p);
    add(1000000007); add(998244353); add((i128)1000000007 * 1000000007); add(3037000499LL); add(3037000500LL); add(46340); add(46341); add((i128)2147483647LL * 2147483647LL);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
template<typename T> T pick(const std::vector<T>& e, T lo, T hi) { uint64_t k = rng.below(8); if (k < 3) { T c = e[rng.below(e.size())]; if (c >= lo && c <= hi) return c; }
    u128 span = (u128)((i128)hi - (i128)lo); 
    if (k < 6) { u128 v = rng.any(); if (v > span) v = span ? v % span : 0; i128 base = (lo <= 0 && hi >= 0) ? 0 : (i128)lo; i128 r = base + (i128)v; if (k == 4) r = (i128)hi - (i128)v; if (k == 5) r = (i128)lo + (i128)v; if (r < lo) r = lo; if (r > hi) r = hi; return (T)r; }
    u128 v = ((u128)rng() << 64 | rng()); if (span + 1) v %= (span + 1); return (T)((i128)lo + (i128)v); }
inline int done() { printf("STATS {\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"samples\": [", evals, nontrivial ? nontrivial : evals); for (size_t i = 0; i < samples.size(); i++) { printf("%s\"", i ? ", " : ""); for (char c : samples[i]) { if (c == '"' || c == '\\') putchar('\\'); if ((unsigned char)c >= 32) putchar(c); } printf("\""); } printf("]}\n"); fflush(stdout); return 0; }
} // vh
