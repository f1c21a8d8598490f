// helper of the native harnesses: cases, failures, statistics
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include "eckit/os/BackTrace.h"

// exceptions are expected by the thousand: do not resolve a stack for each
std::string eckit::BackTrace::dump() { return std::string(); }

namespace vh {
inline char cur[4096] = "start";
inline long evals = 0, distinct = 0, nsamples = 0, nfail = 0;
inline std::set<size_t> seen;
inline std::mt19937_64 rng;
inline bool thorough = false;
inline std::string dir, prop;

// announces the case about to be run: a crash or hang is attributed to it
inline void kase(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void kase(const char* f, ...) {
    va_list a;
    va_start(a, f);
    vsnprintf(cur, sizeof cur, f, a);
    va_end(a);
    ++evals;
    if (seen.size() < 2000000 && seen.insert(std::hash<std::string>()(cur)).second) {
        ++distinct;
        if (nsamples < 4 || (distinct % 5000 == 0 && nsamples < 10)) {
            ++nsamples;
            std::string s(cur);
            for (auto& c : s) if (c == '\n') c = ' ';
            printf("SAMPLE %s\n", s.c_str());
        }
    }
}
inline void fail(const char* id, const std::string& msg) {
    std::string s = std::string(cur) + " :: " + msg;
    for (auto& c : s) if (c == '\n') c = ' ';
    if (nfail < 200) printf("FAIL id=%s %s\n", id, s.c_str());
    fflush(stdout);
    ++nfail;
}
#define CHECK(id, cond, ...)                                  \
    do {                                                      \
        if (!(cond)) {                                        \
            std::ostringstream vh_o;                          \
            vh_o << "expected " << #cond << " " __VA_ARGS__;  \
            vh::fail(id, vh_o.str());                         \
        }                                                     \
    } while (0)
inline void on_signal(int s) {
    char b[4600];
    for (char* c = cur; *c; ++c) if (*c == '\n') *c = ' ';
    int n = snprintf(b, sizeof b, "FAIL id=%s %s :: signal %d\nSTATS evaluations=%ld distinct=%ld\n", s == SIGALRM ? "hang" : "crash", cur, s, evals, distinct);
    fflush(stdout);
    (void)!write(1, b, n);
    _exit(1);
}
inline size_t rnd(size_t n) { return n ? rng() % n : 0; }
// runs f; true when it throws
template <class F>
bool throws(F f, std::string* what = nullptr) {
    try {
        f();
    }
    catch (const std::exception& e) {
        if (what) *what = e.what();
        return true;
    }
    catch (...) {
        return true;
    }
    return false;
}
inline int run(int argc, char** argv, std::function<void()> body) {
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
    const char* e = getenv("VERIF_SEED");
    rng.seed(e ? strtoull(e, nullptr, 10) : 1);
    e = getenv("VERIF_TIER");
    thorough = e && std::string(e) == "thorough";
    e = getenv("VH_DIR");
    dir = e ? e : "/tmp";
    prop = argc > 1 ? argv[1] : "";
    alarm(thorough ? 390 : 200);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (!getenv("VH_LOG")) {
        std::cout.rdbuf(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    try {
        body();
    }
    catch (const std::exception& x) {
        fail("exception", std::string("unexpected exception ") + x.what());
    }
    printf("STATS evaluations=%ld distinct=%ld\n", evals, distinct);
    fflush(stdout);
    _exit(nfail ? 1 : 0);
}
}  // namespace vh
