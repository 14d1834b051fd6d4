// Shared by the replay drivers: case bookkeeping, randomness, crash reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <functional>
#include <unordered_set>
#include <iostream>
#include <chrono>
#include <csignal>
#include <unistd.h>

namespace drv {
inline long evals = 0, nontrivial = 0;
inline std::unordered_set<uint64_t> seen;
inline std::map<std::string, int> fails;
inline std::map<std::string, long> parts;
inline std::string current;
inline int samples = 0;
inline uint64_t seed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, nullptr, 10) : 1; }
inline bool thorough() { const char* s = getenv("VERIF_TIER"); return s && !strcmp(s, "thorough"); }
inline std::mt19937_64& rng() { static std::mt19937_64 r(seed() * 7919 + 17); return r; }
inline int rnd(int lo, int hi) { return lo + (int)(rng()() % (uint64_t)(hi - lo + 1)); }
inline bool coin() { return rng()() & 1; }
inline void fail(const std::string& key, const std::string& text)
{
    if (fails[key]++ < 3) {
        std::string t = text;
        for (auto& ch : t) if (ch == '\n') ch = ' ';
        printf("FAIL key=%s :: %s\n", key.c_str(), t.c_str());
        fflush(stdout);
    }
}
// one evaluated case; the text describes the input, so that a crash can be attributed
inline void cas(const std::string& part, const std::string& text, bool trivial = false)
{
    evals++;
    parts[part]++;
    current = part + " " + text;
    if (!trivial && seen.insert(std::hash<std::string>{}(current)).second) {
        nontrivial++;
        if (samples < 4 && (nontrivial % 97) == 3) { samples++; printf("SAMPLE %s\n", current.substr(0, 300).c_str()); }
    }
}
inline void onexit_print()
{
    std::string t = current;
    for (auto& ch : t) if (ch == '\n') ch = ' ';
    printf("\nCURRENT %s\n", t.c_str());
    fflush(stdout);
}
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void on_signal(int) { onexit_print(); _exit(78); }
inline void on_alarm(int) { onexit_print(); printf("FAIL key=hang:%s :: no answer within the time limit on: %s\n", current.substr(0, current.find(' ')).c_str(), current.c_str()); fflush(stdout); _exit(1); }
inline void init(const char* rule)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    __sanitizer_set_death_callback(onexit_print);
    signal(SIGABRT, on_signal);
    signal(SIGALRM, on_alarm);
    printf("RULE %s\n", rule);
}
inline int finish()
{
    printf("EVALS %ld NONTRIVIAL %ld\n", evals, nontrivial);
    for (auto& [k, v] : parts) printf("PART %s %ld\n", k.c_str(), v);
    return fails.empty() ? 0 : 1;
}
struct Timer {
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    double s() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
inline double budget(double quick, double deep) { return thorough() ? deep : quick; }
}
#define CHECK_(key, cond, text) do { if (!(cond)) { std::ostringstream os_; os_ << text << " [" << #cond << "]"; drv::fail(key, os_.str()); } } while (0)
