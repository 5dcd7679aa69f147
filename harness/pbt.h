// Small property-based testing engine.
//
// A case is a function of a finite sequence of choices.  The choices come from a seeded generator
// (search) or from a stored vector (replay, shrinking).  Cases run in forked worker processes, so a
// crash, failed assertion, sanitizer report or endless loop in the code under test is attributed to
// the case that caused it, shrunk, and written out as a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return mix(h);
}

struct Discard {};                     // the generated case is outside the property's domain
struct Failure { std::string msg; };   // the property does not hold on this case

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(::pbt::strf(__VA_ARGS__)); } while (0)

class Gen {
public:
    std::vector<uint64_t> choices;  // recorded choices
    size_t pos = 0;
    bool replaying = false;
    uint64_t st = 0;
    // Uniform choice in [0,n).  0 is the "simplest" choice: shrinking moves towards it.
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (replaying) {
            v = pos < choices.size() ? choices[pos] % n : 0;
            ++pos;
        } else {
            st = mix(st + 0x632be59bd9b4e019ULL);
            v = (uint64_t)(((__uint128_t)st * n) >> 64);
            choices.push_back(v);
            ++pos;
            if (choices.size() > 200000) throw Discard{};
        }
        return v;
    }
    uint64_t bits64() { uint64_t hi = below(1ULL << 32), lo = below(1ULL << 32); return hi << 32 | lo; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
    bool coin() { return below(2) == 1; }
    template <class C> auto &pick(C &c) { return c[below(c.size())]; }
    // weighted index; put the simplest alternative first
    size_t weighted(std::initializer_list<int> w) {
        int tot = 0;
        for (int x : w) tot += x;
        int64_t r = (int64_t)below(tot);
        size_t i = 0;
        for (int x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    size_t weightedv(const std::vector<int> &w) {
        int tot = 0;
        for (int x : w) tot += x;
        int64_t r = (int64_t)below(tot);
        for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
        return 0;
    }
};

struct Case {
    std::string text;          // readable description: program, history, inputs
    bool nontrivial = false;   // by the stated rule of the family
    std::vector<std::string> labels;
    std::function<void()> onText;
    void say(const std::string &s);   // appends to the description (survives crashes)
    void label(const std::string &l) { labels.push_back(l); }
    void labelIf(bool b, const char *l) { if (b) labels.push_back(l); }
};

struct Family {
    std::string name;
    std::string rule;  // what makes a case of this family non-trivial
    std::function<void(Gen &, Case &)> fn;
    uint64_t quick, thorough;
};

struct Property {
    std::string id;
    std::string title;
    std::vector<std::string> assumptions;
    std::vector<Family> families;
    std::string notes;
    int workers = 8;
    bool trustFlaky = false;  // a failure counts even if it does not come back (data races)
    int cpuPerCase = 15;  // seconds of CPU time after which one case counts as endless
};

int run(int argc, char **argv, const Property &p);

extern bool gVerbose;
std::string scratch();  // a directory of this process, removed at the end of the run whatever happens

}  // namespace pbt
