// Values, their script expressions and their canonical texts, for the checks of the libraries.
#pragma once
#include "lang.h"

namespace vals {
using namespace pbt;
using namespace lang;

// A string literal of the language.
inline std::string lit(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            case '\b': r += "\\b"; break;
            default: r += c;
        }
    }
    return r + "\"";
}
inline std::string intText(int64_t v) {
    if (v == INT64_MIN) return "(-9223372036854775807 - 1)";
    return v < 0 ? "(" + std::to_string(v) + ")" : std::to_string(v);
}
inline std::string fltText(double d) {
    return std::signbit(d) ? "(-" + floatText(-d) + ")" : floatText(d);
}
inline int64_t someInt(Gen &g) {
    static const int64_t s[] = {0, 1, -1, 2, 3, 7, 10, 31, 32, 33, 64, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 4294967297LL, 9007199254740993LL, INT64_MAX, INT64_MIN, INT64_MIN + 1};
    switch (g.below(3)) {
        case 0: return g.range(-5, 12);
        case 1: return s[g.below(sizeof s / sizeof *s)];
        default: return (int64_t)g.bits64();
    }
}
inline double someFloat(Gen &g) {
    static const double s[] = {0, 1, 0.5, 2, 1.5, -1, -0.25, 0.1, 1e10, 4294967296.0, 123456.789, 1e-5, 3.0e20, 9007199254740992.0, -0.0};
    if (g.chance(2, 3)) return s[g.below(sizeof s / sizeof *s)];
    return (double)g.range(-1000000, 1000000) / (double)(1 << g.below(12));
}
inline std::string someStr(Gen &g, bool zeros = false) {
    static const char *s[] = {"", "a", "b", "ab", "ba", "aa", "A", "key", "key1", "host string", "\n", " ", "0", "1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
    switch (g.below(3)) {
        case 0: return s[g.below(15)];
        case 1: {
            std::string r;
            int n = (int)g.below(g.chance(1, 8) ? 300 : 8);
            for (int i = 0; i < n; ++i) r += (char)('a' + g.below(3));
            return r;
        }
        default: {
            std::string r;
            int n = (int)g.below(12);
            for (int i = 0; i < n; ++i) r += zeros && g.chance(1, 6) ? (char)0 : g.chance(1, 4) ? (char)g.range(1, 255) : (char)g.range(32, 126);
            return r;
        }
    }
}

// Strings the host hands out: hs(i) gives a new one, hsc(i) a constant one.
struct StrTable {
    std::vector<std::unique_ptr<std::string>> v;
    int add(const std::string &s) { v.emplace_back(new std::string(s)); return (int)v.size() - 1; }
};
inline StrTable *&table() { static thread_local StrTable *t; return t; }
inline Tiny_Value fHs(Tiny_StateThread *t, const Tiny_Value *a, int) {
    Thread::of(t);
    const std::string &s = *table()->v[Tiny_ToInt(a[0])];
    switch (s.size() % 3) {
        case 0: return Tiny_NewStringCopy(t, s.data(), s.size());
        case 1: {
            char *p = (char *)Tiny_AllocUsingContext(t->ctx, nullptr, s.size() + 1);
            memcpy(p, s.c_str(), s.size() + 1);
            return Tiny_NewString(t, p, s.size());
        }
        default:
            if (s.find('\0') == std::string::npos) return Tiny_NewStringCopyNullTerminated(t, s.c_str());
            return Tiny_NewStringCopy(t, s.data(), s.size());
    }
}
inline Tiny_Value fHsc(Tiny_StateThread *t, const Tiny_Value *a, int) { Thread::of(t); return Tiny_NewConstString(table()->v[Tiny_ToInt(a[0])]->c_str()); }
inline void bindStrings(Tiny_State *s) {
    Tiny_BindFunction(s, "hs(int): str", fHs);
    Tiny_BindFunction(s, "hsc(int): str", fHsc);
}
// An expression of type str with the given value, made in one of many ways.
inline std::string strEx(Gen &g, StrTable &t, const std::string &s, int d = 2) {
    bool zero = s.find('\0') != std::string::npos;
    switch (d <= 0 ? g.below(zero ? 1 : 2) : g.below(zero ? 3 : 6)) {
        case 0: return zero ? strf("hs(%d)", t.add(s)) : lit(s);
        case 1: { size_t k = g.below(s.size() + 1); if (d <= 0) return strf("hs(%d)", t.add(s)); return "strcat(" + strEx(g, t, s.substr(0, k), d - 1) + ", " + strEx(g, t, s.substr(k), d - 1) + ")"; }
        case 2: {
            std::string a(g.below(4), 'x'), b(g.below(4), 'y');
            return strf("substr(%s, %zu, %zu)", strEx(g, t, a + s + b, d - 1).c_str(), a.size(), a.size() + s.size());
        }
        case 3: return strf("hsc(%d)", t.add(s));
        case 4: return strf("hs(%d)", t.add(s));
        default: return lit(s);
    }
}

}  // namespace vals
