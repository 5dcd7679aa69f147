#include <algorithm>
#include "vals.h"
using namespace vals;

namespace {
struct Tab { std::vector<int64_t> i; std::vector<double> f; };
Tab *gTab;
Tiny_Value fHi(Tiny_StateThread *t, const Tiny_Value *a, int) { Thread::of(t); return Tiny_NewInt(gTab->i[Tiny_ToInt(a[0])]); }
Tiny_Value fHf(Tiny_StateThread *t, const Tiny_Value *a, int) { Thread::of(t); return Tiny_NewFloat(gTab->f[Tiny_ToInt(a[0])]); }

int64_t wideInt(Gen &g) {
    switch (g.below(5)) {
        case 0: return someInt(g);
        case 1: { int64_t v = (int64_t)((uint64_t)1 << g.below(64)); return v + g.range(-2, 2) * (v != INT64_MIN); }
        case 2: return (int64_t)(g.bits64() >> g.below(64));
        case 3: return -(int64_t)(g.bits64() >> (1 + g.below(63)));
        default: return (int64_t)g.bits64();
    }
}
double wideFloat(Gen &g) {
    double d;
    switch (g.below(7)) {
        case 0: return someFloat(g);
        case 1: { uint64_t b = g.bits64(); memcpy(&d, &b, 8); return d == d ? d : 0.1; }
        case 2: return (double)wideInt(g);
        case 3: return (double)g.range(-100000, 100000) / 10.0;
        case 4: return std::ldexp((double)g.range(1, 1 << 20), (int)g.range(-1074, 900)) * (g.coin() ? 1 : -1);
        case 5: { static const double s[] = {0.1, 1.0 / 3, 2.0 / 3, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e15, 1e16, 1e17, 1e21, 123456789.0, 1234567.5, 16777216, 16777217, 16777219, 4503599627370497.5, 9007199254740993.0, 0.30000000000000004, 100000, 1000000, 999999.5, 1e-4, 1e-5, -0.0}; return s[g.below(24)]; }
        default: { float f = (float)g.range(-1000000, 1000000) / (float)g.range(1, 1000); return g.coin() ? (double)f : std::nextafter((double)g.range(-1000, 1000) / 10.0, g.coin() ? 1e9 : -1e9); }
    }
}
std::string inBase(int64_t v, int base, Gen &g) {
    std::string r;
    bool neg = v < 0, up = g.coin();
    uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v;
    do { int d = (int)(u % base); r += d < 10 ? (char)('0' + d) : (char)((up ? 'A' : 'a') + d - 10); u /= base; } while (u);
    if (g.chance(1, 8)) r += std::string(g.range(1, 4), '0');
    if (neg) r += '-'; else if (g.chance(1, 10)) r += '+';
    std::reverse(r.begin(), r.end());
    if (g.chance(1, 10)) r = " " + r;
    if (g.chance(1, 10)) r += g.coin() ? " " : ".5";
    return r;
}
struct W {
    Gen &g;
    Tab tab;
    StrTable strs;
    std::string text;
    std::vector<std::string> trace;
    explicit W(Gen &g) : g(g) {}
    std::string ex(int64_t v) {
        switch (g.below(3)) {
            case 0: tab.i.push_back(v); return strf("hi(%zu)", tab.i.size() - 1);
            case 1: { std::string n = strf("vi%zu", text.size()); text += n + " := " + intText(v) + "\n"; return n; }
            default: return intText(v);
        }
    }
    std::string exf(double d) {
        if (!std::isfinite(d) || std::fabs(d) > 1e25 || (d != 0 && std::fabs(d) < 1e-25) || g.coin()) { tab.f.push_back(d); return strf("hf(%zu)", tab.f.size() - 1); }
        return fltText(d);
    }
    std::string exs(const std::string &s) { return strEx(g, strs, s); }
    static std::string show(double d) { return "f" + fmtFloat(d); }
    void out(const std::string &e, const std::string &want) { text += "emit(" + e + ")\n"; trace.push_back("emit " + want); }
    std::string i64(int64_t v) { return "int_to_i64(" + ex(v) + ")"; }
    void op() {
        switch (g.below(16)) {
            case 0: { int64_t v = wideInt(g); out("int_to_str(" + ex(v) + ")", quote(std::to_string(v))); break; }
            case 1: { int64_t v = wideInt(g); out("ntos(" + ex(v) + ")", quote(std::to_string(v))); break; }
            case 2: { int64_t v = wideInt(g); std::string x = ex(v); out(g.coin() ? "str_to_int(int_to_str(" + x + ")) == " + x : "stoi(ntos(" + x + "), 10) == " + x, "true"); break; }
            case 3: { int64_t v = wideInt(g); out("str_to_int(" + exs(inBase(v, 10, g)) + ")", std::to_string(v)); break; }
            case 4: {
                int64_t v = wideInt(g);
                int b = g.coin() ? (int)g.range(2, 36) : (int)(g.coin() ? 16 : 2);
                std::string s = inBase(v, b, g);
                // a digit behind the number would belong to it
                size_t dot = s.find('.');
                if (dot != std::string::npos) s = s.substr(0, dot);
                out("stoi(" + exs(s) + strf(", %d)", b), std::to_string(v));
                break;
            }
            case 5: {
                double d = wideFloat(g);
                std::string x = exf(d);
                out("ston(ntos(" + x + "))", show(d));
                break;
            }
            case 6: {  // any decimal text
                std::string s = g.coin() ? "-" : "";
                int n = (int)g.range(1, g.chance(1, 5) ? 40 : 8);
                for (int i = 0; i < n; ++i) s += (char)('0' + g.below(10));
                if (g.coin()) { s += "."; n = (int)g.range(1, g.chance(1, 5) ? 40 : 6); for (int i = 0; i < n; ++i) s += (char)('0' + g.below(10)); }
                if (g.chance(1, 3)) s += strf("e%d", (int)g.range(-310, 308));
                out("ston(" + exs(s) + ")", show(strtod(s.c_str(), nullptr)));
                break;
            }
            case 7: { double d = wideFloat(g), r = std::floor(d); out("floor(" + exf(d) + ")", show(r)); break; }
            case 8: { double d = wideFloat(g), r = std::ceil(d); out("ceil(" + exf(d) + ")", show(r)); break; }
            case 9: { int64_t v = wideInt(g); out("float(" + ex(v) + ")", show((double)v)); break; }
            case 10: { double d = wideFloat(g); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) d = (double)g.range(-1000, 1000) / 8; out("int(" + exf(d) + ")", std::to_string((int64_t)d)); break; }
            case 11: { int64_t v = wideInt(g); out("i64_to_string(" + i64(v) + ")", quote(std::to_string(v))); break; }
            case 12: case 13: {  // sums whose partial sums fit
                bool mul = g.coin();
                int n = (int)g.range(1, g.chance(1, 6) ? 20 : 5);
                int64_t v = wideInt(g);
                if (mul && g.coin()) v = g.range(-1000, 1000);
                std::string e = (mul ? "i64_mul_many(" : "i64_add_many(") + i64(v);
                __int128 acc = v;
                for (int i = 0; i < n; ++i) {
                    int64_t w = mul ? (g.coin() ? g.range(-9, 9) : wideInt(g)) : wideInt(g);
                    __int128 r = mul ? acc * w : acc + w;
                    if (r > INT64_MAX || r < INT64_MIN) { w = mul ? 1 : -(int64_t)(acc / 3); r = mul ? acc : acc + w; }
                    acc = r;
                    e += ", " + (g.chance(1, 10) ? "i64_add_many(" + i64(w) + ")" : i64(w));
                }
                out("i64_to_string(" + e + "))", quote(std::to_string((int64_t)acc)));
                break;
            }
            case 14: out("INT_MAX", "2147483647"); break;
            default: {  // the host's own conversions
                int64_t v = wideInt(g);
                out("pass_i(" + ex(v) + ")", std::to_string(v));
                double d = wideFloat(g);
                out("pass_f(" + exf(d) + ")", show(d));
            }
        }
    }
};
void script(Gen &g, Case &c) {
    W w(g);
    w.text = "func pass_i(x: int): int { return x }\nfunc pass_f(x: float): float { return x }\n";
    int n = (int)g.range(1, 30);
    for (int i = 0; i < n; ++i) w.op();
    c.say(w.text);
    for (size_t i = 0; i < w.tab.i.size(); ++i) c.say(strf("// hi(%zu) = %lld\n", i, (long long)w.tab.i[i]));
    for (size_t i = 0; i < w.tab.f.size(); ++i) c.say(strf("// hf(%zu) = %a\n", i, w.tab.f[i]));
    for (size_t i = 0; i < w.strs.v.size(); ++i) c.say(strf("// string %zu = %s\n", i, quote(*w.strs.v[i]).c_str()));
    c.nontrivial = n >= 3;
    gTab = &w.tab;
    table() = &w.strs;
    Host h;
    Tiny_BindI64(h.state);
    bindStrings(h.state);
    Tiny_BindFunction(h.state, "hi(int): int", fHi);
    Tiny_BindFunction(h.state, "hf(int): float", fHf);
    h.mustCompile(w.text);
    Thread t(h);
    t.start();
    t.run();
    compareTrace(w.trace, t.trace);
}
// Random numbers: the same seed gives the same numbers, whatever happens between the two.
void randoms(Gen &g, Case &c) {
    int64_t seed = g.chance(1, 3) ? someInt(g) : g.range(0, 100000), other = g.range(0, 1000);
    int n = (int)g.range(1, 30), skip = (int)g.below(5);
    std::string t = strf("use array(\"int\") as ints\nfunc draw(n: int): ints { a := ints() for i := 0; i < n; i += 1 { ints_push(a, rand()) } return a }\n"
                         "srand(%s)\na := draw(%d)\nsrand(%lld)\ndraw(%d)\nsrand(%s)\nb := draw(%d)\nemit(a)\nemit(b)\n", intText(seed).c_str(), n, (long long)other, skip, intText(seed).c_str(), n);
    c.say(t);
    Host h;
    h.mustCompile(t);
    for (int k = 0; k < 2; ++k) {
        Thread th(h);
        th.start();
        if (k) while (th.step()) {} else th.run();
        PBT_CHECK(th.trace.size() == 2 && th.trace[0] == th.trace[1], "the numbers differ for the same seed:\n%s\n%s", th.trace[0].c_str(), th.trace.size() > 1 ? th.trace[1].c_str() : "");
        PBT_CHECK(th.trace[0].find('-') == std::string::npos, "a random number is negative: %s", th.trace[0].c_str());
        static thread_local std::string first;
        if (k == 0) first = th.trace[0];
        else PBT_CHECK(first == th.trace[0], "another run with the same seed gives other numbers");
    }
    c.nontrivial = n >= 2;
}
// The inline accessors of the API.
void api(Gen &g, Case &c) {
    int n = (int)g.range(1, 20);
    for (int k = 0; k < n; ++k) {
        int64_t v = wideInt(g);
        double d = wideFloat(g);
        bool b = g.coin();
        c.say(strf("%lld %a %d\n", (long long)v, d, b));
        Tiny_Value i = Tiny_NewInt(v), f = Tiny_NewFloat(d), bo = Tiny_NewBool(b);
        PBT_CHECK(Tiny_ToInt(i) == v, "%lld becomes %lld", (long long)v, (long long)Tiny_ToInt(i));
        double r = Tiny_ToFloat(f);
        PBT_CHECK(memcmp(&r, &d, 8) == 0, "%a becomes %a", d, r);
        PBT_CHECK(Tiny_ToBool(bo) == b, "bool");
        r = Tiny_ToNumber(i);
        PBT_CHECK(r == (double)v, "%lld as a number is %a", (long long)v, r);
        r = Tiny_ToNumber(f);
        PBT_CHECK(memcmp(&r, &d, 8) == 0, "%a as a number is %a", d, r);
        PBT_CHECK(Tiny_ToInt(f) == 0 && Tiny_ToFloat(i) == 0 && Tiny_ToNumber(bo) == 0, "conversions of other kinds give 0");
    }
    c.nontrivial = true;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C26";
    p.title = "Numeric conversions and the numeric library compute exact results";
    p.assumptions = {"results and partial results fit 64 bits; floats converted to int are within the int range", "NaN is not rendered"};
    p.families.push_back({"script", "at least three computations", script, 20000, 2500000});
    p.families.push_back({"randoms", "at least two numbers drawn", randoms, 6000, 700000});
    p.families.push_back({"api", "every case", api, 20000, 2000000});
    return run(argc, argv, p);
}
