#include <algorithm>
#include "vals.h"
using namespace vals;

namespace {
std::string rstr(Gen &g) {
    switch (g.below(5)) {
        case 0: return someStr(g, true);
        case 1: { std::string r; int n = (int)g.below(10); for (int i = 0; i < n; ++i) r += (char)('a' + g.below(2)); return r; }
        case 2: { std::string r; int n = (int)g.range(0, 30); for (int i = 0; i < n; ++i) r += g.chance(1, 5) ? '\0' : (char)g.range(1, 255); return r; }
        case 3: return std::string(g.below(g.chance(1, 10) ? 3000 : 40), (char)g.range(32, 126));
        default: { std::string r; int n = (int)g.below(20); for (int i = 0; i < n; ++i) r += (char)g.range(32, 126); return r; }
    }
}
struct W {
    Gen &g;
    StrTable tab;
    std::string text;
    std::vector<std::string> trace;
    std::vector<std::pair<std::string, std::string>> vars;   // name and value
    int ops = 0, searched = 0, made = 0, loops = 0;
    explicit W(Gen &g) : g(g) {}
    // an operand: a variable, or an expression
    std::string operand(std::string &v) {
        if (!vars.empty() && g.chance(2, 3)) { auto &x = g.pick(vars); v = x.second; return x.first; }
        v = rstr(g);
        return strEx(g, tab, v);
    }
    static int ch(const std::string &s, size_t i) { return (signed char)s[i]; }
    void out(const std::string &ex, const std::string &want) { text += "emit(" + ex + ")\n"; trace.push_back("emit " + want); }
    void keep(const std::string &ex, const std::string &v) {
        ++made;
        if (vars.size() < 25 && g.coin()) { std::string n = strf("s%zu", vars.size()); text += n + " := " + ex + "\n"; vars.push_back({n, v}); }
        else if (vars.size() > 3 && g.chance(1, 4)) { auto &x = g.pick(vars); text += x.first + " = " + ex + "\n"; x.second = v; }
        else out(ex, quote(v));
    }
    void op() {
        ++ops;
        std::string a;
        std::string x = operand(a);
        switch (g.below(13)) {
            case 0: out(g.coin() ? "strlen(" + x + ")" : x + "->strlen()", std::to_string(a.size())); break;
            case 1: case 2: {
                if (a.empty()) { out("strlen(" + x + ")", "0"); break; }
                size_t i = g.chance(1, 4) ? a.size() - 1 : g.below(a.size());
                std::string f;
                switch (g.below(3)) {
                    case 0: f = strf("stridx(%s, %zu)", x.c_str(), i); break;
                    case 1: f = strf("sget(%s, %zu)", x.c_str(), i); break;
                    default:
                        if (x[0] == 's' && isdigit((unsigned char)x[1])) f = strf("%s[%zu]", x.c_str(), i); else f = strf("str_get_index(%s, %zu)", x.c_str(), i);
                }
                out(f, std::to_string(ch(a, i)));
                break;
            }
            case 3: case 4: {
                int c = !a.empty() && g.chance(2, 3) ? ch(a, g.below(a.size())) : (int)g.range(-128, 127);
                size_t at = a.find((char)c);
                ++searched;
                out(strf("strchr(%s, %s)", x.c_str(), intText(c).c_str()), at == std::string::npos ? "-1" : std::to_string(at));
                break;
            }
            case 5: case 6: {
                std::string all = a, t = x;
                int n = (int)(g.chance(1, 10) ? g.range(5, 60) : g.range(1, 5));
                for (int i = 0; i < n; ++i) { std::string b; t += ", " + (g.chance(1, 8) ? (b = a, x) : operand(b)); all += b; if (all.size() > 20000) break; }
                if (t.find(", ") == std::string::npos) break;
                keep("strcat(" + t + ")", all);
                break;
            }
            case 7: case 8: case 9: {
                size_t i = g.chance(1, 5) ? a.size() : g.below(a.size() + 1), j = g.chance(1, 4) ? a.size() : i + g.below(a.size() - i + 1);
                bool end = g.chance(1, 5);
                if (end) j = a.size();
                keep(strf("substr(%s, %zu, %s)", x.c_str(), i, end ? "-1" : std::to_string(j).c_str()), a.substr(i, j - i));
                break;
            }
            case 10: {
                std::string b;
                std::string y = g.chance(1, 3) ? (b = a, strEx(g, tab, a)) : operand(b);
                bool ne = g.coin();
                out("(" + x + (ne ? " != " : " == ") + y + ")", (a == b) != ne ? "true" : "false");
                break;
            }
            case 11: {  // rebuilt from its characters
                if (a.size() > 40 || a.empty()) { out(x, quote(a)); break; }
                std::string i = strf("i%d", loops), r = strf("r%d", loops), y = strf("y%d", loops);
                ++loops;
                text += y + " := " + x + "\n" + r + " := \"\"\nfor " + i + " := 0; " + i + " < strlen(" + y + "); " + i + " += 1 { " + r + " = strcat(" + r + ", substr(" + y + ", " + i + ", " + i + " + 1)) }\n";
                out(r + " == " + y, "true");
                out(r, quote(a));
                break;
            }
            default: {  // through a function, an array and a struct
                switch (g.below(4)) {
                    case 0: keep("pass(" + x + ")", a); break;
                    case 1: keep("strs(" + x + ")[0]", a); break;
                    case 2: keep("twice(" + x + ")", a + a); break;
                    default: keep("new B{" + x + "}.s", a); break;
                }
            }
        }
    }
};
void script(Gen &g, Case &c, bool longer) {
    W w(g);
    w.text = "use array(\"str\") as strs\nstruct B { s: str }\nfunc pass(s: str): str { return s }\nfunc twice(s: str): str { return strcat(s, s) }\n";
    int n = (int)(longer ? g.range(40, 90) : g.range(2, 25));
    for (int i = 0; i < n; ++i) w.op();
    for (auto &v : w.vars) w.out(v.first, quote(v.second));  // nothing was modified
    c.say(w.text);
    for (size_t i = 0; i < w.tab.v.size(); ++i) c.say(strf("// string %zu = %s\n", i, quote(*w.tab.v[i]).c_str()));
    c.nontrivial = w.ops >= 3 && w.made >= 1;
    c.labelIf(w.searched > 0, "searched");
    table() = &w.tab;
    Host h;
    bindStrings(h.state);
    h.mustCompile(w.text);
    Thread t(h);
    t.start();
    if (g.coin()) { uint64_t every = g.coin() ? 1 : g.range(2, 30), k = 0; do { if (k++ % every == 0) t.t->maxNumObjects = 0; } while (t.step()); }
    else t.run();
    compareTrace(w.trace, t.trace);
    // every string of the program has an end of its own
    for (auto &v : w.vars) {
        Tiny_Value x = Tiny_GetGlobal(t.t.get(), Tiny_GetGlobalIndex(h.state, v.first.c_str()));
        PBT_CHECK(Tiny_ToString(x)[Tiny_StringLen(x)] == 0, "%s has no terminator", v.first.c_str());
    }
    t.destroy();
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain after the thread was destroyed", t.ctx.live.size());
}
// ---- made and read by the host
void host(Gen &g, Case &c) {
    Host h;
    h.mustCompile("hook(0)\n");
    Thread t(h);
    struct S { std::string s; Tiny_Value v; std::unique_ptr<char[]> own; };
    std::vector<S> ss;
    int n = (int)g.range(1, 12);
    for (int i = 0; i < n; ++i) ss.push_back({rstr(g), Tiny_Null, nullptr});
    t.hook = [&](Thread &t, const Tiny_Value *a, int) {
        if (Tiny_ToInt(a[0]) == 0)
            for (auto &x : ss) {
                bool z = x.s.find('\0') != std::string::npos;
                int how = (int)(z ? g.below(2) : g.below(4));
                size_t len = x.s.size();
                switch (how) {
                    case 0: {  // a copy of exactly these bytes, without a terminator behind them
                        std::unique_ptr<char[]> b(new char[len]);
                        memcpy(b.get(), x.s.data(), len);
                        x.v = Tiny_NewStringCopy(t.t.get(), b.get(), len);
                        break;
                    }
                    case 1: {
                        char *p = (char *)Tiny_AllocUsingContext(t.t->ctx, nullptr, len + 1);
                        memcpy(p, x.s.c_str(), len + 1);
                        x.v = Tiny_NewString(t.t.get(), p, len);
                        break;
                    }
                    case 2: { std::string tmp = x.s; x.v = Tiny_NewStringCopyNullTerminated(t.t.get(), tmp.c_str()); break; }
                    default: x.own.reset(new char[len + 1]); memcpy(x.own.get(), x.s.c_str(), len + 1); x.v = Tiny_NewConstString(x.own.get()); break;
                }
                c.say(strf("%s made in way %d\n", quote(x.s).c_str(), how));
            }
        for (auto &x : ss) {
            PBT_CHECK(Tiny_StringLen(x.v) == x.s.size(), "%s has length %zu", quote(x.s).c_str(), Tiny_StringLen(x.v));
            PBT_CHECK(memcmp(Tiny_ToString(x.v), x.s.c_str(), x.s.size() + 1) == 0, "%s reads back as %s", quote(x.s).c_str(), quote(std::string(Tiny_ToString(x.v), x.s.size() + 1)).c_str());
            for (auto &y : ss) PBT_CHECK(Tiny_AreValuesEqual(x.v, y.v) == (x.s == y.s), "%s and %s", quote(x.s).c_str(), quote(y.s).c_str());
        }
        return Tiny_Null;
    };
    t.start();
    t.run();
    // other values are not strings
    Tiny_Value others[] = {Tiny_Null, Tiny_NewInt(g.range(-5, 5)), Tiny_NewFloat(1.5), Tiny_NewBool(true), Tiny_NewLightNative(&h)};
    for (auto &o : others) PBT_CHECK(!Tiny_ToString(o) && Tiny_StringLen(o) == 0, "a value of kind %d is taken for a string", (int)o.type);
    c.nontrivial = n >= 2;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C18";
    p.title = "String functions agree with byte-string semantics";
    p.assumptions = {"indices are within the string; a character is the (signed) char of the platform"};
    p.families.push_back({"script", "at least three operations, one of them making a string", [](Gen &g, Case &c) { script(g, c, false); }, 12000, 1500000});
    p.families.push_back({"long script", "at least three operations, one of them making a string", [](Gen &g, Case &c) { script(g, c, true); }, 2500, 300000});
    p.families.push_back({"host", "at least two strings", host, 20000, 2500000});
    return run(argc, argv, p);
}
