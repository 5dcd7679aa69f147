#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include "cuts.h"
#include "vals.h"
using namespace pbt;
using namespace lang;
using namespace vals;

namespace {
// A count near the places where an encoding may change its width.
int edgy(Gen &g, int max) {
    static const int e[] = {126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537};
    int n = 0;
    switch (g.below(4)) {
        case 0: n = (int)g.below(8); break;
        case 1: n = (int)g.below(140); break;
        case 2: n = e[g.below(sizeof e / sizeof *e)]; break;
        default: n = e[g.below(sizeof e / sizeof *e)] + (int)g.range(-8, 8); break;
    }
    return std::max(0, n > max ? max - (int)g.below(3) : n);
}

// ---------------------------------------------------------------- generated programs with padding
struct Pads {
    Gen &g;
    Program &p;
    int strings = 0, globals = 0, names = 0, executed = 0, notes = 0;
    size_t bytes = 0;
    std::set<std::string> used;
    Pads(Gen &g, Program &p) : g(g), p(p) {}
    std::string name(const char *pre) { return strf("zq%s%d", pre, names++); }
    std::string str() { return strf("\"pad string %d\"", ++strings); }
    // an expression which costs n operations
    std::string sum(int n) {
        std::string s = std::to_string(g.below(300));
        for (int i = 0; i < n; ++i) s += i % 3 == 0 ? " + 1" : i % 3 == 1 ? " * 3" : " - 70000";
        return s;
    }
    // code which is never run, about n statements
    std::string skipped(int n) {
        std::string s = g.coin() ? "if !KB { " : "while !KB { ";
        int kind = (int)g.below(3);
        for (int i = 0; i < n; ++i) {
            if (kind == 0) s += "ti(" + std::to_string(i) + ") ";
            else if (kind == 1) s += "emit(" + std::to_string(i) + ", 'x', 0.5, null) ";
            else s += "ti(" + sum(20) + ") ";
        }
        s += "} ";
        used.insert(n > 3000 ? "long skipped code" : "skipped code");
        return s;
    }
    Stmt *raw(const std::string &t) { Stmt *s = p.stmt(SK::Raw); s->raw = t; bytes += t.size(); return s; }
    std::string top() {
        std::string s;
        switch (g.below(9)) {
            case 0: {
                int n = edgy(g, 1100 - globals > 0 ? 1100 - globals : 0);
                globals += n;
                for (int i = 0; i < n; ++i) s += name("g") + " := " + std::to_string(i) + "\n";
                used.insert("globals");
                break;
            }
            case 1: {
                int n = edgy(g, g.chance(1, 10) ? 66000 : 600);
                for (int i = 0; i < n; ++i) s += "func " + name("f") + "(a: int): int { return a + " + std::to_string(i) + " }\n";
                used.insert("functions");
                break;
            }
            case 2: {
                int n = edgy(g, 300);
                for (int i = 0; i < n; ++i) s += "struct " + name("S") + " { a: int b: str? }\n";
                used.insert("structs");
                break;
            }
            case 3: {
                int n = edgy(g, 600);
                for (int i = 0; i < n; ++i) s += name("K") + " :: " + std::to_string(i) + "\n";
                used.insert("constants");
                break;
            }
            case 4: {
                int n = std::min(edgy(g, 520), 700 - strings);
                for (int i = 0; i < n; ++i) s += "ts0(" + str() + ")\n";
                used.insert("strings");
                break;
            }
            case 5: s = skipped(edgy(g, 14000)); break;
            case 6: {
                int n = edgy(g, 70000);
                bool note = g.coin();
                for (int i = 0; i < n; ++i) s += note ? "// zq\n" : "\n";
                if (!note) s += "zqnote()\n";
                used.insert("lines");
                break;
            }
            case 7: {
                int n = edgy(g, 20);
                for (int i = 0; i < n; ++i) s += "use array(\"int\") as " + name("A") + "\n";
                used.insert("macros");
                break;
            }
            default: {
                int n = edgy(g, 9000);
                std::string v = name("v");
                s = v + " := 0\n";
                for (int i = 0; i < n; ++i) s += v + " += 1\n";
                used.insert("code");
                break;
            }
        }
        return s;
    }
    std::string inside(bool func, int &locals) {
        switch (g.below(5)) {
            case 0: return skipped(edgy(g, 6000)) + " ";
            case 1: return "ts0(" + (strings < 900 ? str() : std::string("\"same\"")) + ")";
            case 2: {
                std::string s;
                int n = edgy(g, std::max(0, func ? locals : std::min(300, 1100 - globals)));
                if (func) locals -= n; else globals += n;
                for (int i = 0; i < n; ++i) s += name("l") + " := " + std::to_string(i) + " ";
                used.insert(func ? "locals" : "globals");
                return s;
            }
            case 3: return "zqnote()";
            default: {
                std::string s;
                int n = (int)g.below(60);
                for (int i = 0; i < n; ++i) s += "ti0(" + std::to_string(i) + ") ";
                return s;
            }
        }
    }
    void list(std::vector<Stmt *> &b, bool func, int &locals, int rate) {
        for (Stmt *s : b) walk(s, func, locals, rate);
        std::vector<Stmt *> o;
        for (size_t i = 0; i <= b.size(); ++i) {
            if (g.chance(1, rate) && bytes < 1500000) {
                std::string t = inside(func, locals);
                if (!t.empty()) o.push_back(raw(t));
            }
            if (i < b.size()) o.push_back(b[i]);
        }
        b = o;
    }
    void walk(Stmt *s, bool func, int &locals, int rate) {
        if (!s) return;
        if (s->bare || s->k == SK::Decl || s->k == SK::Assign) return;
        bool loop = s->k == SK::For || s->k == SK::While || s->k == SK::If || s->k == SK::Block;
        if (!loop) return;
        list(s->body, func, locals, rate);
        if (s->hasAlt && !(s->alt.size() == 1 && s->alt[0]->k == SK::If)) list(s->alt, func, locals, rate);
    }
    static int decls(Stmt *s) {
        if (!s) return 0;
        int n = (s->k == SK::Decl) + decls(s->init) + decls(s->step);
        for (Stmt *x : s->body) n += decls(x);
        for (Stmt *x : s->alt) n += decls(x);
        return n;
    }
    void all() {
        int rate = (int)g.range(3, 12);
        std::vector<Item> o;
        for (size_t i = 0; i <= p.items.size(); ++i) {
            if (g.chance(1, i == 0 ? 2 : rate) && bytes < 1500000) {
                Item it;
                it.t = Item::IStmt;
                std::string t = top();
                if (!t.empty()) { it.s = raw(t); o.push_back(it); }
            }
            if (i == p.items.size()) break;
            Item it = p.items[i];
            for (Func *f : it.fns) {
                int locals = 255;
                for (Stmt *s : f->body) locals -= decls(s);
                list(f->body, true, locals, rate);
            }
            int none = 0;
            if (it.t == Item::IStmt) walk(it.s, false, none, rate);
            o.push_back(it);
        }
        p.items = o;
    }
};
Tiny_Value quietInt(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(5); }
Tiny_Value quietNull(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_Null; }
Tiny_Value quietFloat(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewFloat(-1.5); }

void extras(Gen &g, Case &c, Host &h, std::set<std::string> &used, int &names) {
    if (g.coin()) return;
    int n = edgy(g, 600), kind = (int)g.below(4);
    c.say(strf("// %d host bindings of kind %d\n", n, kind));
    for (int i = 0; i < n; ++i) {
        std::string nm = strf("zqh%d", names++);
        switch (kind) {
            case 0: Tiny_BindFunction(h.state, (nm + "(int, str): float").c_str(), quietFloat); break;
            case 1: Tiny_RegisterType(h.state, nm.c_str()); break;
            case 2: Tiny_BindConstInt(h.state, nm.c_str(), i); break;
            default: Tiny_BindFunction(h.state, (nm + "(" + nm + "T?): " + nm + "T").c_str(), quietNull); Tiny_RegisterType(h.state, (nm + "T").c_str()); break;
        }
    }
    used.insert("host bindings");
}

void marks(Stmt *s, std::map<Stmt *, int> &unit, int u) {
    if (!s) return;
    unit[s] = u;
    marks(s->init, unit, u); marks(s->step, unit, u);
    for (Stmt *x : s->body) marks(x, unit, u);
    for (Stmt *x : s->alt) marks(x, unit, u);
}
void padded(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 8; cfg.mainBudget = 200; cfg.funcBudget = 60;
    cfg.lineProbe = g.coin();
    cfg.hostCalls = g.coin();
    cfg.garbage = g.coin();
    bool units = g.coin();
    cfg.defBeforeUse = units;
    generate(g, cfg, p);
    std::vector<size_t> at0 = units ? cutPoints(g, p, 4) : std::vector<size_t>();
    std::set<const void *> cutAt;  // first item of the later pieces
    for (size_t i : at0) { const Item &it = p.items[i]; cutAt.insert(it.s ? (const void *)it.s : it.st ? (const void *)it.st : it.fns.empty() ? (const void *)it.arr : (const void *)it.fns[0]); }
    Pads pads(g, p);
    pads.all();
    std::vector<size_t> at;
    for (size_t i = 1; i < p.items.size(); ++i) {
        const Item &it = p.items[i];
        if (cutAt.count(it.s ? (const void *)it.s : it.st ? (const void *)it.st : it.fns.empty() ? (const void *)it.arr : (const void *)it.fns[0])) at.push_back(i);
    }
    Layout l;
    if (g.chance(1, 3)) l.g = &g;
    Printed pr = print(p, l);
    Host h;
    Tiny_BindFunction(h.state, "ts0(str): void", quietNull);
    Tiny_BindFunction(h.state, "ti0(int): int", quietInt);
    Tiny_BindFunction(h.state, "zqnote(): void", quietNull);
    at.push_back(p.items.size());
    std::map<Stmt *, int> unit;
    std::vector<int> before;
    size_t from = 0;
    for (size_t u = 0; u < at.size(); ++u) {
        extras(g, c, h, pads.used, pads.names);
        size_t b0 = pr.itemStart[from], b1 = at[u] < p.items.size() ? pr.itemStart[at[u]] : pr.text.size();
        before.push_back((int)std::count(pr.text.begin(), pr.text.begin() + b0, '\n'));
        for (size_t i = from; i < at[u]; ++i) {
            marks(p.items[i].s, unit, (int)u);
            for (Func *f : p.items[i].fns) for (Stmt *s : f->body) marks(s, unit, (int)u);
        }
        std::string piece = pr.text.substr(b0, b1 - b0);
        c.say("// unit\n" + piece + "\n");
        h.mustCompile(piece, "prog");
        from = at[u];
    }
    Machine m(p);
    m.run();
    Thread t(h);
    t.start();
    t.run();
    compareTrace(m.trace, t.trace);
    compareGlobals(m, t);
    PBT_CHECK(m.hereStmts.size() == t.hereLines.size(), "here() was called %zu times instead of %zu", t.hereLines.size(), m.hereStmts.size());
    for (size_t i = 0; i < m.hereStmts.size(); ++i) {
        Stmt *s = m.hereStmts[i];
        int b = before[unit[s]], got = t.hereLines[i].second;
        PBT_CHECK(got >= s->line - b && got <= s->endLine - b, "call %zu of here() reports line %d instead of %d", i, got, s->line - b);
    }
    t.destroy();
    c.nontrivial = pr.text.size() > 5000 && m.trace.size() >= 3 && !pads.used.empty();
    for (auto &s : pads.used) c.label(s);
    c.labelIf(pr.text.size() > 100000, "text above 100000 bytes");
}

// ---------------------------------------------------------------- wide declarations
void usable(Host &h, const std::string &expect) {  // the state still compiles and runs what is right
    static int k = 0;
    std::string v = strf("zqu%d", ++k);
    h.mustCompile(v + " := \"still " + v + "\"\nemit(" + v + ")\n");
    Thread t(h);
    t.start();
    t.run();
    if (!t.error.empty()) fail(t.error);
    std::string want = "emit \"still " + v + "\"";
    PBT_CHECK(!t.trace.empty() && t.trace.back() == want, "after a rejected program, the next one does not work");
    PBT_CHECK(expect.empty() || t.trace[0] == expect, "after a rejected program, what was compiled before does %s instead of %s", t.trace[0].c_str(), expect.c_str());
    t.destroy();
}
struct V { char k; int64_t i; std::string s; };  // one of int, str, bool
V someV(Gen &g, int n) { int k = (int)g.below(4); return k <= 1 ? V{'i', n * 7 - 300, ""} : k == 2 ? V{'s', 0, strf("s%d", n % 200)} : V{'b', n & 1, ""}; }
std::string vLit(const V &v) { return v.k == 'i' ? (v.i < 0 ? "0 - " + std::to_string(-v.i) : std::to_string(v.i)) : v.k == 's' ? "\"" + v.s + "\"" : v.i ? "true" : "false"; }
std::string vOut(const V &v) { return v.k == 'i' ? std::to_string(v.i) : v.k == 's' ? "\"" + v.s + "\"" : v.i ? "true" : "false"; }
const char *vType(const V &v) { return v.k == 'i' ? "int" : v.k == 's' ? "str" : "bool"; }
std::vector<int> some(Gen &g, int n, int k) {
    std::vector<int> r;
    if (!n) return r;
    for (int i = 0; i < k; ++i) r.push_back((int)g.below(n));
    r.push_back(n - 1);
    for (int e : {0, 127, 128, 254, 255, 256}) if (e < n) r.push_back(e);
    return r;
}

void wide(Gen &g, Case &c) {
    Host h;
    int n = g.chance(1, 12) ? edgy(g, 5000) : edgy(g, 300);
    std::string text = "emit(\"first\")\n";
    std::vector<std::string> want;
    bool fits = n <= 255;
    int kind = (int)g.below(6);
    bool hostOnly = false;
    std::string hostWant;
    std::vector<V> vals;
    std::set<std::string> strs;
    bool simple = g.coin();
    for (int i = 0; i < n; ++i) { vals.push_back(simple ? V{'i', i, ""} : someV(g, i)); }
    auto list = [&](auto f) { std::string s; for (int i = 0; i < n; ++i) s += (i ? ", " : "") + f(i); return s; };
    h.mustCompile(text);
    text.clear();
    switch (kind) {
        case 0: {  // a function with n parameters and some locals
            int nl = g.coin() ? 0 : edgy(g, 258), depth = n <= 255 ? (int)g.below(8) : 0;
            if (nl > 255) fits = false;
            text += "func wide(" + list([&](int i) { return strf("a%d: %s", i, vType(vals[i])); }) + (n ? ", " : "") + "d: int): str {\n";
            fits = fits && n + 1 <= 255;
            std::vector<int> q = some(g, n, 5);
            std::string e1, w1;
            for (int i : q) { e1 += strf(", a%d", i); w1 += " " + vOut(vals[i]); }
            for (int i = 0; i < nl; ++i) text += n && i % 3 == 0 ? strf("l%d := a%d\n", i, i % n) : strf("l%d := %d\n", i, i + 1000);
            if (depth) text += "if d > 0 { wide(" + list([&](int i) { return strf("a%d", i); }) + (n ? ", " : "") + "d - 1) }\n";
            text += "emit(d" + e1;
            std::string w2;
            for (int i : some(g, nl, 5)) { text += strf(", l%d", i); w2 += " " + (n && i % 3 == 0 ? vOut(vals[i % n]) : std::to_string(i + 1000)); }
            text += ")\nreturn \"done\" }\n";
            hostWant = "emit 0" + w1 + w2;
            hostOnly = g.chance(1, 4);
            if (hostOnly) {  // only the host calls it
                break;
            }
            text += "emit(wide(" + list([&](int i) { return vLit(vals[i]); }) + strf("%s%d))\n", n ? ", " : "", depth);
            for (int d = 0; d <= depth; ++d) want.push_back("emit " + std::to_string(d) + w1 + w2);
            want.push_back("emit \"done\"");
            if (g.coin() && fits) {  // also called by the host
                text += "emit(hc(\"wide\", " + list([&](int i) { return vLit(vals[i]); }) + (n ? ", 0))\n" : "0))\n");
                want.push_back("emit 0" + w1 + w2);
                want.push_back("emit \"done\"");
                if (n + 2 > 255) fits = false;
            }
            break;
        }
        case 1: {  // a struct with n fields
            if (!n) n = 1, vals.push_back(someV(g, 0));
            text += "struct Wide {" + list([&](int i) { return strf("%sf%d: %s", i % 7 ? "" : "\n", i, vType(vals[i])); });
            for (char &ch : text) if (ch == ',') ch = ' ';
            text += "}\n";
            std::vector<int> order;
            for (int i = 0; i < n; ++i) order.push_back(i);
            bool named = g.coin();
            text += std::string(g.coin() ? "func mk(): Wide { return " : "func mk(): Wide { w := ") + "new Wide{";
            bool local = text.find("w := new") != std::string::npos;
            for (int i = 0; i < n; ++i) text += (i ? ", " : "") + (named ? strf(".f%d = ", i) : std::string()) + vLit(vals[i]);
            text += local ? "} return w }\n" : "} }\n";
            text += "w := mk() v := mk() junk(300)\n";
            std::vector<V> now = vals;
            auto show = [&](const char *var, const std::vector<V> &of) {
                std::string s = "emit(0", w = "emit 0";
                for (int i : some(g, n, 5)) { s += strf(", %s.f%d", var, i); w += " " + vOut(of[i]); }
                text += s + ")\n";
                want.push_back(w);
            };
            show("w", now);
            for (int i : some(g, n, 4)) {
                V nv = now[i];
                if (nv.k == 'i') nv.i += 100000; else if (nv.k == 's') nv.s += "!"; else nv.i = !nv.i;
                text += strf("w.f%d = %s\n", i, vLit(nv).c_str());
                now[i] = nv;
                if (nv.k == 'i' && g.coin()) { text += strf("w.f%d += 5\n", i); now[i].i += 5; }
            }
            show("w", now);
            show("v", vals);
            text += "emit(w)\n";
            if (n <= 290) {
                std::string w = "emit #0{";
                for (int i = 0; i < n; ++i) w += (i ? "," : "") + vOut(now[i]);
                want.push_back(w + "}");
            } else text = text.substr(0, text.size() - 8);
            break;
        }
        case 2: {  // a foreign call with n arguments
            text += "emit(" + list([&](int i) { return vLit(vals[i]); }) + ")\n";
            std::string w = "emit";
            for (int i = 0; i < n; ++i) w += " " + vOut(vals[i]);
            want.push_back(w);
            break;
        }
        case 3: {  // an array with n elements
            text += "use array(\"int\") as ints\nar := ints(" + list([&](int i) { return std::to_string(i * 3); }) + ")\n";
            text += "emit(ar->ints_len())\n";
            want.push_back("emit " + std::to_string(n));
            for (int i : some(g, n, 5)) { text += strf("emit(ar[%d])\n", i); want.push_back("emit " + std::to_string(i * 3)); }
            break;
        }
        case 4: {  // a foreign function with n parameters
            std::string sig = "many(" + list([&](int i) { return std::string(vType(vals[i])); }) + "): int";
            static std::string got;
            got.clear();
            Tiny_BindFunction(h.state, sig.c_str(), [](Tiny_StateThread *t, const Tiny_Value *a, int n) { got = Thread::of(t).dumpAll(a, n); return Tiny_NewInt(n); });
            text += "x := many(" + list([&](int i) { return vLit(vals[i]); }) + ")\nemit(x)\n";
            want.push_back("emit " + std::to_string(n));
            c.say("// " + sig.substr(0, 60) + "\n");
            break;
        }
        default: {  // n locals in nested blocks
            text += "func deep(p: int): int {\n";
            int open = 0;
            std::string tail;
            std::vector<int> vis;
            std::vector<size_t> starts;
            for (int i = 0; i < n; ++i) {
                text += strf("x%d := p + %d\n", i, i);
                vis.push_back(i);
                if (g.chance(1, 12)) { text += "{\n"; ++open; starts.push_back(vis.size()); }
                if (open && g.chance(1, 14)) { text += "}\n"; --open; vis.resize(starts.back()); starts.pop_back(); }
                if (g.chance(1, 20) || i == n - 1) {
                    std::string w = "emit 0";
                    text += "emit(0";
                    for (int k : some(g, (int)vis.size(), 3)) { text += strf(", x%d", vis[k]); w += " " + std::to_string(40 + vis[k]); }
                    text += ")\n";
                    want.push_back(w);
                }
            }
            while (open--) text += "}\n";
            text += "return p }\nemit(deep(40))\n";
            want.push_back("emit 40");
            break;
        }
    }
    c.say(text + "\n");
    Tiny_CompileResult r = h.compile(text);
    if (!fits) {
        PBT_CHECK(r.type == TINY_COMPILE_ERROR, "more than 255 parameters, arguments, fields or locals are not rejected");
        usable(h, "emit \"first\"");
    } else {
        if (r.type != TINY_COMPILE_SUCCESS) fail(strf("a program within the limits is rejected: %.200s", r.error.msg));
        Thread t(h);
        t.start();
        t.run();
        if (!t.error.empty()) fail(t.error);
        want.insert(want.begin(), "emit \"first\"");
        compareTrace(want, t.trace);
        // and called with values given by the host
        if (kind == 0) {
            int f = Tiny_GetFunctionIndex(h.state, "wide");
            std::vector<Tiny_Value> a;
            for (auto &v : vals) a.push_back(v.k == 'i' ? Tiny_NewInt(v.i) : v.k == 'b' ? Tiny_NewBool(v.i != 0) : Tiny_NewConstString(v.s.c_str()));
            a.push_back(Tiny_NewInt(0));
            size_t n0 = t.trace.size();
            Tiny_Value rv = Tiny_CallFunction(t.t.get(), f, a.data(), (int)a.size());
            PBT_CHECK(t.trace.size() == n0 + 1 && t.trace.back() == hostWant, "called by the host: %.300s", t.trace.back().c_str());
            PBT_CHECK(t.dump(rv) == "\"done\"", "the host gets %s", t.dump(rv).c_str());
            PBT_CHECK(t.t->sp == 0 && t.t->fc == 0, "the stack is not back where it was");
        }
        t.destroy();
    }
    static const char *kn[] = {"parameters", "fields", "arguments of a foreign call", "elements", "parameters of a foreign function", "locals"};
    c.label(kn[kind]);
    c.labelIf(n > 127 && n <= 255, "128 to 255");
    c.labelIf(n > 255, "more than 255");
    c.nontrivial = n > 100;
}

// ---------------------------------------------------------------- string constants
void strings(Gen &g, Case &c) {
    Host h;
    int budget = g.coin() ? (int)g.range(980, 1100) : edgy(g, 600);
    int pieces = (int)g.range(1, 5);
    std::set<int> used;
    int next = 0;
    std::vector<std::string> want;
    bool rejected = false;
    auto s = [&](int k) { return k % 5 == 0 ? strf("%d", k) : k % 5 == 1 ? strf("string number %d with a tail", k) : k % 5 == 2 ? std::string(k % 9, 'a') + std::to_string(k) : strf("k%d\n", k); };
    c.say(strf("// %d unique strings in %d pieces\n", budget, pieces));
    // constants of the host take part
    int hostN = g.chance(1, 3) ? (int)g.below(40) : 0;
    for (int i = 0; i < hostN; ++i) Tiny_BindConstString(h.state, strf("HS%d", i).c_str(), s(next + i).c_str());
    for (int u = 0; u < pieces; ++u) {
        std::string t;
        std::vector<std::string> w;
        int n = u == pieces - 1 ? budget - next : (int)g.below(std::max(1, budget - next));
        int first = next;
        std::set<int> now = used;
        bool funcs = g.coin();
        for (int i = 0; i < n; ++i) {
            int k = next++;
            now.insert(k);
            std::string v = strf("v%d", k);
            switch (k % 4) {
                case 0: t += v + " := " + lit(s(k)) + "\n"; if (g.chance(1, 6)) { t += "emit(" + v + ")\n"; w.push_back("emit " + quote(s(k))); } break;
                case 1: t += "emit(" + lit(s(k)) + ")\n"; w.push_back("emit " + quote(s(k))); break;
                case 2: if (funcs) { t += "func " + v + "(): str { return " + lit(s(k)) + " }\nemit(" + v + "())\n"; w.push_back("emit " + quote(s(k))); break; }  // fall through
                default: t += v + " :: " + lit(s(k)) + "\nemit(" + v + ", " + v + " == " + lit(s(k)) + ")\n"; w.push_back("emit " + quote(s(k)) + " true"); break;
            }
            if (g.chance(1, 10)) {  // an earlier one again, compared with another one
                int o = (int)g.below(k + 1), o2 = (int)g.below(k + 1);
                if (now.count(o) && now.count(o2)) {
                    t += "emit(" + lit(s(o)) + " == " + lit(s(o2)) + ", " + lit(s(o2)) + ")\n";
                    w.push_back(strf("emit %s ", s(o) == s(o2) ? "true" : "false") + quote(s(o2)));
                }
            }
        }
        c.say(strf("// piece with strings %d to %d\n", first, next - 1) + (t.size() < 6000 ? t : t.substr(0, 6000) + "...\n"));
        Tiny_CompileResult r = h.compile(t);
        int total = (int)now.size() + std::max(0, 0);
        // A few more than the strings of the text may be in use.
        if (total + hostN + 30 <= 1024) { if (r.type != TINY_COMPILE_SUCCESS) fail(strf("%d strings are rejected: %.200s", total, r.error.msg)); }
        if (total > 1024) PBT_CHECK(r.type == TINY_COMPILE_ERROR, "%d strings are not rejected", total);
        if (r.type == TINY_COMPILE_SUCCESS) { used = now; want.insert(want.end(), w.begin(), w.end()); }
        else {
            PBT_CHECK(r.type == TINY_COMPILE_ERROR, "compile result %d", r.type);
            rejected = true;
            next = first;
            // less of it fits
            if (budget - next > 10) budget = std::min(budget, (int)used.size() + (int)g.below(30));
            if (budget < next) budget = next;
        }
    }
    Thread t(h);
    if (h.compile("emit(0)").type == TINY_COMPILE_SUCCESS) want.push_back("emit 0");
    t.start();
    t.run();
    if (!t.error.empty()) fail(t.error);
    compareTrace(want, t.trace);
    for (int k : used) if (k % 4 == 0) {
        std::string got = t.global(strf("v%d", k));
        PBT_CHECK(got == quote(s(k)), "v%d is %s instead of %s", k, got.c_str(), quote(s(k)).c_str());
    }
    t.destroy();
    c.nontrivial = used.size() > 200;
    c.labelIf(rejected, "too many");
    c.labelIf(used.size() > 256, "more than 256 strings");
}

// ---------------------------------------------------------------- many declarations of each kind
Tiny_Value idx0(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(1000000); }
Tiny_Value idx1(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(1000001); }
Tiny_Value idx2(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(1000002); }
void counts(Gen &g, Case &c, bool huge) {
    Host h;
    int kind = (int)g.below(6);
    bool functionsOnly = kind == 1;
    int n = functionsOnly && g.chance(1, huge ? 2 : 6) ? (int)g.range(65500, 66000) : g.chance(1, 8) ? edgy(g, huge ? 12000 : 4300) : edgy(g, 1040);
    if (huge && kind == 0 && g.chance(1, 3)) n = (int)g.range(65530, 65560);
    if (n == 0) n = 1;
    int pieces = g.coin() ? 1 : (int)g.range(1, 6);
    static const char *nm[] = {"globals", "functions", "foreign functions", "constants", "structs", "units"};
    c.say(strf("// %d %s in %d pieces\n", n, nm[kind], pieces));
    c.label(nm[kind]);
    std::vector<std::string> want;
    std::string text;
    Tiny_ForeignFunction ff[] = {idx0, idx1, idx2};
    auto name = [&](int i) { return strf("%c%c%d", 'a' + i % 23, 'a' + i % 19, i); };
    auto S = [&](int i) { return "T" + name(i); };
    auto query = [&](std::string &t, int upto, bool pre) {
        for (int i : some(g, upto, 3)) {
            switch (kind) {
                case 0: case 5: t += "emit(" + name(i) + ")\n"; want.push_back(strf("emit %d", i * 3)); break;
                case 1: t += "emit(" + name(i) + "(2))\n"; want.push_back(strf("emit %d", i * 3 + 2)); break;
                case 2: t += "emit(" + name(i) + "(2))\n"; want.push_back(strf("emit %d", 1000000 + i % 3)); break;
                case 3: t += "emit(" + name(i) + ")\n"; want.push_back(i % 3 == 0 ? strf("emit %d", i * 3) : i % 3 == 1 ? strf("emit \"%d\"", i % 100) : strf("emit %s", fmtFloat(i + 0.5).insert(0, "f").c_str())); break;
                case 4: t += "emit(new " + S(i) + "{" + std::to_string(i) + ", cast(null, " + S(i / 2) + "?)})\n"; want.push_back(strf("emit #0{%d,null}", i)); break;
            }
        }
    };
    int done = 0;
    bool hostConsts = g.coin();
    if (kind == 5) n = std::min(n, huge ? 4300 : 700);
    if (kind == 5) pieces = n;
    for (int u = 0; u < pieces; ++u) {
        int to = kind == 5 ? done + 1 : u == pieces - 1 ? n : done + (int)g.below(n - done + 1);
        std::string t;
        for (int i = done; i < to; ++i) {
            switch (kind) {
                case 0: case 5: t += name(i) + " := " + std::to_string(i * 3) + "\n"; break;
                case 1: t += "func " + name(i) + "(p: int): int { return p + " + std::to_string(i * 3) + " }\n"; break;
                case 2: Tiny_BindFunction(h.state, (name(i) + (i % 2 ? "(int): int" : "(int): any")).c_str(), ff[i % 3]); break;
                case 3:
                    if (i % 3 == 0) { if (hostConsts) Tiny_BindConstInt(h.state, name(i).c_str(), i * 3); else t += name(i) + " :: " + std::to_string(i * 3) + "\n"; }
                    else if (i % 3 == 1) { if (hostConsts) Tiny_BindConstString(h.state, name(i).c_str(), std::to_string(i % 100).c_str()); else t += name(i) + " :: \"" + std::to_string(i % 100) + "\"\n"; }
                    else { if (hostConsts) Tiny_BindConstFloat(h.state, name(i).c_str(), i + 0.5); else t += name(i) + strf(" :: %d.5\n", i); }
                    break;
                case 4: t += "struct " + S(i) + " { a: int b: " + S(i / 2) + "? }\n"; break;
            }
        }
        done = to;
        if (kind != 5) query(t, done, false);
        h.mustCompile(t);
    }
    if (kind == 5) { std::string t; query(t, done, false); h.mustCompile(t); }
    Thread t(h);
    t.start();
    t.run();
    if (!t.error.empty()) fail(t.error);
    compareTrace(want, t.trace);
    for (int i : some(g, n, 6)) {
        if (kind == 0 || kind == 5) {
            std::string got = t.global(name(i));
            PBT_CHECK(got == std::to_string(i * 3), "global %d is %s", i, got.c_str());
        } else if (kind == 1) {
            Tiny_Value a[1] = {Tiny_NewInt(5)};
            int f = Tiny_GetFunctionIndex(h.state, name(i).c_str());
            PBT_CHECK(f >= 0, "function %d is not found", i);
            Tiny_Value v = Tiny_CallFunction(t.t.get(), f, a, 1);
            PBT_CHECK(t.dump(v) == std::to_string(i * 3 + 5), "function %d gives %s", i, t.dump(v).c_str());
        }
    }
    t.destroy();
    c.labelIf(n > 65536, "more than 65536");
    c.nontrivial = n > 250;
}

// ---------------------------------------------------------------- long names, literals and lines
void lengths(Gen &g, Case &c) {
    Host h;
    static const int sizes[] = {1, 31, 32, 63, 64, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 65535, 65536, 65537, 100000};
    auto len = [&]() { return g.coin() ? sizes[g.below(28)] : (int)g.below(3000) + 1; };
    std::string t;
    std::vector<std::string> want;
    int n = (int)g.range(1, 6);
    std::string filler = "abcdefghij_KLMNOPQRSTUVWXYZ0123456789";
    int biggest = 0, decl = 0;
    std::vector<std::pair<std::string, int>> globs, fns;
    for (int i = 0; i < n; ++i) {
        int L = len(), k = (int)g.below(6);
        biggest = std::max(biggest, L);
        // two names which differ in one place
        std::string a = strf("n%d", decl++);
        while ((int)a.size() < L) a += filler[a.size() % filler.size()];
        std::string b = a;
        size_t at = g.coin() ? b.size() - 1 : g.below(b.size());
        if (at == 0) b += "x"; else b[at] = b[at] == 'y' ? 'z' : 'y';
        std::string longer = a + (g.coin() ? "_" : "0");
        switch (k) {
            case 0:
                t += a + " := 1\n" + b + " := 2\n" + longer + " := 3\n" + a + " += 10\nemit(" + a + ", " + b + ", " + longer + ")\n";
                want.push_back("emit 11 2 3");
                globs.push_back({a, 11}); globs.push_back({b, 2}); globs.push_back({longer, 3});
                break;
            case 1:
                t += "func " + a + "(x: int): int { return x + 1 }\nfunc " + b + "(x: int): int { return x + 2 }\nemit(" + a + "(0), " + b + "(0), hc(" + lit(b) + ", 5))\n";
                want.push_back("emit 1 2 7");
                fns.push_back({a, 1}); fns.push_back({b, 2});
                break;
            case 2:
                if (L > 60000) break;
                t += "struct S" + std::to_string(i) + " { " + a + ": int " + b + ": str }\n";
                t += "s" + std::to_string(i) + " := new S" + std::to_string(i) + "{." + a + " = 7, ." + b + " = \"q\"}\nemit(s" + std::to_string(i) + "." + b + ", s" + std::to_string(i) + "." + a + ")\n";
                want.push_back("emit \"q\" 7");
                break;
            case 3: {
                std::string v;
                for (int q = 0; q < L; ++q) v += (char)(q % 251 == 0 ? '\n' : 'a' + (q * 7 + i) % 26);
                t += "emit(" + lit(v) + ")\n";
                want.push_back("emit " + quote(v));
                break;
            }
            case 4:
                t += "func F" + std::to_string(i) + "(" + a + ": int, " + b + ": int): int { " + longer + " := " + a + " * 2 return " + longer + " - " + b + " }\nemit(F" + std::to_string(i) + "(10, 3))\n";
                want.push_back("emit 17");
                break;
            default:
                t += std::string(L, g.coin() ? ' ' : '\n') + (g.coin() ? "//" + std::string(L, 'c') + "\n" : std::string()) + "emit(" + std::string(L, ' ') + "1)\n";
                want.push_back("emit 1");
                break;
        }
    }
    c.say(t.size() < 20000 ? t : t.substr(0, 20000) + "...");
    h.mustCompile(t);
    Thread th(h);
    th.start();
    th.run();
    if (!th.error.empty()) fail(th.error);
    compareTrace(want, th.trace);
    for (auto &q : globs) PBT_CHECK(th.global(q.first) == std::to_string(q.second), "a global with a long name is %s instead of %d", th.global(q.first).c_str(), q.second);
    for (auto &q : fns) {
        int f = Tiny_GetFunctionIndex(h.state, q.first.c_str());
        PBT_CHECK(f >= 0, "a function with a long name is not found");
        Tiny_Value a[1] = {Tiny_NewInt(100)};
        Tiny_Value v = Tiny_CallFunction(th.t.get(), f, a, 1);
        PBT_CHECK(th.dump(v) == std::to_string(100 + q.second), "a function with a long name gives %s", th.dump(v).c_str());
    }
    th.destroy();
    c.nontrivial = biggest > 120;
    c.labelIf(biggest >= 65535, "65535 bytes or more");
}
// ---------------------------------------------------------------- the depth of calls and operands at run time
// Deeper than there is room for, the program is stopped by an assertion; it never goes on with other values.
void deep(Gen &g, Case &c) {
    std::string t, main;
    std::vector<std::string> trace;
    int kind = (int)g.below(7);
    int n = g.coin() ? (int)g.range(1, 400) : g.coin() ? (int)g.range(50, 75) : (int)g.range(110, 140);
    // by the size of the stack this is built with
    int unit = TINY_THREAD_STACK_SIZE / 128, most = TINY_THREAD_STACK_SIZE - TINY_THREAD_STACK_SIZE / 8;
    int np = (int)g.below(4), nl = (int)g.below(4), pend = (int)g.below(3);
    if (g.coin()) switch (g.below(4)) {
        case 0: np = (int)g.below(std::min(4 * unit, 120)); break;
        case 1: nl = (int)g.below(std::min(4 * unit, 250)); break;
        case 2: pend = (int)g.below(std::min(4 * unit, 200)); break;
        default: np = (int)g.below(std::min(2 * unit, 100)); nl = (int)g.below(std::min(2 * unit, 150)); pend = (int)g.below(std::min(2 * unit, 100)); break;
    }
    static const char *kinds[] = {"recursion", "operands", "arguments", "locals", "constructor", "host and script", "mutual"};
    auto em = [&](int64_t x) { trace.push_back(strf("emit %lld", (long long)x)); };
    switch (kind) {
        case 0: case 5: case 6: {
            // f(n) = the sum of its operands and f(n - 1)
            int two = kind == 6 ? 2 : 1;
            for (int q = 0; q < two; ++q) {
                t += strf("func f%d(n: int", q);
                for (int i = 0; i < np; ++i) t += strf(", p%d: int", i);
                t += "): int {\n";
                for (int i = 0; i < nl; ++i) t += strf("  l%d := n * 7 + %d\n", i, i);
                t += strf("  if (n <= 0) return %d\n", 5 + q);
                std::string call = strf("f%d(n - 1", (q + 1) % two);
                for (int i = 0; i < np; ++i) call += strf(", n + %d", i);
                call += ")";
                if (kind == 5) {
                    call = strf("cast(call_function(get_function_index(\"f%d\"), n - 1", (q + 1) % two);
                    for (int i = 0; i < np; ++i) call += strf(", n + %d", i);
                    call += "), int)";
                }
                std::string sum = "n";
                for (int i = 0; i < pend; ++i) sum = strf("%d + (", i + 1) + sum;
                sum += " + " + call;
                for (int i = 0; i < pend; ++i) sum += ")";
                t += "  r := " + sum + "\n";
                for (int i = 0; i < np; ++i) t += strf("  r += p%d\n", i);
                for (int i = 0; i < nl; ++i) t += strf("  r += l%d\n", i);
                t += "  return r\n}\n";
            }
            std::function<int64_t(int, int, std::vector<int64_t>)> f = [&](int q, int k, std::vector<int64_t> ps) -> int64_t {
                if (k <= 0) return 5 + q;
                std::vector<int64_t> a;
                for (int i = 0; i < np; ++i) a.push_back(k + i);
                int64_t r = k + f((q + 1) % two, k - 1, a);
                for (int i = 0; i < pend; ++i) r += i + 1;
                for (auto x : ps) r += x;
                for (int i = 0; i < nl; ++i) r += k * 7 + i;
                return r;
            };
            std::vector<int64_t> ps;
            main = strf("emit(f0(%d", n);
            for (int i = 0; i < np; ++i) { ps.push_back(i * 3); main += strf(", %d", i * 3); }
            main += "))\n";
            em(f(0, n, ps));
            break;
        }
        case 1: {
            bool cmp = g.coin();
            std::string s = "k";
            int64_t v = 3;
            for (int i = 0; i < n; ++i) { s = strf("%d %s (", i, i % 3 ? "+" : "-") + s + ")"; v = i % 3 ? i + v : i - v; }
            t = "k := 3\n";
            main = "emit(" + s + ")\n";
            em(v);
            if (cmp) { main += "emit(k, " + s + ")\n"; trace.push_back(strf("emit 3 %lld", (long long)v)); }
            break;
        }
        case 2: {
            n = std::min(n, 250);
            main = "emit(";
            std::string w = "emit";
            for (int i = 0; i < n; ++i) { main += strf("%s%d", i ? ", " : "", 1000 + i); w += strf(" %d", 1000 + i); }
            main += ")\n";
            trace.push_back(w);
            break;
        }
        case 3: {
            n = std::min(n, 250);
            t = "func f(): int {\n";
            for (int i = 0; i < n; ++i) t += strf("  l%d := %d\n", i, i);
            t += strf("  return l0 + l%d\n}\n", n - 1);
            main = "emit(f())\n";
            em(n - 1);
            break;
        }
        default: {
            n = std::min(n, 250);
            t = "struct S {";
            for (int i = 0; i < n; ++i) t += strf(" f%d: int", i);
            t += " }\n";
            main = "s := new S{";
            for (int i = 0; i < n; ++i) main += strf("%s%d", i ? ", " : "", i);
            main += strf("}\nemit(s.f0 + s.f%d)\n", n - 1);
            em(n - 1);
            break;
        }
    }
    main += "g := 77\nemit(g)\n";
    trace.push_back("emit 77");
    c.say(t + main);
    c.label(std::string("kind:") + kinds[kind]);
    Host h;
    h.mustCompile(t + main);
    int fd[2];
    PBT_CHECK(pipe(fd) == 0, "no pipe");
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    PBT_CHECK(pid >= 0, "no process");
    if (pid == 0) {
        close(fd[0]);
        signal(SIGABRT, [](int) { _exit(77); });
        int null = ::open("/dev/null", O_WRONLY);
        dup2(null, 2);
        std::string m;
        try {
            Thread th(h);
            th.start();
            if (g.coin()) th.run(); else while (th.step()) {}
            compareTrace(trace, th.trace);
            PBT_CHECK(th.error.empty(), "%s", th.error.c_str());
            th.destroy();
            th.ctx.check("thread context");
            PBT_CHECK(th.ctx.live.empty(), "%zu blocks remain", th.ctx.live.size());
        } catch (const std::exception &e) { m = e.what(); if (m.empty()) m = "?"; }
        catch (const Failure &e) { m = e.msg; }
        if (!m.empty()) { (void)!write(fd[1], m.data(), std::min<size_t>(m.size(), 3000)); _exit(78); }
        _exit(0);
    }
    close(fd[1]);
    std::string m;
    char buf[1024];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    (void)g.coin();
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    c.nontrivial = n >= 40;
    c.label(rc == 77 ? "stopped" : "completed");
    // far from every limit it completes
    bool calls = kind == 0 || kind == 5 || kind == 6;
    bool small = calls ? n <= (kind == 5 ? 20 : 55) && n * (np * (kind == 5 ? 2 : 1) + nl + pend + 6) <= most : n <= std::min(most, 250);
    if (rc == 0 || (rc == 77 && !small)) return;
    if (rc == 77) fail("the program is stopped although there is room");
    fail(rc == 78 ? "too deep a program goes on with wrong values: " + m : strf("the process ends with status %d%s", rc, WIFSIGNALED(st) ? strf(" (signal %d)", WTERMSIG(st)).c_str() : ""));
}
// ---------------------------------------------------------------- many objects held by wide things while collections run
void held(Gen &g, Case &c) {
    Host h;
    std::string t, main;
    std::vector<std::string> want;
    int obj = 0, most = 0;
    std::set<std::string> kinds;
    auto value = [&](int i, std::string &shown) -> std::string {  // an expression which makes an object
        if (g.chance(1, 5)) { shown = std::to_string(i); return std::to_string(i); }
        if (g.chance(1, 4)) { shown = strf("{%d,\"p%d\"}", i, i); return strf("new P{%d, strcat(\"p\", int_to_str(%d))}", i, i); }
        shown = strf("\"v%d\"", i);
        return strf("strcat(\"v\", int_to_str(%d))", i);
    };
    t = "use array(\"any\") as L\nstruct P { n: int s: any }\nfunc show(x: any) { junk(1) pr(x) }\n";
    std::vector<std::string> got;
    int things = (int)g.range(1, 4);
    for (int q = 0; q < things; ++q) {
        int n = std::max(1, edgy(g, 255)), kind = (int)g.below(6);
        if (kind == 3) n = std::max(1, edgy(g, 300));
        most = std::max(most, n);
        std::vector<std::string> es(n), ws(n);
        for (int i = 0; i < n; ++i) es[i] = value(obj++, ws[i]);
        std::vector<int> look = some(g, n, 6);
        auto all = [&]() { std::string r; for (int i = 0; i < n; ++i) r += (i ? ", " : "") + es[i]; return r; };
        switch (kind) {
            case 0: case 1: {  // a struct
                t += strf("struct W%d {", q);
                for (int i = 0; i < n; ++i) t += strf(" f%d: any", i);
                t += strf(" }\nfunc mk%d(): any { return new W%d{%s} }\n", q, q, all().c_str());
                if (kind == 0) main += strf("w%d := cast(mk%d(), W%d)\njunk(%d)\n", q, q, q, (int)g.below(40));
                else main += strf("h%d := new P{1, mk%d()}\njunk(%d)\nw%d := cast(h%d.s, W%d)\n", q, q, (int)g.below(40), q, q, q);
                if (g.coin()) { int i = (int)g.below(n); std::string sh; std::string e = value(obj++, sh); main += strf("w%d.f%d = %s\njunk(3)\n", q, i, e.c_str()); ws[i] = sh; }
                for (int i : look) { main += strf("show(w%d.f%d)\n", q, i); want.push_back(ws[i]); }
                kinds.insert("fields");
                break;
            }
            case 2: {  // locals
                t += strf("func lo%d() {\n", q);
                for (int i = 0; i < n; ++i) t += strf("  l%d: any = %s\n", i, es[i].c_str());
                t += strf("  junk(%d)\n", (int)g.below(40));
                for (int i : look) { t += strf("  show(l%d)\n", i); want.push_back(ws[i]); }
                t += "}\n";
                main += strf("lo%d()\n", q);
                kinds.insert("locals");
                break;
            }
            case 3: {  // globals
                for (int i = 0; i < n; ++i) main += strf("g%d_%d: any = %s\n", q, i, es[i].c_str());
                main += strf("junk(%d)\n", (int)g.below(40));
                for (int i : look) { main += strf("show(g%d_%d)\n", q, i); want.push_back(ws[i]); }
                kinds.insert("globals");
                break;
            }
            case 4: {  // parameters
                t += strf("func pa%d(", q);
                for (int i = 0; i < n; ++i) t += strf("%sa%d: any", i ? ", " : "", i);
                t += strf(") {\n  junk(%d)\n", (int)g.below(40));
                for (int i : look) { t += strf("  show(a%d)\n", i); want.push_back(ws[i]); }
                t += "}\n";
                main += strf("pa%d(%s)\n", q, all().c_str());
                kinds.insert("parameters");
                break;
            }
            default: {  // arguments of a foreign function, elements
                main += strf("a%d := L(%s)\njunk(%d)\n", q, all().c_str(), (int)g.below(40));
                for (int i : look) { main += strf("show(a%d[%d])\n", q, i); want.push_back(ws[i]); }
                kinds.insert("elements");
                break;
            }
        }
    }
    c.say(t + main);
    // show hands its argument to the host
    static std::vector<std::string> *sink;
    sink = &got;
    Tiny_BindFunction(h.state, "pr(any): void", [](Tiny_StateThread *, const Tiny_Value *a, int) -> Tiny_Value {
        std::function<std::string(Tiny_Value, int)> d = [&](Tiny_Value v, int depth) -> std::string {
            switch (v.type) {
                case TINY_VAL_NULL: return "null";
                case TINY_VAL_INT: return std::to_string(v.i);
                case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return quote(std::string(Tiny_ToString(v), Tiny_StringLen(v)));
                case TINY_VAL_STRUCT: if (depth < 2) return "{" + d(Tiny_GetField(v, 0), depth + 1) + "," + d(Tiny_GetField(v, 1), depth + 1) + "}";
                default: return strf("<kind %d>", v.type);
            }
        };
        sink->push_back(d(a[0], 0));
        return Tiny_Null;
    });
    h.mustCompile(t + main);
    Thread th(h);
    th.start();
    int den = (int)g.range(1, 30);
    if (g.chance(1, 4)) th.run();
    else while (th.step()) if (g.chance(1, den)) th.t->maxNumObjects = 0;
    if (!th.error.empty()) fail(th.error);
    PBT_CHECK(got.size() == want.size(), "%zu values were shown instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) PBT_CHECK(got[i] == want[i], "value %zu is %s instead of %s", i, got[i].c_str(), want[i].c_str());
    th.destroy();
    th.ctx.check("thread context");
    c.nontrivial = most > 100;
    for (auto &k : kinds) c.label(k);
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C29";
    p.title = "Program size does not change meaning";
    p.assumptions = {"the library is built with TINY_THREAD_STACK_SIZE=8192, so that 255 arguments fit on the stack",
                     "close to the limit of 1024 strings a program may be accepted or rejected",
                     "more than 12000 globals are only tried by the thorough command"};
    p.families.push_back({"padded", "more than 5000 bytes of text, at least three observations", padded, 2400, 200000});
    p.families.push_back({"wide", "more than 100 parameters, arguments, fields or locals", wide, 6000, 400000});
    p.families.push_back({"strings", "more than 200 strings", strings, 1200, 60000});
    p.families.push_back({"counts", "more than 250 declarations", [](Gen &g, Case &c) { counts(g, c, false); }, 500, 20000});
    p.families.push_back({"many", "more than 250 declarations", [](Gen &g, Case &c) { counts(g, c, true); }, 0, 600});
    p.families.push_back({"lengths", "a name, literal or gap of more than 120 bytes", lengths, 3000, 200000});
    p.families.push_back({"deep", "at least 40 calls, operands or places at a time", deep, 1500, 150000});
    p.families.push_back({"held", "more than 100 objects held by one struct, call, array or by globals", held, 1500, 150000});
    p.cpuPerCase = 60;
    return run(argc, argv, p);
}
