#include <algorithm>
#include "fuzztext.h"
#include "vals.h"
using namespace vals;

namespace {
struct T {
    enum K { I, F, B, S, St, Arr, Any } k = I;
    int idx = -1;       // struct or array
    bool opt = false;   // nullable
    bool operator==(const T &o) const { return k == o.k && idx == o.idx && opt == o.opt; }
};
struct SD { bool big = false; std::string name; std::vector<std::pair<std::string, T>> f; bool custom = false, json = true; };
struct AD { std::string name; T elem; bool json = true; };
struct FD { std::string name; std::vector<T> args; bool isVoid = false; T ret; int retArg = -1; std::string retText; Val retVal; std::string alias; int id = 0; };
// declarations in an order in which each needs only earlier ones
struct Decl { std::string text; bool use; };

struct W {
    Gen &g;
    Program p;
    Machine m{p};
    StrTable tab;
    std::vector<SD> st;
    std::vector<AD> ar;
    std::vector<FD> fs;
    std::vector<Decl> decls;
    std::string text;                  // statements
    std::vector<std::string> trace;
    struct V { std::string name; T t; Val v; };
    std::vector<V> vars;
    int serial = 0;
    explicit W(Gen &g) : g(g) {}

    std::string base(const T &t) const {
        switch (t.k) {
            case T::I: return "int";
            case T::F: return "float";
            case T::B: return "bool";
            case T::S: return "str";
            case T::Any: return "any";
            case T::St: return st[t.idx].name;
            case T::Arr: return ar[t.idx].name;
        }
        return "";
    }
    std::string name(const T &t) const { return base(t) + (t.opt ? "?" : ""); }
    std::string mangled(const T &t) const { return (t.opt ? "nullable_" : "") + base(t); }
    T type(bool opts = true, bool any = false) {
        T t;
        switch (g.below(9)) {
            case 0: case 1: break;
            case 2: t.k = T::F; break;
            case 3: t.k = T::B; break;
            case 4: t.k = T::S; break;
            case 5: case 6: if (!st.empty()) { t.idx = (int)g.below(st.size()); if (!st[t.idx].big) t.k = T::St; else t.idx = -1; } break;
            case 7: if (!ar.empty()) { t.k = T::Arr; t.idx = (int)g.below(ar.size()); } break;
            default: if (any) t.k = T::Any; break;
        }
        if (opts && t.k != T::Any && g.chance(1, 4)) t.opt = true;
        return t;
    }
    bool jsonable(const T &t) { return t.k == T::Any ? false : t.k == T::St ? (t.idx >= (int)st.size() || st[t.idx].json) : t.k == T::Arr ? ar[t.idx].json : true; }
    std::vector<std::string> names;
    // Often a name that is easily confused with another one: a part of it, more than it, the same in other letters.
    std::string ident(const char *pre) {
        static const char *mid[] = {"", "_", "x", "Long_name_", "To_json", "int", "_len", "array"};
        std::string n;
        for (int k = 0; k < 4; ++k) {
            if (names.empty() || g.chance(1, 2)) break;
            n = g.pick(names);
            switch (g.below(4)) {
                case 0: n += (char)('a' + g.below(26)); break;
                case 1: n += (char)('0' + g.below(10)); break;
                case 2: n.pop_back(); break;
                default: for (size_t i = g.below(n.size()); i < n.size(); ++i) if (isalpha((unsigned char)n[i])) { n[i] ^= 32; break; } break;
            }
            if (n.size() < 3 || n.back() == '_' || std::find(names.begin(), names.end(), n) != names.end() || reserved(n)) n.clear();
            else break;
        }
        if (n.empty()) do n = strf("%s%s%d", pre, mid[g.below(8)], serial++); while (std::find(names.begin(), names.end(), n) != names.end());
        names.push_back(n);
        return n;
    }
    // a name of this form may be one of the variables'
    static bool reserved(const std::string &n) {
        static const char *r[] = {"int", "len", "array", "list"};
        for (auto q : r) if (n == q) return true;
        if (!strchr("vdhlp", n[0])) return false;
        for (size_t i = 1; i < n.size(); ++i) if (!isdigit((unsigned char)n[i])) return false;
        return true;
    }
    void newStruct(bool json, int maxFields = 5) {
        SD d;
        d.name = ident("S");
        int n = (int)g.range(1, maxFields);
        d.big = n > 5;  // the values of a thread are few: such a struct has no parts and is part of nothing
        T self;
        self.k = T::St;
        self.idx = (int)st.size();
        self.opt = true;
        static const char *fn[] = {"x", "value", "null_", "next", "v", "s", "int", "len", "a_b", "Q"};
        for (int i = 0; i < n; ++i) {
            T t = !d.big && g.chance(1, 8) ? self : type();
            for (int k = 0; d.big && (t.k == T::St || t.k == T::Arr) && k < 20; ++k) t = type();
            for (int k = 0; json && !jsonable(t) && k < 5; ++k) t = type();
            if (!(t.k == T::St && t.idx == self.idx) && !jsonable(t)) d.json = false;
            std::string f = i < 10 && n <= 10 ? std::string(fn[(i * 3 + st.size()) % 10]) : strf("f%d", i);
            d.f.push_back({f, t});
        }
        st.push_back(d);
        std::string s = "struct " + d.name + " {";
        for (auto &q : d.f) s += " " + q.first + ": " + name(q.second);
        decls.push_back({s + " }", false});
    }
    void newArray() {
        AD a;
        a.elem = type(false);
        a.name = ident("L");
        a.json = jsonable(a.elem);
        ar.push_back(a);
        decls.push_back({"use array(\"" + name(a.elem) + "\") as " + a.name, true});
    }
    // ---- values
    std::string ex(const T &t, Val &v, int d) {
        if (!vars.empty() && g.chance(1, 5)) {
            V &q = g.pick(vars);
            if (q.t == t) { v = q.v; return q.name; }
        }
        if (t.opt) {
            if (d <= 0 || g.chance(1, 3)) { v = Val::null(); return "cast(null, " + name(t) + ")"; }
            T u = t;
            u.opt = false;
            return "cast(cast(" + ex(u, v, d) + ", any), " + name(t) + ")";
        }
        switch (t.k) {
            case T::I: { int64_t i = someInt(g); v = Val::n(i); return intText(i); }
            case T::F: {
                double x = someFloat(g);
                if (g.chance(1, 12)) { static const char *e[] = {"(1.0/0.0)", "(-1.0/0.0)"}; int k = (int)g.below(2); v = Val::fl(k ? -INFINITY : INFINITY); return e[k]; }
                v = Val::fl(x);
                return fltText(x);
            }
            case T::B: { bool b = g.coin(); v = Val::b(b); return b ? "true" : "false"; }
            case T::S: { std::string s = someStr(g, true); v = Val::st(s); return strEx(g, tab, s, d > 0 ? 1 : 0); }
            case T::Any: { T u; u.k = (T::K)g.below(4); return ex(u, v, d); }
            case T::St: {
                SD &s = st[t.idx];
                std::vector<Val> fv;
                std::string r = "new " + s.name + "{";
                for (size_t i = 0; i < s.f.size(); ++i) { Val x; r += (i ? ", " : "") + ex(s.f[i].second, x, d - 1); fv.push_back(x); }
                v = m.newObj(MObj::St);
                m.heap[v.o].f = fv;
                return r + "}";
            }
            case T::Arr: {
                AD &a = ar[t.idx];
                std::vector<Val> fv;
                int n = d > 0 ? (int)g.below(4) : 0;
                std::string r = a.name + "(";
                for (int i = 0; i < n; ++i) { Val x; r += (i ? ", " : "") + ex(a.elem, x, d - 1); fv.push_back(x); }
                v = m.newObj(MObj::Arr);
                m.heap[v.o].f = fv;
                return r + ")";
            }
        }
        return "0";
    }
    void var(const T &t, int d = 2) {
        V q;
        q.t = t;
        std::string e = ex(t, q.v, d);
        q.name = strf("v%d", serial++);
        text += q.name + " := " + e + "\n";
        vars.push_back(q);
    }
    void saw(const std::string &e, const Val &v) { text += "emit(" + e + ")\n"; trace.push_back("emit" + m.dumpAll({v})); }

    // ---- units
    std::vector<std::string> units(bool one) {
        std::vector<std::string> r(1);
        if (one) {  // everything else may stand anywhere
            std::vector<std::string> order;
            for (auto &d : decls) if (d.use) order.push_back(d.text);
            for (auto &d : decls) if (!d.use) order.insert(order.begin() + g.below(order.size() + 1), d.text);
            bool late = g.chance(1, 3);  // all after the statements
            if (late) r[0] = text;
            for (auto &s : order) r[0] += s + "\n";
            if (!late) r[0] += text;
            return r;
        }
        for (auto &d : decls) { r.back() += d.text + "\n"; if (g.chance(1, 3)) r.emplace_back(); }
        if (g.coin()) r.emplace_back();
        r.back() += text;
        return r;
    }
    void run(Host &h, Thread &t) {
        table() = &tab;
        t.start();
        t.run();
        compareTrace(trace, t.trace);
        t.destroy();
        t.ctx.check("thread");
    }
};

// ---------------------------------------------------------------- JSON
struct J { enum K { Nul, B, Num, Str, Arr, Obj } k = Nul; std::string s; std::vector<std::pair<std::string, J>> v; };
struct Parser {
    const std::string &s;
    size_t i = 0;
    [[noreturn]] void bad(const char *w) { fail(strf("the text is not JSON, %s at %zu: %s", w, i, quote(s).c_str())); }
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) ++i; }
    std::string str() {
        std::string r;
        if (i >= s.size() || s[i] != '"') bad("no string");
        ++i;
        for (;;) {
            if (i >= s.size()) bad("no end of the string");
            unsigned char c = s[i++];
            if (c == '"') return r;
            if (c < 0x20) bad("a raw control character");
            if (c != '\\') { r += (char)c; continue; }
            if (i >= s.size()) bad("no end of the escape");
            switch (s[i++]) {
                case '"': r += '"'; break;
                case '\\': r += '\\'; break;
                case '/': r += '/'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u': {
                    unsigned v = 0;
                    for (int k = 0; k < 4; ++k) { if (i >= s.size() || !isxdigit((unsigned char)s[i])) bad("a faulty escape"); v = v * 16 + (unsigned)(isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); ++i; }
                    if (v > 255) bad("an escape for a character outside the strings");
                    r += (char)v;
                    break;
                }
                default: bad("an unknown escape");
            }
        }
    }
    J val() {
        ws();
        J j;
        if (i >= s.size()) bad("nothing");
        if (s.compare(i, 4, "null") == 0) { i += 4; return j; }
        if (s.compare(i, 4, "true") == 0) { i += 4; j.k = J::B; j.s = "true"; return j; }
        if (s.compare(i, 5, "false") == 0) { i += 5; j.k = J::B; j.s = "false"; return j; }
        if (s[i] == '"') { j.k = J::Str; j.s = str(); return j; }
        if (s[i] == '{' || s[i] == '[') {
            bool o = s[i++] == '{';
            j.k = o ? J::Obj : J::Arr;
            ws();
            if (i < s.size() && s[i] == (o ? '}' : ']')) { ++i; return j; }
            for (;;) {
                std::string key;
                ws();
                if (o) { key = str(); ws(); if (i >= s.size() || s[i++] != ':') bad("no colon"); }
                j.v.push_back({key, val()});
                ws();
                if (i >= s.size()) bad("no end");
                char c = s[i++];
                if (c == (o ? '}' : ']')) return j;
                if (c != ',') bad("no comma");
            }
        }
        j.k = J::Num;
        size_t b = i;
        auto digits = [&] { size_t q = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (q == i) bad("no digit"); };
        if (s[i] == '-') ++i;
        if (i < s.size() && s[i] == '0') ++i; else digits();
        if (i < s.size() && s[i] == '.') { ++i; digits(); }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; digits(); }
        j.s = s.substr(b, i - b);
        return j;
    }
};
void same(W &w, const T &t, const Val &v, const J &j, const std::string &path) {
    static const char *kn[] = {"null", "a truth value", "a number", "a string", "a list", "an object"};
    auto want = [&](J::K k) { PBT_CHECK(j.k == k, "%s is %s instead of %s", path.c_str(), kn[j.k], kn[k]); };
    if (v.t == Val::Nul) { want(J::Nul); return; }
    switch (t.k) {
        case T::I: want(J::Num); PBT_CHECK(j.s == std::to_string(v.i), "%s is %s instead of %lld", path.c_str(), j.s.c_str(), (long long)v.i); return;
        case T::F:
            if (std::isinf(v.f) || std::isnan(v.f)) { want(J::Nul); return; }
            want(J::Num);
            PBT_CHECK(strtod(j.s.c_str(), nullptr) == v.f, "%s is %s instead of %.17g", path.c_str(), j.s.c_str(), v.f);
            return;
        case T::B: want(J::B); PBT_CHECK((j.s == "true") == (v.i != 0), "%s is %s", path.c_str(), j.s.c_str()); return;
        case T::S: want(J::Str); PBT_CHECK(j.s == *v.s, "%s is %s instead of %s", path.c_str(), quote(j.s).c_str(), quote(*v.s).c_str()); return;
        case T::Any: return;
        case T::St: {
            SD &s = w.st[t.idx];
            if (s.custom) { want(J::Str); PBT_CHECK(j.s == "custom", "%s is %s instead of what the program's own function says", path.c_str(), quote(j.s).c_str()); return; }
            want(J::Obj);
            PBT_CHECK(j.v.size() == s.f.size(), "%s has %zu fields instead of %zu", path.c_str(), j.v.size(), s.f.size());
            for (size_t i = 0; i < s.f.size(); ++i) {
                PBT_CHECK(j.v[i].first == s.f[i].first, "field %zu of %s is %s instead of %s", i, path.c_str(), j.v[i].first.c_str(), s.f[i].first.c_str());
                same(w, s.f[i].second, w.m.heap[v.o].f[i], j.v[i].second, path + "." + s.f[i].first);
            }
            return;
        }
        case T::Arr: {
            want(J::Arr);
            auto &f = w.m.heap[v.o].f;
            PBT_CHECK(j.v.size() == f.size(), "%s has %zu elements instead of %zu", path.c_str(), j.v.size(), f.size());
            for (size_t i = 0; i < f.size(); ++i) same(w, w.ar[t.idx].elem, f[i], j.v[i].second, path + strf("[%zu]", i));
            return;
        }
    }
}
std::vector<std::string> *gTexts;
Tiny_Value fJs(Tiny_StateThread *t, const Tiny_Value *a, int) { gTexts->push_back(std::string(Tiny_ToString(a[0]), Tiny_StringLen(a[0]))); return Tiny_Null; }

void say(Case &c, W &w, const std::vector<std::string> &u) {
    for (size_t i = 0; i < u.size(); ++i) c.say((u.size() > 1 ? strf("// unit %zu\n", i) : std::string()) + u[i]);
    for (size_t i = 0; i < w.tab.v.size(); ++i) c.say(strf("// hs(%zu) = %s\n", i, quote(*w.tab.v[i]).c_str()));
}
void json(Gen &g, Case &c) {
    W w(g);
    bool one = g.coin();
    int n = (int)g.range(1, 6);
    for (int i = 0; i < n; ++i) {
        if (i && g.chance(1, 3)) {
            w.newArray();
            AD &a = w.ar.back();
            std::string e = w.name(a.elem);
            if (a.elem.k == T::St && !w.st[a.elem.idx].custom) w.decls.push_back({"use json(\"" + e + "\")", true});
            w.decls.push_back({"func " + a.name + "_to_json(v: " + a.name + "): str {\n  s := \"[\"\n  for i := 0; i < " + a.name + "_len(v); i += 1 {\n    if i > 0 { s = strcat(s, \",\") }\n    s = strcat(s, \"\", " + e + "_to_json(" + a.name + "_get(v, i)))\n  }\n  return strcat(s, \"]\")\n}", false});
        } else {
            w.newStruct(true, g.chance(1, 10) ? g.coin() ? 60 : 20 : 5);
            SD &s = w.st.back();
            if (g.chance(1, 8)) {
                s.custom = true;
                w.decls.push_back({"func " + s.name + "_to_json(v: " + s.name + "): str { return \"\\\"custom\\\"\" }", false});
            }
        }
    }
    std::vector<int> used;
    for (size_t i = 0; i < w.st.size(); ++i)
        for (int k = (int)g.below(3); k > 0; --k) { w.decls.push_back({"use json(\"" + w.st[i].name + "\")", true}); if (used.empty() || used.back() != (int)i) used.push_back((int)i); }
    if (used.empty()) { w.decls.push_back({"use json(\"" + w.st[0].name + "\")", true}); used.push_back(0); }
    struct Want { T t; Val v; };
    std::vector<Want> want;
    int vals = (int)g.range(1, 6);
    bool fn = g.coin();
    for (int i = 0; i < vals; ++i) {
        T t;
        t.k = T::St;
        t.idx = used[g.below(used.size())];
        if (w.vars.size() < 20) w.var(t, 3);
        Val v;
        std::string e = w.ex(t, v, 2);
        w.text += "js(" + w.st[t.idx].name + "_to_json(" + e + "))\n";
        want.push_back({t, v});
        if (g.chance(1, 3)) {  // a change is seen
            std::vector<W::V *> mine;
            for (auto &q : w.vars) if (q.t == t) mine.push_back(&q);
            if (!mine.empty()) {
                W::V &q = *mine[g.below(mine.size())];
                size_t f = g.below(w.st[t.idx].f.size());
                T ft = w.st[t.idx].f[f].second;
                if (ft.k != T::St && ft.k != T::Arr) {  // keeps the values free of cycles
                    // the earlier texts are already expected with the old value
                    Val nv;
                    std::string s = w.ex(ft, nv, 1);
                    Val copy = w.m.newObj(MObj::St);
                    w.m.heap[copy.o].f = w.m.heap[q.v.o].f;
                    w.m.heap[copy.o].f[f] = nv;
                    // a fresh variable, so that shared values stay as they are
                    std::string nn = strf("v%d", w.serial++);
                    std::string args;
                    for (size_t k = 0; k < w.st[t.idx].f.size(); ++k) args += (k ? ", " : "") + q.name + "." + w.st[t.idx].f[k].first;
                    w.text += nn + " := new " + w.st[t.idx].name + "{" + args + "}\n" + nn + "." + w.st[t.idx].f[f].first + " = " + s + "\njs(" + w.st[t.idx].name + "_to_json(" + nn + "))\n";
                    want.push_back({t, copy});
                }
            }
        }
    }
    (void)fn;
    auto u = w.units(one);
    say(c, w, u);
    Host h;
    bindStrings(h.state);
    std::vector<std::string> texts;
    gTexts = &texts;
    Tiny_BindFunction(h.state, "js(str): void", fJs);
    for (auto &s : u) h.mustCompile(s);
    Thread t(h);
    if (g.coin()) t.t->maxNumObjects = 0;
    w.run(h, t);
    PBT_CHECK(texts.size() == want.size(), "%zu texts instead of %zu", texts.size(), want.size());
    for (size_t i = 0; i < texts.size(); ++i) {
        Parser ps{texts[i]};
        J j = ps.val();
        ps.ws();
        PBT_CHECK(ps.i == texts[i].size(), "something follows the JSON text: %s", quote(texts[i]).c_str());
        same(w, want[i].t, want[i].v, j, w.st[want[i].t.idx].name);
    }
    c.nontrivial = true;
    c.labelIf(!w.ar.empty(), "arrays");
    c.labelIf(w.st.size() > 1, "several structs");
    c.labelIf(u.size() > 1, "several units");
}

// ---------------------------------------------------------------- delegates
void delegates(Gen &g, Case &c) {
    W w(g);
    bool one = g.coin();
    for (int n = (int)g.below(4); n > 0; --n) { if (g.chance(1, 3)) w.newArray(); else w.newStruct(false, 4); }
    int nf = (int)g.range(1, 5);
    auto body = [&](FD &f) {
        std::string s = "func " + f.name + "(";
        for (size_t i = 0; i < f.args.size(); ++i) s += strf("%sp%zu: ", i ? ", " : "", i) + w.name(f.args[i]);
        s += ")";
        if (!f.isVoid || g.coin()) s += ": " + (f.isVoid ? std::string("void") : w.name(f.ret));
        s += strf(" { emit(%d", f.id);
        for (size_t i = 0; i < f.args.size(); ++i) s += strf(", p%zu", i);
        s += ") ";
        if (!f.isVoid) s += "return " + (f.retArg >= 0 ? strf("p%d", f.retArg) : f.retText) + " ";
        w.decls.push_back({s + "}", false});
    };
    auto typeName = [&](FD &f) {
        std::string s = "delegate_";
        for (auto &a : f.args) s += w.mangled(a) + "_";
        return s + (f.isVoid ? "void" : w.mangled(f.ret));
    };
    for (int i = 0; i < nf; ++i) {
        FD f;
        f.id = i;
        if (i && g.coin()) { f = w.fs[g.below(w.fs.size())]; f.id = i; f.retArg = -1; }  // the same signature
        else {
            int na = (int)g.below(g.chance(1, 8) ? 12 : 5);
            for (int k = 0; k < na; ++k) f.args.push_back(w.type(true, true));
            f.isVoid = g.chance(1, 4);
            f.ret = w.type(true, true);
        }
        f.name = w.ident("f");
        if (!f.isVoid) {
            for (size_t k = 0; k < f.args.size(); ++k) if (f.args[k] == f.ret && g.coin()) f.retArg = (int)k;
            if (f.retArg < 0) { auto saved = w.vars; w.vars.clear(); f.retText = w.ex(f.ret, f.retVal, 1); w.vars = saved; }
        }
        body(f);
        f.alias = g.coin() ? f.name + "_delegate" : w.ident("D");
        w.fs.push_back(f);
        int uses = g.chance(1, 8) ? 2 : 1;
        for (int k = 0; k < uses; ++k) w.decls.push_back({"use delegate(\"" + f.name + "\") as " + f.alias, true});
    }
    // passed on to other functions, kept in structs and arrays
    std::map<std::string, std::string> ap, holder, list;
    for (auto &f : w.fs) {
        std::string tn = typeName(f);
        if (!ap.count(tn) && g.coin()) {
            std::string n = ap[tn] = w.ident("ap"), s = "func " + n + "(d: " + tn, a;
            for (size_t i = 0; i < f.args.size(); ++i) { s += strf(", q%zu: ", i) + w.name(f.args[i]); a += strf(", q%zu", i); }
            s += ")" + (f.isVoid ? std::string() : ": " + w.name(f.ret)) + " { " + (f.isVoid ? "" : "return ") + tn + "_call(d" + a + ") }";
            w.decls.push_back({s, false});
        }
        if (!holder.count(tn) && g.chance(1, 3)) { std::string n = holder[tn] = w.ident("H"); w.decls.push_back({"struct " + n + " { d: " + tn + " k: int }", false}); }
        if (!list.count(tn) && g.chance(1, 3)) { std::string n = list[tn] = w.ident("dl"); w.decls.push_back({"use array(\"" + tn + "\") as " + n, true}); }
    }
    int calls = (int)g.range(1, 8), indirect = 0;
    for (int i = 0; i < 3; ++i) w.var(w.type());
    for (int i = 0; i < calls; ++i) {
        FD &f = g.pick(w.fs);
        std::string tn = typeName(f), args;
        std::vector<Val> av = {Val::n(f.id)};
        for (size_t k = 0; k < f.args.size(); ++k) { Val v; args += ", " + w.ex(f.args[k], v, 1); av.push_back(v); }
        std::string d = f.alias + "()", fn = tn + "_call";
        // some way to get the delegate
        switch (g.below(6)) {
            case 0: { std::string n = strf("d%d", w.serial++); w.text += n + (g.coin() ? " := " : ": " + tn + " = ") + d + "\n"; d = n; break; }
            case 1: if (holder.count(tn)) { std::string n = strf("h%d", w.serial++); w.text += n + " := new " + holder[tn] + "{" + d + ", 1}\n"; d = n + ".d"; ++indirect; } break;
            case 2: if (list.count(tn)) { std::string n = strf("l%d", w.serial++), L = list[tn]; w.text += n + " := " + L + "()\n" + L + "_push(" + n + ", " + d + ")\n"; d = g.coin() ? n + "[0]" : L + "_get(" + n + ", 0)"; ++indirect; } break;
            case 3: {  // one of two
                std::vector<FD *> same;
                for (auto &q : w.fs) if (typeName(q) == tn) same.push_back(&q);
                FD &o = *same[g.below(same.size())];
                bool first = g.coin();
                d = strf("(if (%s) (", first ? "KB" : "!KB") + (first ? d : o.alias + "()") + ") else " + (first ? o.alias + "()" : d) + ")";
                break;
            }
            default: break;
        }
        if (ap.count(tn) && g.coin()) { fn = ap[tn]; ++indirect; }
        std::string call = fn + "(" + d + args + ")";
        bool shows = !f.isVoid && !g.chance(1, 5);
        w.text += shows ? "emit(" + call + ")\n" : call + "\n";
        w.trace.push_back("emit" + w.m.dumpAll(av));
        if (shows) w.trace.push_back("emit" + w.m.dumpAll({f.retArg >= 0 ? av[f.retArg + 1] : f.retVal}));
    }
    auto u = w.units(one);
    say(c, w, u);
    Host h;
    bindStrings(h.state);
    for (auto &s : u) h.mustCompile(s);
    // a delegate of another type, or other arguments, are not accepted
    for (int i = 0; i < 2; ++i) {
        FD &f = g.pick(w.fs), &o = g.pick(w.fs);
        std::string args;
        for (auto &a : f.args) { Val v; auto saved = w.vars; w.vars.clear(); args += ", " + w.ex(a, v, 1); w.vars = saved; }
        std::string bad;
        if (typeName(f) != typeName(o)) bad = typeName(f) + "_call(" + o.alias + "()" + args + ")";
        else bad = typeName(f) + "_call(" + f.alias + "()" + args + ", 1)";
        c.say("// must not compile: " + bad + "\n");
        PBT_CHECK(h.compile(bad).type != TINY_COMPILE_SUCCESS, "a wrong call of a delegate compiles");
        std::string good = typeName(f) + "_call(" + f.alias + "()" + args + ")";
        h.mustCompile("func ok" + std::to_string(w.serial++) + "() { " + good + " }\n");
    }
    Thread t(h);
    w.run(h, t);
    c.nontrivial = true;
    c.labelIf(indirect > 0, "passed on");
    c.labelIf(u.size() > 1, "several units");
}

// ---------------------------------------------------------------- arrays
void arrays(Gen &g, Case &c) {
    W w(g);
    bool one = g.coin();
    int n = (int)g.range(1, 7);
    for (int i = 0; i < n; ++i) { if (g.coin()) w.newArray(); else w.newStruct(false, 3); }
    w.newArray();
    // histories
    int ops = (int)g.range(3, 30);
    for (int i = 0; i < 2; ++i) { T t; t.k = T::Arr; t.idx = (int)g.below(w.ar.size()); w.var(t, 1); }
    for (int i = 0; i < ops; ++i) {
        std::vector<W::V *> as;
        for (auto &q : w.vars) if (q.t.k == T::Arr && !q.t.opt) as.push_back(&q);
        if (as.size() < 2 || g.chance(1, 8)) { T t; t.k = T::Arr; t.idx = (int)g.below(w.ar.size()); w.var(t, 2); continue; }
        if (g.chance(1, 8)) { w.var(w.type(), 2); continue; }
        W::V a = *as[g.below(as.size())];
        AD &d = w.ar[a.t.idx];
        const char *x = a.name.c_str();
        auto f = [&]() -> std::vector<Val> & { return w.m.heap[a.v.o].f; };
        size_t len = f().size();
        Val v;
        auto elem = [&] { std::string s = w.ex(d.elem, v, 1); return s; };
        auto call = [&](const char *fn, const std::string &args) {
            if (g.chance(1, 3)) return strf("%s->%s_%s(%s)", x, d.name.c_str(), fn, args.c_str());
            return d.name + "_" + fn + "(" + x + (args.empty() ? "" : ", " + args) + ")";
        };
        switch (len ? g.below(11) : g.below(4)) {
            case 0: { std::string s = elem(); w.text += call("push", s) + "\n"; f().push_back(v); break; }
            case 1: w.saw(call("len", ""), Val::n((int64_t)len)); break;
            case 2: { size_t to = g.below(len + 5); std::string s = elem(); w.text += call("resize_fill", strf("%zu, ", to) + s) + "\n"; f().resize(to, v); break; }
            case 3: if (g.chance(1, 4)) { w.text += call("clear", "") + "\n"; f().clear(); } else w.saw(x, a.v); break;
            case 4: { Val r = f().back(); f().pop_back(); w.saw(call("pop", ""), r); break; }
            case 5: { Val r = f()[0]; f().erase(f().begin()); w.saw(call("shift", ""), r); break; }
            case 6: { size_t k = g.below(len); std::string s = elem(); w.text += call("insert", strf("%zu, ", k) + s) + "\n"; f().insert(f().begin() + k, v); break; }
            case 7: { size_t k = g.below(len); w.text += call("remove", std::to_string(k)) + "\n"; f().erase(f().begin() + k); break; }
            case 8: { size_t k = g.below(len); std::string s = elem(); w.text += (g.coin() ? call("set", strf("%zu, ", k) + s) : strf("%s[%zu] = %s", x, k, s.c_str())) + "\n"; f()[k] = v; break; }
            case 9: { size_t k = g.below(len); w.saw(g.coin() ? call("get", std::to_string(k)) : strf("%s[%zu]", x, k), f()[k]); break; }
            default: {
                if (d.elem.k == T::I) { w.text += call("sort", "") + "\n"; std::stable_sort(f().begin(), f().end(), [](const Val &p, const Val &q) { return p.i < q.i; }); }
                // an element keeps its static type
                else if (d.elem.k == T::St) {
                    size_t k = g.below(len);
                    SD &s = w.st[d.elem.idx];
                    size_t fi = g.below(s.f.size());
                    w.saw(strf("%s[%zu].%s", x, k, s.f[fi].first.c_str()), w.m.heap[f()[k].o].f[fi]);
                } else w.saw(x, a.v);
            }
        }
        // arrays of arrays may hold themselves only through any: lengths stay small
        if (w.m.heap.size() > 4000) break;
    }
    auto u = w.units(one);
    say(c, w, u);
    Host h;
    bindStrings(h.state);
    for (auto &s : u) h.mustCompile(s);
    // other types are not accepted, the right ones are
    int rejected = 0;
    for (int i = 0; i < 8; ++i) {
        T at;
        at.k = T::Arr;
        at.idx = (int)g.below(w.ar.size());
        AD &d = w.ar[at.idx];
        T other = w.type(true, true);
        T arg = d.elem;
        auto saved = w.vars;
        w.vars.clear();
        Val v;
        std::string good = w.ex(arg, v, 1), bad = other == arg ? "" : w.ex(other, v, 1), arr = w.ex(at, v, 1);
        if (other.k == T::Any) bad = "cast(1, any)";
        w.vars = saved;
        std::string fn = strf("func t%d(a: ", w.serial++) + d.name + ") { ", A = d.name;
        auto form = [&](int k, const std::string &e) -> std::string {
            switch (k) {
                case 0: return A + "_push(a, " + e + ")";
                case 1: return A + "_set(a, 0, " + e + ")";
                case 2: return "a[0] = " + e;
                case 3: return A + "_insert(a, 0, " + e + ")";
                case 4: return A + "_resize_fill(a, 1, " + e + ")";
                case 5: return "a->" + A + "_push(" + e + ")";
                case 6: return A + "_set_index(a, 0, " + e + ")";
                default: return "";
            }
        };
        int k = (int)g.below(9);
        if (k < 7) {
            std::string ok = fn + form(k, good) + " }";
            h.mustCompile(ok);
            if (bad.empty() || d.elem.k == T::Any) continue;
            std::string no = "func n" + std::to_string(w.serial++) + "(a: " + A + ") { " + form(k, bad) + " }";
            c.say("// must not compile: " + no + "\n");
            PBT_CHECK(h.compile(no).type != TINY_COMPILE_SUCCESS, "an element of type %s is accepted where the elements are of type %s", w.name(other).c_str(), w.name(d.elem).c_str());
            ++rejected;
        } else {  // the type of an element taken out
            static const char *get[] = {"_get(a, 0)", "_pop(a)", "_shift(a)", "_get_index(a, 0)"};
            std::string e = g.chance(1, 3) ? "a[0]" : A + get[g.below(4)];
            h.mustCompile(fn + "x: " + w.name(d.elem) + " = " + e + " }");
            if (other == d.elem || other.k == T::Any || (other.opt && other.k == d.elem.k && other.idx == d.elem.idx)) continue;
            std::string no = "func n" + std::to_string(w.serial++) + "(a: " + A + ") { x: " + w.name(other) + " = " + e + " }";
            c.say("// must not compile: " + no + "\n");
            PBT_CHECK(h.compile(no).type != TINY_COMPILE_SUCCESS, "an element of type %s is taken for a %s", w.name(d.elem).c_str(), w.name(other).c_str());
            ++rejected;
        }
    }
    Thread t(h);
    w.run(h, t);
    c.nontrivial = ops >= 5 && rejected >= 1;
    c.labelIf(u.size() > 1, "several units");
}

// ---------------------------------------------------------------- misuse
// Whatever is asked of the macros, the result is success or an error, and what was there keeps working.
void misuse(Gen &g, Case &c) {
    W w(g);
    // a program which has used the macros
    w.newStruct(true, 4);
    w.newArray();
    w.newStruct(true, 4);
    for (auto &a : w.ar) {
        std::string e = w.name(a.elem);
        if (a.elem.k == T::St) w.decls.push_back({"use json(\"" + e + "\")", true});
        w.decls.push_back({"func " + a.name + "_to_json(v: " + a.name + "): str { return \"[]\" }", false});
    }
    w.decls.push_back({"use json(\"" + w.st[1].name + "\")", true});
    w.decls.push_back({"func fone(a: int, b: int): int { emit(a, b) return a * 10 + b }", false});
    w.decls.push_back({"use delegate(\"fone\") as done", true});
    std::vector<std::string> before;
    for (auto &d : w.decls) { if (before.empty() || g.chance(1, 4)) before.emplace_back(); before.back() += d.text + "\n"; }
    w.text += "emit(delegate_int_int_int_call(done(), 3, 4))\n";
    w.trace.push_back("emit 3 4");
    w.trace.push_back("emit 34");
    T at;
    at.k = T::Arr;
    at.idx = 0;
    w.var(at, 1);
    {
        auto &q = w.vars.back();
        Val v;
        std::string e = w.ex(w.ar[0].elem, v, 1);
        w.text += w.ar[0].name + "_push(" + q.name + ", " + e + ")\n";
        w.m.heap[q.v.o].f.push_back(v);
        w.saw(q.name, q.v);
        w.saw(w.ar[0].name + "_len(" + q.name + ")", Val::n((int64_t)w.m.heap[q.v.o].f.size()));
    }
    T stt;
    stt.k = T::St;
    stt.idx = 1;
    w.var(stt, 2);
    w.saw(w.vars.back().name, w.vars.back().v);
    w.text += "js(" + w.st[1].name + "_to_json(" + w.vars.back().name + "))\n";
    Host h;
    bindStrings(h.state);
    std::vector<std::string> texts;
    gTexts = &texts;
    Tiny_BindFunction(h.state, "js(str): void", fJs);
    Tiny_BindFunction(h.state, "taken_push(int): int", fJs);
    for (auto &s : before) { c.say("// unit\n" + s); h.mustCompile(s); }
    std::vector<std::string> names = {"int", "str", "any", "void", "bool", "float", "dict", "array", "json", "delegate", "array_any", "nope", "", " ", "int?", w.st[0].name, w.st[1].name, w.st[1].name + "?", w.ar[0].name, w.ar[0].name + "?", "fone", "done", "emit", "delegate_int_int_int", "delegate_int_int_int_call",
                                      w.ar[0].name + "_push", w.st[1].name + "_to_json", "strcat", "main", "a b", "\\\"", "9", "KI", "taken", std::string(300, 'q'), std::string(254, 'T'), "%s%n", "file", "Nat", "Zs", "Zbig", "Zf", "Zff", "Zlist", "v0", "func"};
    auto nm = [&] { return names[g.below(names.size())]; };
    int n = (int)g.range(1, 8), ok = 0, bad = 0;
    int zs = 0;
    std::string lone;
    for (int i = 0; i < n; ++i) {
        std::string s;
        int stm = (int)g.range(1, 3);
        for (int k = 0; k < stm; ++k) {
            switch (g.below(8)) {
                case 0: {  // a struct of some size and its serializer
                    int nf = g.chance(1, 3) ? (int)g.range(100, 255) : (int)g.range(1, 6);
                    std::string z = strf("Zz%d", zs++);
                    s += "struct " + z + " {";
                    for (int q = 0; q < nf; ++q) s += strf(" g%d_%d: ", g.chance(1, 3) ? 0 : zs, q) + (g.chance(1, 5) ? nm() : std::string(g.coin() ? "int" : "str?"));
                    s += " }\nuse json(\"" + z + "\")\n";
                    break;
                }
                case 1: {  // functions of some arity
                    int na = g.chance(1, 3) ? (int)g.range(100, 255) : (int)g.below(5);
                    std::string z = strf("Zz%d", zs++);
                    s += "func " + z + "(";
                    for (int q = 0; q < na; ++q) s += strf("%sp%d: ", q ? ", " : "", q) + (g.chance(1, 8) ? nm() : std::string(g.coin() ? "int" : "str?"));
                    s += ") { }\nuse delegate(\"" + z + "\") as " + (g.chance(1, 3) ? nm() : z + "d") + "\n";
                    break;
                }
                case 2: s += "struct " + nm() + " { x: " + nm() + " }\n"; break;
                case 3: s += "func " + nm() + "(x: " + nm() + "): " + nm() + " { return x }\n"; break;
                case 4: { std::string what = nm(); if (what == "emit" || what == "strcat") what = "done"; s += nm() + " := " + what + "()\n"; break; }
                default: {
                    static const char *mac[] = {"array", "json", "delegate", "array", "delegate", "nomacro", "int"};
                    s += std::string("use ") + mac[g.below(7)] + "(";
                    int na = g.chance(1, 5) ? (int)g.below(40) : g.chance(1, 6) ? (int)g.below(4) : 1;
                    for (int q = 0; q < na; ++q) s += (q ? ", " : "") + ("\"" + nm() + "\"");
                    s += ")";
                    if (!g.chance(1, 4)) s += " as " + (g.coin() ? nm() : strf("Zn%d", zs++));
                    s += "\n";
                    // what it made may be used at once
                    break;
                }
            }
        }
        c.say("// misuse\n" + s);
        Tiny_CompileResult r = h.compile(s, "misuse");
        if (r.type == TINY_COMPILE_SUCCESS) ++ok;
        else { ++bad; PBT_CHECK(memchr(r.error.msg, 0, sizeof r.error.msg) && r.error.msg[0], "the error says nothing"); }
        h.stateCtx.check("state context");
    }
    // the statements may have been made ambiguous only by what succeeded: they use names of their own
    c.say("// unit\n" + w.text);
    for (size_t i = 0; i < w.tab.v.size(); ++i) c.say(strf("// hs(%zu) = %s\n", i, quote(*w.tab.v[i]).c_str()));
    Tiny_CompileResult r = h.compile(w.text);
    if (r.type != TINY_COMPILE_SUCCESS) {
        // a name of the statements was taken by a text which compiled
        PBT_CHECK(ok > 0, "the program does not compile any more: %.300s", r.error.msg);
        c.label("name taken");
        return;
    }
    table() = &w.tab;
    Thread t(h);
    t.start();
    t.run();
    // statements of the misuse which compiled run before and may emit nothing
    compareTrace(w.trace, t.trace);
    PBT_CHECK(texts.size() == 1, "the serializer was called %zu times", texts.size());
    Parser ps{texts[0]};
    J j = ps.val();
    c.nontrivial = bad > 0;
    c.labelIf(ok > 0, "some succeeded");
    c.labelIf(bad > 0, "some failed");
    t.destroy();
}

// Functions of different signatures whose types read alike when joined by underscores: their delegates stay apart.
void clash(Gen &g, Case &c) {
    static const char *base[] = {"int", "float", "str", "bool", "any", "nullable", "void"};
    std::string text;
    std::vector<std::string> words;
    for (int n = (int)g.range(2, 5); n > 0; --n) words.push_back(base[g.below(words.empty() ? 7 : 6)]);
    std::vector<std::string> structs;
    // one way to read the words as types; the last is what is returned
    auto split = [&] {
        std::vector<std::string> ty;
        for (size_t i = 0; i < words.size();) {
            size_t n = std::min<size_t>(words.size() - i, g.coin() ? 1 : (size_t)g.range(2, 3));
            bool plain = n == 1 && words[i] != "nullable" && words[i] != "void";
            if (n == 2 && words[i] == "nullable" && words[i + 1] != "nullable" && words[i + 1] != "any" && words[i + 1] != "void" && g.coin()) { ty.push_back(words[i + 1] + "?"); i += 2; continue; }
            if (n == 1 && words[i] == "nullable" && i + 1 < words.size()) n = 2;
            std::string t = words[i];
            for (size_t k = 1; k < n; ++k) t += "_" + words[i + k];
            if (!plain && t == "void") t = "void_t";
            if (t != words[i] || !plain) {
                if (std::find(structs.begin(), structs.end(), t) == structs.end()) { structs.push_back(t); text += "struct " + t + " { v: int }\n"; }
            }
            ty.push_back(t);
            i += n;
        }
        return ty;
    };
    auto value = [&](const std::string &t) -> std::string {
        if (t.back() == '?') return "cast(null, " + t + ")";
        if (t == "int") return "7";
        if (t == "float") return "1.5";
        if (t == "str") return "\"s\"";
        if (t == "bool") return "true";
        if (t == "any") return "cast(3, any)";
        return "new " + t + "{1}";
    };
    std::vector<std::string> a = split(), b;
    for (int i = 0; i < 12; ++i) if ((b = split()) != a) break;
    bool differ = a != b, two = g.chance(1, 3);   // a second definition of the same function type is fine
    std::string taken;
    if (g.chance(1, 6)) {  // or the name is that of something else
        taken = "delegate";
        for (auto &t : a) taken += "_" + (t.back() == '?' ? "nullable_" + t.substr(0, t.size() - 1) : t);
        if (g.coin()) text += "struct " + taken + " { v: int }\n";
        else text += "use array(\"int\") as " + taken + "\n";
    }
    auto func = [&](const char *n, const std::vector<std::string> &ty) {
        std::string s = std::string("func ") + n + "(";
        for (size_t i = 0; i + 1 < ty.size(); ++i) s += strf("%sp%zu: ", i ? ", " : "", i) + ty[i];
        return s + "): " + ty.back() + " { return " + value(ty.back()) + " }\n";
    };
    text += func("f1", a) + func("f2", a) + func("g1", b);
    c.labelIf(differ, "two readings");
    c.labelIf(!taken.empty(), "name taken");
    c.nontrivial = differ || !taken.empty();
    Host h;
    std::string unit = text + "use delegate(\"f1\") as d1\n" + (two ? "use delegate(\"f2\") as d2\n" : "");
    c.say(unit);
    Tiny_CompileResult r = h.compile(unit);
    if (!taken.empty()) {
        // whatever the type is called, it is not the one which was there before
        if (r.type != TINY_COMPILE_SUCCESS) return;
        std::string bad = "x: " + taken + " = d1()\n";
        c.say(bad);
        PBT_CHECK(h.compile(bad).type == TINY_COMPILE_ERROR, "a delegate is taken for a value of another type");
        return;
    }
    PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "a delegate is rejected: %s", r.error.msg);
    std::string second = "use delegate(\"g1\") as d3\n";
    c.say(second);
    r = h.compile(second);
    if (!differ) { PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "a delegate of the same type is rejected: %s", r.error.msg); }
    std::string same = two ? "x := d1()\nx = d2()\n" : "x := d1()\nx = d1()\n";
    c.say(same);
    h.mustCompile(same);
    if (r.type != TINY_COMPILE_SUCCESS) return;
    std::string mix = "x = d3()\n";
    c.say(mix);
    Tiny_CompileResult q = h.compile(mix);
    PBT_CHECK((q.type == TINY_COMPILE_SUCCESS) == !differ, differ ? "delegates of functions with different parameters are of one type" : "delegates of functions with the same parameters are not of one type: %s", q.error.msg);
}

// ---------------------------------------------------------------- macros of the host
// A macro of the host is called once for each 'use', in order, after the text was read and before it is checked: it gets exactly
// the arguments written, finds what the text declares and what it binds can be used by the text.
struct MacroLog {
    std::vector<std::string> calls;
    std::map<std::string, std::string> code;      // what `gen` compiles, by its first argument
    std::string failWith;
};
MacroLog *gLog;
Tiny_Value fConst41(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(41); }
std::string macroCall(const char *m, char *const *args, int n, const char *as) {
    std::string r = std::string(m) + "(";
    for (int i = 0; i < n; ++i) r += (i ? ", " : "") + quote(args[i]);
    return r + ")" + (as ? std::string(" as ") + as : "");
}
Tiny_MacroResult mRec(Tiny_State *, char *const *args, int n, const char *as) {
    gLog->calls.push_back(macroCall("rec", args, n, as));
    return Tiny_MacroResult{TINY_MACRO_SUCCESS};
}
Tiny_MacroResult mFail(Tiny_State *, char *const *args, int n, const char *as) {
    gLog->calls.push_back(macroCall("fail", args, n, as));
    Tiny_MacroResult r{TINY_MACRO_ERROR};
    snprintf(r.error.msg, sizeof r.error.msg, "%s", gLog->failWith.c_str());
    return r;
}
Tiny_MacroResult mGen(Tiny_State *s, char *const *args, int n, const char *as) {
    gLog->calls.push_back(macroCall("gen", args, n, as));
    Tiny_MacroResult r{TINY_MACRO_SUCCESS};
    Tiny_CompileResult c = Tiny_CompileString(s, "generated", gLog->code[n ? args[0] : ""].c_str());
    if (c.type != TINY_COMPILE_SUCCESS) { r.type = TINY_MACRO_ERROR; snprintf(r.error.msg, sizeof r.error.msg, "generated code: %.200s", c.error.msg); }
    return r;
}
// tells which of the names are types and functions
Tiny_MacroResult mSee(Tiny_State *s, char *const *args, int n, const char *as) {
    std::string l = "see";
    for (int i = 0; i < n; ++i) {
        const Tiny_Symbol *t = Tiny_FindTypeSymbol(s, args[i]), *f = Tiny_FindFuncSymbol(s, args[i]);
        l += std::string(" ") + args[i];
        if (t && t->type == TINY_SYM_TAG_STRUCT) {
            l += ":struct";
            for (size_t k = 0; k < Tiny_SymbolArrayCount(t->sstruct.fields); ++k) l += std::string(" ") + t->sstruct.fields[k]->name + "/" + t->sstruct.fields[k]->fieldTag->name;
        } else if (t) l += ":type";
        if (f && f->type == TINY_SYM_FUNCTION) {
            l += ":func";
            for (size_t k = 0; k < Tiny_SymbolArrayCount(f->func.args); ++k) l += std::string(" ") + f->func.args[k]->name + "/" + f->func.args[k]->var.tag->name;
            l += std::string(" ") + f->func.returnTag->name;
        } else if (f) l += ":foreign";
    }
    gLog->calls.push_back(l + (as ? std::string(" as ") + as : ""));
    return Tiny_MacroResult{TINY_MACRO_SUCCESS};
}
// binds a function, a constant or a type under the name given
Tiny_MacroResult mBind(Tiny_State *s, char *const *args, int n, const char *as) {
    gLog->calls.push_back(macroCall("bind", args, n, as));
    std::string what = n ? args[0] : "", name = as ? as : "";
    if (what == "func") Tiny_BindFunction(s, (name + "(): int").c_str(), fConst41);
    else if (what == "const") Tiny_BindConstInt(s, name.c_str(), 42);
    else if (what == "type") { Tiny_RegisterType(s, name.c_str()); Tiny_BindFunction(s, (name + "_is(" + name + "): int").c_str(), fConst41); }
    return Tiny_MacroResult{TINY_MACRO_SUCCESS};
}
void hostMacros(Gen &g, Case &c) {
    MacroLog log;
    gLog = &log;
    Host h;
    Tiny_BindMacro(h.state, "rec", mRec);
    Tiny_BindMacro(h.state, "fail", mFail);
    Tiny_BindMacro(h.state, "gen", mGen);
    Tiny_BindMacro(h.state, "see", mSee);
    Tiny_BindMacro(h.state, "bind", mBind);
    // a declaration or a 'use', the calls of macros it leads to and what the code generated for it emits
    struct Part { std::string text; std::vector<std::string> calls, emits; };
    int serial = 0, deepest = 0, most = 0;
    bool failed = false, failedInside = false;
    std::vector<std::string> consts;  // for the units which follow: in its own text a constant is not known yet
    auto word = [&] {
        static const char *v[] = {"", "a", "int", "x y", "use rec(\"z\")", "%s%n%d", "\xff\x01", "as", "fail", "0", "Zs", "\\", "\"", "\n", "line\nline", "null", "(", ")", "//"};
        return g.chance(1, 10) ? std::string((size_t)g.range(1, 600), (char)g.range('a', 'z')) : std::string(v[g.below(19)]);
    };
    auto lit = [&](const std::string &w) {
        std::string r = "\"";
        for (char ch : w) { if (ch == '"' || ch == '\\') r += '\\'; if (ch == '\n') r += "\\n"; else r += ch; }
        return r + "\"";
    };
    std::function<Part(int)> unit = [&](int depth) {
        deepest = std::max(deepest, depth);
        std::vector<Part> parts;
        std::vector<std::string> names, told, tailEmits;
        std::string tail;
        for (int n = (int)g.below(3); n > 0; --n) {
            std::string z = strf("Zd%d", serial++);
            names.push_back(z);
            if (g.coin()) { parts.push_back({"struct " + z + " { a: int b: " + z + "? c: str }\n"}); told.push_back(z + ":struct a/int b/" + z + "? c/str"); }
            else { parts.push_back({"func " + z + "(p: float, q: any): bool { return true }\n"}); told.push_back(z + ":func p/float q/any bool"); }
        }
        static const char *pre[][2] = {{"any", "any:type"}, {"emit", "emit:foreign"}, {"nope", "nope"}, {"Nat", "Nat:type"}, {"bool", "bool:type"}};
        for (int n = (int)g.range(1, 5); n > 0 && !failed; --n) {
            int id = serial++;
            std::string as = strf("zn%d", id), a;
            auto add = [&](const std::string &x) { a += (a.empty() ? "" : g.chance(1, 8) ? " " : g.coin() ? ", " : ",\n  ") + lit(x); };
            int what = g.weighted({16, 12, 12, 12, 1});
            if (what == 1 && depth >= 12) what = 0;
            if (what == 0) {
                int k = g.chance(1, 25) ? (int)g.range(100, 131) : (int)g.below(6);
                most = std::max(most, k);
                std::string l = "rec(";
                for (int i = 0; i < k; ++i) { std::string w = word(); add(w); l += (i ? ", " : "") + quote(w); }
                bool has = g.coin();
                Part p{"use rec(" + a + ")" + (has ? " as " + as : "") + "\n"};
                if (k > 128) { failed = true; failedInside |= depth > 0; log.failWith.clear(); }
                else p.calls.push_back(l + ")" + (has ? " as " + as : ""));
                parts.push_back(p);
            } else if (what == 1) {
                std::string key = strf("k%d", id);
                Part in = unit(depth + 1);
                log.code[key] = in.text + "func " + as + "(): int { return " + std::to_string(id) + " }\n";
                Part p{"use gen(\"" + key + "\") as " + as + "\n", {"gen(" + quote(key) + ") as " + as}, in.emits};
                p.calls.insert(p.calls.end(), in.calls.begin(), in.calls.end());
                parts.push_back(p);
                tail += "emit(" + as + "())\n";
                tailEmits.push_back(strf("emit %d", id));
            } else if (what == 2) {
                // what the text declares, perhaps only further down
                std::string l = "see";
                for (int k = (int)g.below(4); k > 0; --k) {
                    if (!names.empty() && g.coin()) { size_t q = g.below(names.size()); add(names[q]); l += " " + told[q]; }
                    else { size_t q = g.below(5); add(pre[q][0]); l += std::string(" ") + pre[q][1]; }
                }
                parts.push_back({"use see(" + a + ")\n", {l}});
            } else if (what == 3) {
                static const char *k[] = {"func", "const", "type"};
                int q = (int)g.below(3);
                parts.push_back({std::string("use bind(\"") + k[q] + "\") as " + as + "\n", {"bind(" + quote(k[q]) + ") as " + as}});
                if (q == 0) { tail += "emit(" + as + "())\n"; tailEmits.push_back("emit 41"); }
                if (q == 1) consts.push_back(as);
                if (q == 2) parts.push_back({"func zt" + std::to_string(id) + "(v: " + as + "): int { return " + as + "_is(v) }\n"});
            } else {
                log.failWith = "asked to fail " + std::to_string(id) + (g.coin() ? " %s%n%d" : "");
                parts.push_back({"use fail(\"x\")\n", {"fail(" + quote("x") + ")"}});
                failed = true;
                failedInside |= depth > 0;
            }
        }
        if (!failed && g.coin()) for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[g.below(i)]);
        Part r;
        for (auto &p : parts) {
            r.text += p.text;
            r.calls.insert(r.calls.end(), p.calls.begin(), p.calls.end());
            r.emits.insert(r.emits.end(), p.emits.begin(), p.emits.end());
        }
        r.text += tail;
        r.emits.insert(r.emits.end(), tailEmits.begin(), tailEmits.end());
        return r;
    };
    std::vector<std::string> want;
    for (int u = (int)g.range(1, 4); u > 0 && !failed; --u) {
        std::vector<std::string> known = consts;
        Part p = unit(0);
        for (auto &k : known) if (g.coin()) { p.text += "emit(" + k + " + 1)\n"; p.emits.push_back("emit 43"); }
        c.say("// unit\n" + p.text);
        for (auto &x : log.code) c.say("// " + x.first + ":\n" + x.second);
        log.calls.clear();
        Tiny_CompileResult r = h.compile(p.text);
        if (failed) {
            PBT_CHECK(r.type == TINY_COMPILE_ERROR, "a macro fails or has too many arguments and the text compiles");
            PBT_CHECK(failedInside || log.failWith.empty() || strstr(r.error.msg, log.failWith.c_str()), "the message of the macro is lost: %s", r.error.msg);
        } else {
            PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "a text with macros is rejected: %s", r.error.msg);
            want.insert(want.end(), p.emits.begin(), p.emits.end());
        }
        log.code.clear();
        compareTrace(p.calls, log.calls, "macro call");
        h.stateCtx.check("state context");
    }
    h.mustCompile("emit(\"end\")\n");
    want.push_back("emit \"end\"");
    Thread t(h);
    t.start();
    t.run();
    compareTrace(want, t.trace);
    c.labelIf(deepest > 0, "generated code");
    c.labelIf(deepest > 3, "nested more than three deep");
    c.labelIf(most > 120, "more than 120 arguments");
    c.labelIf(failed, "fails");
    c.nontrivial = deepest > 0 || most > 2 || failed;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C24";
    p.title = "Macros generate exactly the typed code their arguments describe";
    p.assumptions = {"serialised values have no cycles; strings are byte strings", "reusing a name for something else (as-names, function names) may succeed without effect or fail"};
    p.families.push_back({"json", "every case", json, 6000, 800000});
    p.families.push_back({"delegate", "every case", delegates, 5000, 600000});
    p.families.push_back({"host", "generated code, several arguments or a failure", hostMacros, 3000, 400000});
    p.families.push_back({"clash", "the same words are read in two ways, or the name is taken", clash, 3000, 400000});
    p.families.push_back({"array", "at least five operations, and at least one wrongly typed use rejected", arrays, 6000, 800000});
    p.families.push_back({"misuse", "at least one misuse failed", misuse, 4000, 500000});
    return run(argc, argv, p);
}
