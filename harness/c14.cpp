// Foreign functions and bound constants see and give exactly the values meant.
#include <algorithm>
#include <utility>
#include "vals.h"
using namespace vals;

namespace {
// ---- types of signatures
struct Ty {
    std::string base;        // int float bool str any Nat Op S li ; void for results
    bool opt = false;
    std::string name() const { return base + (opt ? "?" : ""); }
    bool operator==(const Ty &o) const { return base == o.base && opt == o.opt; }
};
bool fits(const Ty &src, const Ty &dst) {  // a value of type src may be given where dst is wanted
    if (src.base == "void") return false;
    if (dst.base == "any") return true;
    if (src.base == "any") return false;
    if (dst.opt) return src.base == dst.base;
    return src == dst;
}
const char *kBases[] = {"int", "str", "float", "bool", "any", "Nat", "Op", "S", "li"};
Ty someType(Gen &g, bool opts = true) {
    Ty t{kBases[g.below(9)]};
    if (opts && t.base != "any" && g.chance(1, 4)) t.opt = true;
    return t;
}

enum { Fresh, Echo };
struct Sig {
    std::string name;
    bool untyped = false, varargs = false;
    std::vector<Ty> args;
    Ty ret{"any"};
    int mode = Fresh, echo = 0;
    bool takes(const std::vector<Ty> &a) const {
        if (untyped) return true;
        if (a.size() < args.size() || (!varargs && a.size() != args.size())) return false;
        for (size_t i = 0; i < args.size(); ++i) if (!fits(a[i], args[i])) return false;
        return true;
    }
    std::string text(Gen &g, bool plain = false) const {
        auto ws = [&] { static const char *w[] = {"", " ", "", "  ", "\t", "\n"}; return std::string(plain ? "" : w[g.below(6)]); };
        std::string s = ws() + name + ws();
        if (untyped) return s;
        s += "(" + ws();
        size_t n = 0;
        for (auto &a : args) s += (n++ ? "," + ws() : "") + a.base + (a.opt ? ws() + "?" : "") + ws();
        if (varargs) s += (n ? "," : "") + ws() + "..." + ws();
        s += ")" + ws();
        if (ret.base != "any" || plain || g.coin()) s += ":" + ws() + ret.name() + ws();
        return s;
    }
};

// ---- values: the canonical text of a value says what it is
std::string canon(Thread &t, Tiny_Value v) {
    switch (v.type) {
        case TINY_VAL_NULL: return "null";
        case TINY_VAL_BOOL: return v.boolean ? "true" : "false";
        case TINY_VAL_INT: return strf("i%lld", (long long)v.i);
        case TINY_VAL_FLOAT: return "f" + fmtFloat(v.f);
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return quote(std::string(Tiny_ToString(v), Tiny_StringLen(v)));
        case TINY_VAL_STRUCT: return "S{" + canon(t, Tiny_GetField(v, 0)) + "}";
        case TINY_VAL_LIGHT_NATIVE: return strf("light%ld", (long)(intptr_t)Tiny_ToAddr(v));
        case TINY_VAL_NATIVE: {
            const Tiny_NativeProp *p = Tiny_GetProp(v);
            std::string n = p && p->name ? p->name : "?";
            if (n == "nat") return strf("nat%lld", (long long)((NatRec *)Tiny_ToAddr(v))->id);
            if (n == "op") return strf("op%ld", (long)(intptr_t)Tiny_ToAddr(v));
            if (n == "array") { std::string s = "["; Array *a = (Array *)Tiny_ToAddr(v); for (int i = 0; i < ArrayLen(a); ++i) s += canon(t, *ArrayGet(a, i)) + ","; return s + "]"; }
            return n;
        }
        default: return strf("kind %d", (int)v.type);
    }
}
const Tiny_NativeProp kOp = {"op", nullptr, nullptr};
const double kFloats[] = {0, -0.0, 1.5, 0.1, 1e308, 5e-324, INFINITY, -INFINITY, NAN, -1e-7, 4503599627370497.5};

// What call number n of a function returning `base` gives.
struct Give { std::string canon; std::function<Tiny_Value(Thread &)> make; };
Give give(const Ty &ret, uint64_t n) {
    uint64_t h = mix(n * 7 + 3);
    std::string b = ret.base;
    if (b == "void") return {"null", [](Thread &) { return Tiny_Null; }};
    if (ret.opt && h % 3 == 0) return {"null", [](Thread &) { return Tiny_Null; }};
    h = mix(h);
    if (b == "any") { static const char *k[] = {"int", "str", "float", "bool", "Nat", "Op", "null", "light", "li"}; b = k[h % 9]; h = mix(h); }
    if (b == "null") return {"null", [](Thread &) { return Tiny_Null; }};
    if (b == "int") {
        static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN, 1LL << 32, -(1LL << 31), 255, 256, 65536};
        int64_t i = h % 2 ? (int64_t)mix(h) : e[h / 2 % 10];
        return {strf("i%lld", (long long)i), [=](Thread &) { return Tiny_NewInt(i); }};
    }
    if (b == "float") { double d = kFloats[h % 11]; return {"f" + fmtFloat(d), [=](Thread &) { return Tiny_NewFloat(d); }}; }
    if (b == "bool") { bool v = h % 2; return {v ? "true" : "false", [=](Thread &) { return Tiny_NewBool(v); }}; }
    if (b == "str") {
        std::string s = "r" + std::to_string(n);
        if (h % 5 == 0) s += std::string("\0x", 2);
        if (h % 7 == 0) s += std::string(300, 'l');
        return {quote(s), [=](Thread &t) {
            if (h % 3 == 0 && s.find('\0') == std::string::npos) return Tiny_NewStringCopyNullTerminated(t.t.get(), s.c_str());
            if (h % 3 == 1) { char *p = (char *)Tiny_AllocUsingContext(t.t->ctx, nullptr, s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return h % 2 && s.find('\0') == std::string::npos ? Tiny_NewStringNullTerminated(t.t.get(), p) : Tiny_NewString(t.t.get(), p, s.size()); }
            return Tiny_NewStringCopy(t.t.get(), s.data(), s.size());
        }};
    }
    if (b == "Nat") {
        int64_t id = (int64_t)(n % 1000);
        return {strf("nat%lld", (long long)id), [=](Thread &t) {
            static const Tiny_NativeProp p = {"nat", [](void *) {}, [](Tiny_Context *, void *q) { NatRec *r = (NatRec *)q; ++r->freed; r->thread->natFreed++; }};
            t.nats.emplace_back(new NatRec{id, &t});
            return Tiny_NewNative(t.t.get(), t.nats.back().get(), &p);
        }};
    }
    if (b == "Op") { long a = (long)(h % 100000); return {strf("op%ld", a), [=](Thread &t) { return Tiny_NewNative(t.t.get(), (void *)(intptr_t)a, &kOp); }}; }
    if (b == "light") { long a = (long)(h % 100000) * 2; return {strf("light%ld", a), [=](Thread &) { return Tiny_NewLightNative((void *)(intptr_t)a); }}; }
    const char *gl = b == "S" ? "gS" : "gA";
    return {b == "S" ? "S{i77}" : "[i7,i8,]", [=](Thread &t) { return Tiny_GetGlobal(t.t.get(), Tiny_GetGlobalIndex(t.h.state, gl)); }};
}

// ---- the functions
const int NF = 24;
struct World {
    std::vector<Sig> sigs;
    std::vector<std::string> log;    // what the functions saw
    uint64_t calls = 0;
    // what they must see
    std::vector<std::string> want;
    uint64_t mcalls = 0;
};
World *W = nullptr;
template <int I> Tiny_Value foreign(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    Thread &t = Thread::of(st);
    const Sig &s = W->sigs[I];
    std::string e = s.name + "(";
    for (int i = 0; i < n; ++i) e += (i ? ", " : "") + canon(t, a[i]);
    W->log.push_back(e + ")");
    uint64_t k = W->calls++;
    if (W->log.size() > 20000) pbt::fail("the program does not stop");
    if (s.mode == Echo && s.echo < n) return a[s.echo];
    Tiny_Value v = give(s.ret, k).make(t);
    if (k % 5 == 0) st->maxNumObjects = 0;  // collect right after the call
    return v;
}
template <size_t... I> const Tiny_ForeignFunction *table_(std::index_sequence<I...>) { static const Tiny_ForeignFunction t[] = {foreign<I>...}; return t; }
const Tiny_ForeignFunction *fns() { return table_(std::make_index_sequence<NF>()); }

struct Node {
    std::string text;
    std::function<std::string()> ev;  // the value, and the calls it makes
    Ty type;
};
struct Maker {
    Gen &g;
    World &w;
    StrTable strs;
    struct Named { std::string name; Ty type; std::string canon; };
    std::vector<Named> consts;
    std::vector<std::pair<std::string, Ty>> vars;
    std::map<std::string, std::string> env;
    int nodes = 0;
    Maker(Gen &g, World &w) : g(g), w(w) {}

    Node leaf(const Ty &t) {
        std::string b = t.base;
        std::vector<Node> alt;
        for (auto &c : consts) if (fits(c.type, t) && (t.base != "any" || g.coin())) { std::string v = c.canon; alt.push_back({c.name, [v] { return v; }, c.type}); }
        for (auto &v : vars) if (fits(v.second, t)) { std::string n = v.first; alt.push_back({n, [this, n] { return env[n]; }, v.second}); }
        if (!alt.empty() && g.chance(1, 3)) return g.pick(alt);
        if (t.opt && g.chance(1, 4)) return {"cast(null, " + t.name() + ")", [] { return "null"; }, t};
        if (b == "any") {
            if (g.chance(1, 6)) return {"null", [] { return "null"; }, t};
            static const char *k[] = {"int", "str", "float", "bool", "Nat", "S", "li"};
            b = k[g.below(7)];
        }
        auto is = [&](const std::string &text, const std::string &v) { return Node{text, [v] { return v; }, Ty{b}}; };
        if (b == "int") { int64_t i = someInt(g); return is(intText(i), strf("i%lld", (long long)i)); }
        if (b == "float") { double d = someFloat(g); return is(fltText(d), "f" + fmtFloat(d)); }
        if (b == "bool") { bool v = g.coin(); return is(v ? "true" : "false", v ? "true" : "false"); }
        if (b == "str") { std::string s = someStr(g, true); return is(strEx(g, strs, s, 1), quote(s)); }
        if (b == "Nat") { int64_t i = g.range(0, 999); return is(strf("nat(%lld)", (long long)i), strf("nat%lld", (long long)i)); }
        if (b == "Op") { return is("gO", "op4711"); }
        if (b == "S") { int64_t i = g.range(0, 99); return is(strf("new S{%lld}", (long long)i), strf("S{i%lld}", (long long)i)); }
        int64_t i = g.range(0, 99);
        return is(strf("li(%lld)", (long long)i), strf("[i%lld,]", (long long)i));
    }
    Node call(size_t k, int depth, int pending) {
        const Sig &s = w.sigs[k];
        std::vector<Ty> want = s.args;
        int room = 80 - pending - (int)want.size();
        if (s.untyped || s.varargs) for (int n = (int)g.below(room > 6 ? (g.chance(1, 15) && room > 30 ? 30 : 6) : 1); n > 0; --n) want.push_back(someType(g));
        std::vector<Node> a;
        for (size_t i = 0; i < want.size(); ++i) a.push_back(expr(want[i], depth - 1, pending + (int)i + 1));
        std::string t;
        size_t from = 0;
        if (!a.empty() && g.chance(1, 5) && a[0].text != "null" && a[0].text[0] != '(' && a[0].text.compare(0, 3, "new")) { t = a[0].text + "->"; from = 1; }
        t += s.name + "(";
        for (size_t i = from; i < a.size(); ++i) t += (i > from ? ", " : "") + a[i].text;
        t += ")";
        return {t, [this, k, a] {
            const Sig &s = w.sigs[k];
            std::vector<std::string> v;
            for (auto &x : a) v.push_back(x.ev());
            std::string e = s.name + "(";
            for (size_t i = 0; i < v.size(); ++i) e += (i ? ", " : "") + v[i];
            w.want.push_back(e + ")");
            uint64_t n = w.mcalls++;
            if (s.mode == Echo && s.echo < (int)v.size()) return v[s.echo];
            return give(s.ret, n).canon;
        }, s.ret};
    }
    Node expr(const Ty &t, int depth, int pending) {
        ++nodes;
        if (depth > 0 && nodes < 60 && pending < 70) {
            std::vector<size_t> f;
            for (size_t i = 0; i < w.sigs.size(); ++i) if (fits(w.sigs[i].ret, t) && (int)w.sigs[i].args.size() + pending < 75) f.push_back(i);
            if (!f.empty() && g.chance(2, 3)) return call(g.pick(f), depth, pending);
        }
        return leaf(t);
    }
};
std::vector<Sig> signatures(Gen &g, int n) {
    std::vector<Sig> r;
    for (int i = 0; i < n; ++i) {
        Sig s;
        s.name = strf("zf%d%s", i, g.chance(1, 4) ? "_with_quite_a_long_name" : "");
        if (g.chance(1, 8)) s.untyped = true;
        else {
            int k = (int)(g.chance(1, 10) ? g.range(8, 40) : g.below(5));
            for (int q = 0; q < k; ++q) s.args.push_back(someType(g));
            s.varargs = g.chance(1, 4);
            s.ret = g.chance(1, 6) ? Ty{"void"} : someType(g);
            std::vector<int> e;
            for (size_t q = 0; q < s.args.size(); ++q) if (fits(s.args[q], s.ret)) e.push_back((int)q);
            if (!e.empty() && g.coin()) { s.mode = Echo; s.echo = g.pick(e); }
        }
        r.push_back(s);
    }
    return r;
}
const char *kPrologue = "struct S { n: int }\nuse array(\"int\") as li\ngS := new S{77}\ngA := li(7, 8)\ngO := op()\n";
Tiny_Value fOp(Tiny_StateThread *st, const Tiny_Value *, int) { Thread::of(st); return Tiny_NewNative(st, (void *)4711, &kOp); }
struct Setup {
    World w;
    StrTable *strs;
    Setup() { W = &w; }
    ~Setup() { W = nullptr; table() = nullptr; }
};
// One constant of each kind over its whole range.
struct Const { std::string name; Ty type; std::string canon; int64_t i = 0; double f = 0; std::string s; bool b = false; };
Const someConst(Gen &g, const std::string &name) {
    Const c;
    c.name = name;
    switch (g.below(4)) {
        case 0: c.type.base = "int"; c.i = g.coin() ? (int64_t)g.bits64() : someInt(g); c.canon = strf("i%lld", (long long)c.i); break;
        case 1: {
            c.type.base = "float";
            switch (g.below(4)) {
                case 0: c.f = kFloats[g.below(11)]; break;
                case 1: c.f = (double)g.range(-100, 100) / 8; break;
                case 2: c.f = (double)(int64_t)g.bits64(); break;
                default: { uint64_t b = g.bits64(); memcpy(&c.f, &b, 8); if (c.f != c.f) c.f = NAN; }
            }
            c.canon = "f" + fmtFloat(c.f);
            break;
        }
        case 2: {
            c.type.base = "str";
            c.s = someStr(g);
            if (g.chance(1, 10)) c.s = std::string(g.range(200, 6000), 'q') + std::to_string(g.below(100));
            c.canon = quote(c.s);
            break;
        }
        default: c.type.base = "bool"; c.b = g.coin(); c.canon = c.b ? "true" : "false";
    }
    return c;
}
void bindConst(Tiny_State *s, const Const &c) {
    // the texts given do not outlive the call
    std::string n = c.name, v = c.s;
    if (c.type.base == "int") Tiny_BindConstInt(s, n.c_str(), c.i);
    else if (c.type.base == "float") Tiny_BindConstFloat(s, n.c_str(), c.f);
    else if (c.type.base == "bool") Tiny_BindConstBool(s, n.c_str(), c.b);
    else Tiny_BindConstString(s, n.c_str(), v.c_str());
    memset(&n[0], '#', n.size());
    memset(&v[0], '#', v.size());
}
void bindAll(Gen &g, Host &h, World &w, size_t from, size_t to) {
    for (size_t i = from; i < to; ++i) {
        std::string t = w.sigs[i].text(g);
        Tiny_BindFunction(h.state, t.c_str(), fns()[i]);
        memset(&t[0], '#', t.size());
    }
}
void prepare(Host &h) {
    bindStrings(h.state);
    Tiny_RegisterType(h.state, "Op");
    Tiny_BindFunction(h.state, "op(): Op", fOp);
}
std::string sigText(Gen &g, World &w) { std::string s; for (auto &x : w.sigs) s += "// " + x.text(g, true) + (x.mode == Echo ? strf(" returns argument %d", x.echo) : "") + "\n"; return s; }

void calls(Gen &g, Case &c) {
    Setup su;
    World &w = su.w;
    w.sigs = signatures(g, (int)g.range(2, 10));
    // the last one takes anything and is how values are observed
    Sig out;
    out.name = "zout";
    out.untyped = true;
    w.sigs.push_back(out);
    size_t zout = w.sigs.size() - 1;
    Maker m(g, w);
    table() = &m.strs;
    Host h;
    if (g.coin()) { h.mustCompile("zfirst := 1\n", "first"); }
    prepare(h);
    bool apart = g.chance(1, 3);  // the functions are bound once code was compiled and types were made
    if (apart) { h.mustCompile(kPrologue, "prologue"); c.label("bound behind a program"); }
    size_t early = g.below(w.sigs.size() + 1);
    bindAll(g, h, w, 0, early);
    std::vector<Const> consts;
    for (int i = (int)g.below(6); i > 0; --i) { consts.push_back(someConst(g, strf("ZC%d", i))); bindConst(h.state, consts.back()); m.consts.push_back({consts.back().name, consts.back().type, consts.back().canon}); }
    bindAll(g, h, w, early, w.sigs.size());
    // statements
    std::string top = apart ? "" : kPrologue, funcs;
    std::vector<std::function<void()>> run;
    int n = (int)g.range(1, 7);
    for (int i = 0; i < n; ++i) {
        m.nodes = 0;
        switch (g.below(5)) {
            case 0: {  // in a variable of the type
                Ty t = someType(g);
                Node e = m.expr(t, 3, 0);
                std::string v = strf("zv%d", i);
                top += v + ": " + t.name() + " = " + e.text + "\n";
                run.push_back([&m, v, e] { m.env[v] = e.ev(); });
                m.vars.push_back({v, t});
                break;
            }
            case 1: {  // through a function of the script, in a loop
                Ty t = someType(g);
                Node e = m.expr(t, 2, 8);
                int k = (int)g.range(1, 4);
                funcs += strf("func zs%d(p: int): ", i) + t.name() + " { return " + e.text + " }\n";
                top += strf("for zi%d := 0; zi%d < %d; zi%d += 1 { zout(zs%d(zi%d), zi%d) }\n", i, i, k, i, i, i, i);
                run.push_back([&w, e, k] { for (int q = 0; q < k; ++q) { std::string v = e.ev(); w.want.push_back(strf("zout(%s, i%d)", v.c_str(), q)); ++w.mcalls; } });
                break;
            }
            case 2: {  // its result not used
                Node e = m.call(g.below(w.sigs.size()), 3, 0);
                if (e.text.find("->") != std::string::npos && !isalpha((unsigned char)e.text[0])) e = m.call(zout, 2, 0);
                top += e.text + "\n";
                run.push_back([e] { e.ev(); });
                break;
            }
            default: {
                Node e = m.call(zout, 3, 0);
                top += e.text + "\n";
                run.push_back([e] { e.ev(); });
            }
        }
    }
    c.say(sigText(g, w));
    for (auto &k : consts) c.say("// " + k.name + " is " + k.canon.substr(0, 100) + "\n");
    c.say(top + funcs);
    h.mustCompile(top + funcs);
    int rounds = g.chance(1, 4) ? 2 : 1;
    for (int r = 0; r < rounds; ++r) {
        w.log.clear(); w.want.clear();
        w.calls = w.mcalls = 0;
        m.env.clear();
        Thread t(h);
        t.start();
        if (g.coin()) t.run();
        else while (t.step()) if (g.chance(1, 10)) t.t->maxNumObjects = 0;
        for (auto &f : run) f();
        compareTrace(w.want, w.log, "calls of foreign functions:");
        PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    }
    c.nontrivial = w.calls >= 3;
    size_t most = 0;
    for (auto &s : w.sigs) most = std::max(most, s.args.size());
    c.label(strf("up to %s arguments", most > 8 ? "many" : std::to_string(most).c_str()));
}

// Calls which do and do not match the signature.
void mismatch(Gen &g, Case &c) {
    Setup su;
    World &w = su.w;
    w.sigs = signatures(g, (int)g.range(1, 4));
    Maker m(g, w);
    table() = &m.strs;
    Host h;
    prepare(h);
    bindAll(g, h, w, 0, w.sigs.size());
    for (int i = 0; i < 2; ++i) { Const k = someConst(g, strf("ZC%d", i)); bindConst(h.state, k); m.consts.push_back({k.name, k.type, k.canon}); }
    h.mustCompile(kPrologue);
    c.say(sigText(g, w));
    int rejected = 0, accepted = 0;
    for (int k = (int)g.range(1, 6); k > 0; --k) {
        const Sig &s = w.sigs[g.below(w.sigs.size())];
        std::vector<Ty> a;
        for (auto &t : s.args) a.push_back(t);
        if (s.untyped || s.varargs) for (int n = (int)g.below(3); n > 0; --n) a.push_back(someType(g));
        switch (g.below(4)) {   // mostly one thing is wrong
            case 0: if (!a.empty()) a[g.below(a.size())] = someType(g); break;
            case 1: if (!a.empty()) a.erase(a.begin() + g.below(a.size())); break;
            case 2: a.insert(a.begin() + g.below(a.size() + 1), someType(g)); break;
            default: break;
        }
        std::string t = s.name + "(";
        std::vector<Ty> real;
        for (size_t i = 0; i < a.size(); ++i) { Node e = m.leaf(a[i]); real.push_back(e.text == "null" ? Ty{"any"} : e.type); t += (i ? ", " : "") + e.text; }
        t += ")";
        bool ok = s.takes(real);
        switch (g.below(3)) {
            case 0: {  // the result is used as some type
                Ty r = g.coin() ? s.ret : someType(g);
                if (r.base == "void") r = Ty{"int"};
                ok = ok && fits(s.ret, r);
                t = strf("zr%d: ", k) + r.name() + " = " + t;
                break;
            }
            case 1: t = strf("func zw%d() { ", k) + t + " }"; break;
            default: break;
        }
        Tiny_CompileResult r = h.compile(t + "\n", "call");
        c.say(t + (ok ? "    // matches\n" : "    // does not match\n"));
        if (ok) PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "a call which matches the signature is rejected: %.400s", r.error.msg);
        else PBT_CHECK(r.type != TINY_COMPILE_SUCCESS, "a call which does not match the signature %s is accepted: %s", s.text(g, true).c_str(), t.c_str());
        (ok ? accepted : rejected)++;
    }
    c.nontrivial = rejected > 0;
    c.labelIf(accepted > 0, "matching");
    c.labelIf(rejected > 0, "not matching");
}

// Constants read in every way.
void constants(Gen &g, Case &c) {
    Setup su;
    World &w = su.w;
    Sig out;
    out.name = "zout";
    out.untyped = true;
    w.sigs.push_back(out);
    Host h;
    StrTable st;
    table() = &st;
    std::vector<Const> ks;
    size_t n = (size_t)g.range(1, g.chance(1, 10) ? 120 : 12);
    std::string text, all;
    bool bound = false;
    for (size_t i = 0; i < n; ++i) {
        Const k = someConst(g, g.coin() ? strf("ZC%zu", i) : strf("zc_%zu_%s", i, g.coin() ? "name" : "N"));
        bindConst(h.state, k);
        ks.push_back(k);
        c.label("constant:" + k.type.base);
        c.say("// " + k.name + " is " + k.canon.substr(0, 200) + "\n");
        if (!bound && g.chance(1, 3)) { prepare(h); bindAll(g, h, w, 0, 1); bound = true; }
        if (g.chance(1, 10)) h.mustCompile(strf("zpiece%zu := \"text %zu\"\nZPC%zu :: \"other text %zu\"\n", i, i, i, i), "piece");
    }
    if (!bound) { prepare(h); bindAll(g, h, w, 0, 1); }
    text = kPrologue;
    std::vector<std::string> want;
    int reads = (int)g.range(1, 12);
    for (int i = 0; i < reads; ++i) {
        Const &k = ks[g.below(ks.size())];
        const std::string &t = k.type.base;
        auto saw = [&](const std::string &v) { want.push_back("zout(" + v + ")"); };
        switch (g.below(9)) {
            case 0: text += strf("zout(%s)\n", k.name.c_str()); saw(k.canon); break;
            case 1: text += strf("zv%d: %s = %s zout(zv%d)\n", i, t.c_str(), k.name.c_str(), i); saw(k.canon); break;
            case 2: text += strf("func zg%d(): %s { return %s } zout(zg%d())\n", i, t.c_str(), k.name.c_str(), i); saw(k.canon); break;
            case 3: text += strf("func zg%d(p: %s): %s { l := p return l } zout(zg%d(%s))\n", i, t.c_str(), t.c_str(), i, k.name.c_str()); saw(k.canon); break;
            case 4: text += strf("struct ZS%d { a: int b: %s c: %s? } zs%d := new ZS%d{1, %s, %s} zout(zs%d.b) zout(zs%d.c)\n", i, t.c_str(), t.c_str(), i, i, k.name.c_str(), k.name.c_str(), i, i); saw(k.canon); saw(k.canon); break;
            case 5: text += strf("zout(if (true) %s else %s)\n", k.name.c_str(), k.name.c_str()); saw(k.canon); break;
            case 6: text += strf("zout(cast(cast(%s, any), %s))\n", k.name.c_str(), t.c_str()); saw(k.canon); break;
            case 7: text += strf("if %s == %s { zout(%s) } else { zout(\"not equal\") }\n", k.name.c_str(), k.name.c_str(), k.name.c_str()); saw(t == "float" && k.f != k.f ? "\"not equal\"" : k.canon); break;
            default:
                if (t == "str") { text += strf("zout(strcat(\"<\", %s))\n", k.name.c_str()); saw(quote("<" + k.s)); }
                else if (t == "bool") { text += strf("zout(!%s)\n", k.name.c_str()); saw(k.b ? "false" : "true"); }
                else if (t == "int") { text += strf("zout(%s & 255)\n", k.name.c_str()); saw(strf("i%lld", (long long)(k.i & 255))); }
                else { text += strf("zout(-%s)\n", k.name.c_str()); saw("f" + fmtFloat(-k.f)); }
        }
    }
    c.say(text);
    h.mustCompile(text);
    Thread t(h);
    t.start();
    t.run();
    compareTrace(want, w.log, "constants:");
    // and with their type
    for (int i = 0; i < 3; ++i) {
        Const &k = ks[g.below(ks.size())];
        Ty ty = someType(g);
        Tiny_CompileResult r = h.compile(strf("zty%d: %s = %s\n", i, ty.name().c_str(), k.name.c_str()), "typed");
        bool ok = fits(k.type, ty);
        PBT_CHECK((r.type == TINY_COMPILE_SUCCESS) == ok, "a constant of type %s is %s as %s: %.300s", k.type.base.c_str(), ok ? "rejected" : "accepted", ty.name().c_str(), ok ? r.error.msg : "");
    }
    c.nontrivial = true;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C14";
    p.title = "Foreign functions and bound constants see and give exactly the values meant";
    p.families.push_back({"calls", "at least three calls of foreign functions", calls, 9000, 1500000});
    p.families.push_back({"mismatch", "at least one call which does not match", mismatch, 9000, 1500000});
    p.families.push_back({"constants", "every case", constants, 6000, 1000000});
    return run(argc, argv, p);
}
