#include <algorithm>
#include "vals.h"
using namespace vals;

namespace {
struct TR { std::string n; bool opt = false; std::string text() const { return n + (opt ? "?" : ""); } };
struct Ty { bool strukt = false; std::vector<std::pair<std::string, TR>> f; const Tiny_Symbol *seen = nullptr; };
struct Fn { bool foreign = false, varargs = false; std::vector<TR> args; std::vector<std::string> params; TR ret; Tiny_ForeignFunction callee = nullptr; int64_t id = -1; int index = -1; const Tiny_Symbol *seen = nullptr; };
struct Co { char k; int64_t i = 0; double f = 0; std::string s; const Tiny_Symbol *seen = nullptr; };
struct Gl { std::string value; int index = -1; };  // value: as the host sees it at the end

template <int N> Tiny_Value cal(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(N); }
const Tiny_ForeignFunction kCal[] = {cal<0>, cal<1>, cal<2>, cal<3>, cal<4>, cal<5>};
Tiny_MacroResult noMacro(Tiny_State *, char *const *, int, const char *) { Tiny_MacroResult r; memset(&r, 0, sizeof r); return r; }
const char *kPrim[] = {"int", "float", "bool", "str", "any", "void"};
const Tiny_SymbolType kPrimT[] = {TINY_SYM_TAG_INT, TINY_SYM_TAG_FLOAT, TINY_SYM_TAG_BOOL, TINY_SYM_TAG_STR, TINY_SYM_TAG_ANY, TINY_SYM_TAG_VOID};

struct M {
    Gen &g;
    Case &c;
    Host h;
    std::map<std::string, Ty> types;
    std::map<std::string, Fn> fns;
    std::map<std::string, Co> cos;
    std::map<std::string, Gl> gls;
    std::map<std::string, const Tiny_Symbol *> nullables, prims;
    std::set<std::string> pending, macros, others;  // others: names of fields, parameters and locals
    std::vector<std::string> pool;
    int serial = 0, changes = 0, failed = 0;
    std::set<std::string> kinds;
    M(Gen &g, Case &c, bool std) : g(g), c(c), h(std) {
        pool = {"a", "ab", "abc", "A", "a_", "x1", "x10", "Point", "point", "Pointer", "int_", "integer", "str2", "anything", "main", "f", "F", "k", "value", "array2", "null_", "arrays"};
        if (g.chance(1, 5)) { pool.push_back(std::string(g.coin() ? 253 : 200, 'q')); pool.push_back(pool.back() + "r"); }
    }
    template <class Mp> std::string fresh(const Mp &m) {
        for (int k = 0; k < 6; ++k) { std::string n = g.pick(pool); if (!m.count(n)) return n; }
        for (;;) {
            std::string n = strf("%s%d", g.pick(pool).substr(0, 100).c_str(), serial++);
            if (!m.count(n)) { pool.push_back(n); return n; }
        }
    }
    std::string freshVar() { for (;;) { std::string n = fresh(gls); if (!cos.count(n)) return n; std::string k = strf("v%d_%d", (int)g.below(3), serial++); if (!cos.count(k) && !gls.count(k)) { pool.push_back(k); return k; } } }
    TR type(const std::vector<std::string> &extra = {}, bool vd = false) {
        TR t;
        size_t n = types.size() + extra.size();
        if (n && g.coin()) {
            size_t k = g.below(n);
            if (k < extra.size()) t.n = extra[k];
            else { auto it = types.begin(); std::advance(it, k - extra.size()); t.n = it->first; }
        } else t.n = kPrim[g.below(vd ? 6 : 5)];
        if (t.n != "void" && t.n != "any" && t.n.size() < 250 && g.chance(1, 4)) t.opt = true;
        return t;
    }
    std::string sp() { static const char *s[] = {"", " ", "\t", "\n ", "  "}; return s[g.chance(1, 3) ? g.below(5) : 0]; }

    // ---- what the host does
    void registerType() {
        std::string n;
        switch (g.below(5)) {
            case 0: if (!types.empty()) { auto it = types.begin(); std::advance(it, g.below(types.size())); n = it->first; break; }
            case 1: if (!pending.empty()) { n = *pending.begin(); break; }
            case 2: if (g.chance(1, 3)) { n = kPrim[g.below(6)]; break; }
            default: n = fresh(types);
        }
        c.say("RegisterType " + n + "\n");
        Tiny_RegisterType(h.state, n.c_str());
        if (!types.count(n) && !std::count(kPrim, kPrim + 6, n)) { types[n] = Ty{}; ++changes; }
        else kinds.insert("registered again");
        pending.erase(n);
    }
    void bindFunction() {
        std::string n = fresh(fns), sig = n;
        Fn f;
        f.foreign = true;
        f.callee = kCal[g.below(6)];
        f.ret.n = "any";
        if (g.chance(1, 6)) { f.varargs = true; if (g.coin()) sig = sp() + sig + sp(); }
        else {
            sig += sp() + "(" + sp();
            std::vector<std::string> extra(pending.begin(), pending.end());
            if (g.chance(1, 6)) { std::string later = fresh(types); if (!std::count(kPrim, kPrim + 6, later)) extra.push_back(later); }
            int na = (int)g.below(g.chance(1, 10) ? 20 : 5);
            for (int i = 0; i < na; ++i) { TR t = type(extra); f.args.push_back(t); if (!types.count(t.n) && !std::count(kPrim, kPrim + 6, t.n)) pending.insert(t.n); sig += (i ? sp() + "," + sp() : "") + t.n + (t.opt ? sp() + "?" : ""); }
            if (g.chance(1, 4)) { f.varargs = true; sig += (na ? sp() + "," + sp() : "") + "..."; }
            sig += sp() + ")" + sp();
            if (!g.chance(1, 4)) { f.ret = type({}, true); sig += ":" + sp() + f.ret.text() + sp(); }
        }
        c.say("BindFunction " + quote(sig) + "\n");
        Tiny_BindFunction(h.state, sig.c_str(), f.callee);
        fns[n] = f;
        kinds.insert("foreign");
        ++changes;
    }
    void bindConst() {
        std::string n = freshVar();
        Co k;
        switch (g.below(4)) {
            case 0: k.k = 'b'; k.i = g.coin(); Tiny_BindConstBool(h.state, n.c_str(), k.i); break;
            case 1: k.k = 'i'; k.i = someInt(g); Tiny_BindConstInt(h.state, n.c_str(), k.i); break;
            case 2: k.k = 'f'; k.f = someFloat(g); Tiny_BindConstFloat(h.state, n.c_str(), k.f); break;
            default: k.k = 's'; k.s = someStr(g); { std::string copy = k.s; Tiny_BindConstString(h.state, n.c_str(), copy.c_str()); std::fill(copy.begin(), copy.end(), 'Z'); } break;
        }
        c.say(strf("BindConst %c ", k.k) + n + "\n");
        cos[n] = k;
        kinds.insert("constant");
        ++changes;
    }
    void bindMacro() {
        std::string n = fresh(macros);
        if (n == "array" || n == "json" || n == "delegate") return;
        c.say("BindMacro " + n + "\n");
        Tiny_BindMacro(h.state, n.c_str(), noMacro);
        macros.insert(n);
    }
    // ---- what a program declares
    void unit(bool good, int maxDecls) {
        auto saved = std::make_tuple(types, fns, cos, gls, others);
        std::vector<std::string> d, newTypes;
        int n = (int)g.range(1, maxDecls);
        std::vector<int> what;
        for (int i = 0; i < n; ++i) what.push_back((int)g.below(6));
        std::set<std::string> need = pending;
        for (auto &p : pending) newTypes.push_back(p);
        for (int k : what) if (k == 0) { std::string t = fresh(types); if (!need.count(t) && !std::count(kPrim, kPrim + 6, t)) { need.insert(t); newTypes.push_back(t); } }
        for (auto &t : newTypes) types[t] = Ty{true};
        for (auto &t : newTypes) {
            Ty &y = types[t];
            int nf = (int)g.range(1, g.chance(1, 8) ? 30 : 5);
            std::string s = "struct " + t + " {";
            std::set<std::string> fn;
            for (int i = 0; i < nf; ++i) {
                std::string f = g.coin() ? g.pick(pool) : strf("fld%d", i);
                if (!fn.insert(f).second) continue;
                others.insert(f);
                TR ft = type();
                y.f.push_back({f, ft});
                s += sp() + " " + f + ": " + ft.text();
            }
            d.push_back(s + " }");
            kinds.insert("struct");
        }
        for (int k : what) switch (k) {
            case 1: {
                std::string f = fresh(fns), s = "func " + f + "(";
                Fn q;
                int na = (int)g.below(g.chance(1, 10) ? 16 : 4);
                std::set<std::string> ps;
                for (int i = 0; i < na; ++i) {
                    std::string p = g.coin() ? g.pick(pool) : strf("p%d", i);
                    if (!ps.insert(p).second) continue;
                    TR t = type();
                    s += (q.args.empty() ? "" : ", ") + p + ": " + t.text();
                    q.args.push_back(t);
                    q.params.push_back(p);
                    others.insert(p);
                }
                s += ")";
                if (g.chance(1, 3)) { q.ret.n = "void"; if (g.coin()) s += ": void"; s += " { "; }
                else if (g.coin()) { q.ret = type(); s += ": " + q.ret.text() + " { "; }
                else { q.ret.n = "int"; q.id = 1000 + serial++; s += ": int { "; }
                for (int i = (int)g.below(3); i > 0; --i) {
                    std::string l = g.coin() ? g.pick(pool) : strf("loc%d", i);
                    if (ps.count(l) || gls.count(l) || cos.count(l)) continue;
                    ps.insert(l);
                    others.insert(l);
                    s += l + " := " + std::to_string(g.below(9)) + " ";
                }
                if (g.chance(1, 8)) { std::string v = strf("inner%d", serial++); Co k; k.k = 'i'; k.i = (int64_t)g.below(100); cos[v] = k; pool.push_back(v); s += v + " :: " + std::to_string(k.i) + " "; }
                if (q.id >= 0) s += strf("return %lld ", (long long)q.id);
                d.push_back(s + "}");
                fns[f] = q;
                kinds.insert("function");
                break;
            }
            case 2: {
                std::string v = freshVar(), e;
                Co k;
                switch (g.below(3)) {
                    case 0: k.k = 'i'; k.i = g.coin() ? (int64_t)g.below(1000) : (int64_t)(g.bits64() >> 1); e = std::to_string(k.i); break;
                    case 1: k.k = 'f'; k.f = (double)g.below(100000) / 16; e = floatText(k.f); break;
                    default: k.k = 's'; do k.s = someStr(g); while (false); e = lit(k.s); break;
                }
                d.push_back((g.chance(1, 4) ? "{ " : "") + v + " :: " + e + (d.size() > 100000 ? "" : ""));
                if (d.back()[0] == '{') d.back() += " }";
                cos[v] = k;
                kinds.insert("constant");
                break;
            }
            case 3: case 4: {
                std::string v = freshVar(), e, dump;
                switch (g.below(4)) {
                    case 0: { int64_t i = someInt(g); e = intText(i); dump = std::to_string(i); break; }
                    case 1: { std::string s = someStr(g); e = lit(s); dump = "s" + s; break; }
                    case 2: e = "true"; dump = "b1"; break;
                    default: e = "cast(null, int?)"; dump = "null"; break;
                }
                std::string s = v + (g.coin() ? " := " : e[0] == 't' ? ": bool = " : e[0] == 'c' ? ": int? = " : e[0] == '"' ? ": str = " : ": int = ") + e;
                if (g.chance(1, 6)) s = "if true { " + s + " }";
                d.push_back(s);
                gls[v] = Gl{dump};
                kinds.insert("global");
                break;
            }
            case 5: {
                if (!macros.count("array") || !g.chance(1, 2)) break;
                std::string l = fresh(types);
                if (std::count(kPrim, kPrim + 6, l) || l.size() > 100) break;
                TR e = type(std::vector<std::string>{});
                if (e.opt || e.n.size() > 100) break;
                bool clash = false;
                for (const char *sfx : {"", "_len", "_clear", "_resize", "_resize_fill", "_push", "_pop", "_shift", "_insert", "_remove", "_get", "_set", "_sort", "_get_index", "_set_index"}) if (fns.count(l + sfx)) clash = true;
                if (clash) break;
                d.push_back("use array(\"" + e.n + "\") as " + l);
                types[l] = Ty{};
                Fn q;
                q.foreign = true;
                q.varargs = true;
                q.ret.n = l;
                fns[l] = q;
                TR self{l};
                Fn push;
                push.foreign = true;
                push.args = {self, e};
                push.ret.n = "void";
                fns[l + "_push"] = push;
                Fn get;
                get.foreign = true;
                get.args = {self, TR{"int"}};
                get.ret = e;
                fns[l + "_get"] = get;
                Fn len;
                len.foreign = true;
                len.args = {self};
                len.ret.n = "int";
                fns[l + "_len"] = len;
                for (const char *sfx : {"_clear", "_resize", "_resize_fill", "_pop", "_shift", "_insert", "_remove", "_set", "_sort", "_get_index", "_set_index"}) unknown.insert(l + sfx);
                kinds.insert("macro");
                break;
            }
            default: break;
        }
        // declarations in any order, a use of a macro behind the array types it names
        std::vector<std::string> order;
        for (auto &s : d) if (s.compare(0, 4, "use ") == 0) order.push_back(s);
        for (auto &s : d) if (s.compare(0, 4, "use ") != 0) order.insert(order.begin() + g.below(order.size() + 1), s);
        std::string text;
        for (auto &s : order) text += s + "\n";
        if (!good) {
            static const char *bad[] = {"nope_()\n", "struct Bad_ { x: Nope_ }\n", "zz_ := 1 + \"a\"\n", "struct Bad_ {\n", "func bad_(x: int): int { return \"s\" }\n", "use nomacro_(\"x\")\n", "@", "zz_: Nope_? = 1\n"};
            text += bad[g.below(8)];
        }
        c.say((good ? "// unit\n" : "// unit which fails\n") + text);
        Tiny_CompileResult r = h.compile(text);
        if (good) {
            PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "a valid program is rejected: %.300s", r.error.msg);
            pending.clear();
            ++changes;
        } else {
            PBT_CHECK(r.type != TINY_COMPILE_SUCCESS, "an invalid program compiles");
            std::set<std::string> o = others;
            for (auto &kv : types) o.insert(kv.first);
            std::tie(types, fns, cos, gls, others) = saved;
            others.insert(o.begin(), o.end());
            others.insert({"Bad_", "Nope_", "zz_", "bad_", "nope_"});
            ++failed;
        }
    }
    std::set<std::string> unknown;  // made by macros; not part of the model

    // ---- what the lookups say
    void tag(const TR &t, const Tiny_Symbol *s, const char *what, const std::string &of) {
        PBT_CHECK(s, "%s of %s has no type", what, of.c_str());
        PBT_CHECK(t.text() == s->name, "%s of %s is of type %s instead of %s", what, of.c_str(), s->name, t.text().c_str());
        if (t.opt) {
            PBT_CHECK(s->type == TINY_SYM_TAG_NULLABLE, "%s of %s is of kind %d instead of nullable", what, of.c_str(), (int)s->type);
            const Tiny_Symbol *&k = nullables[t.n];
            if (!k) k = s;
            PBT_CHECK(k == s, "there are two types %s", t.text().c_str());
            s = s->nullableTag;
        }
        if (pending.count(t.n)) return;
        PBT_CHECK(s == Tiny_FindTypeSymbol(h.state, t.n.c_str()), "%s of %s is of another type called %s", what, of.c_str(), t.n.c_str());
    }
    void look(const std::string &n) {
        const char *z = n.c_str();
        Tiny_State *st = h.state;
        // types
        const Tiny_Symbol *s = Tiny_FindTypeSymbol(st, z);
        int prim = (int)(std::find(kPrim, kPrim + 6, n) - kPrim);
        auto ti = types.find(n);
        if (prim < 6) {
            PBT_CHECK(s && s->type == kPrimT[prim] && n == s->name, "the type %s is not found", z);
            const Tiny_Symbol *&k = prims[n];
            if (!k) k = s;
            PBT_CHECK(k == s, "there are two types %s", z);
        } else if (ti == types.end()) PBT_CHECK(!s, "there is no type %s, but one of kind %d called %s is found", z, (int)s->type, s->name);
        else {
            Ty &y = ti->second;
            PBT_CHECK(s, "the type %s is not found", z);
            PBT_CHECK(n == s->name, "the type %s is called %s", z, s->name);
            if (!y.seen) y.seen = s;
            PBT_CHECK(y.seen == s, "there are two types %s", z);
            PBT_CHECK(s->type == (y.strukt ? TINY_SYM_TAG_STRUCT : TINY_SYM_TAG_FOREIGN), "the type %s is of kind %d", z, (int)s->type);
            if (y.strukt) {
                PBT_CHECK(s->sstruct.defined, "the struct %s is not defined", z);
                PBT_CHECK(Tiny_SymbolArrayCount(s->sstruct.fields) == y.f.size(), "struct %s has %zu fields instead of %zu", z, Tiny_SymbolArrayCount(s->sstruct.fields), y.f.size());
                for (size_t i = 0; i < y.f.size(); ++i) {
                    const Tiny_Symbol *f = s->sstruct.fields[i];
                    PBT_CHECK(f->type == TINY_SYM_FIELD && y.f[i].first == f->name, "field %zu of %s is %s instead of %s", i, z, f->name, y.f[i].first.c_str());
                    tag(y.f[i].second, f->fieldTag, ("field " + y.f[i].first).c_str(), n);
                }
            }
        }
        // functions
        if (!unknown.count(n)) {
            s = Tiny_FindFuncSymbol(st, z);
            int idx = Tiny_GetFunctionIndex(st, z);
            auto fi = fns.find(n);
            if (fi == fns.end()) PBT_CHECK(!s && idx == -1, "there is no function %s, but one called %s is found (index %d)", z, s ? s->name : "-", idx);
            else {
                Fn &f = fi->second;
                PBT_CHECK(s && n == s->name, "the function %s is not found", z);
                if (!f.seen) f.seen = s;
                PBT_CHECK(f.seen == s, "there are two functions %s", z);
                PBT_CHECK(s->type == (f.foreign ? TINY_SYM_FOREIGN_FUNCTION : TINY_SYM_FUNCTION), "the function %s is of kind %d", z, (int)s->type);
                Tiny_Symbol *const *a = f.foreign ? s->foreignFunc.argTags : s->func.args;
                PBT_CHECK(Tiny_SymbolArrayCount(a) == f.args.size(), "function %s has %zu parameters instead of %zu", z, Tiny_SymbolArrayCount(a), f.args.size());
                for (size_t i = 0; i < f.args.size(); ++i) {
                    tag(f.args[i], f.foreign ? a[i] : a[i]->var.tag, strf("parameter %zu", i).c_str(), n);
                    if (!f.foreign) PBT_CHECK(f.params[i] == a[i]->name, "parameter %zu of %s is called %s instead of %s", i, z, a[i]->name, f.params[i].c_str());
                }
                tag(f.ret, f.foreign ? s->foreignFunc.returnTag : s->func.returnTag, "the result", n);
                if (f.foreign) {
                    PBT_CHECK(s->foreignFunc.varargs == f.varargs, "function %s is%s variadic", z, f.varargs ? " not" : "");
                    PBT_CHECK(!f.callee || s->foreignFunc.callee == f.callee, "function %s is bound to another function", z);
                    PBT_CHECK(idx == -1, "the foreign function %s has the index %d", z, idx);
                } else {
                    PBT_CHECK(idx >= 0 && idx == (int)s->func.index, "function %s has the index %d", z, idx);
                    if (f.index < 0) f.index = idx;
                    PBT_CHECK(f.index == idx, "the index of function %s changed", z);
                }
            }
        }
        // constants and globals
        s = Tiny_FindConstSymbol(st, z);
        auto ci = cos.find(n);
        if (ci == cos.end()) PBT_CHECK(!s, "there is no constant %s, but one called %s is found", z, s->name);
        else {
            Co &k = ci->second;
            PBT_CHECK(s && s->type == TINY_SYM_CONST && n == s->name, "the constant %s is not found", z);
            if (!k.seen) k.seen = s;
            PBT_CHECK(k.seen == s, "there are two constants %s", z);
            tag(TR{k.k == 'b' ? "bool" : k.k == 'i' ? "int" : k.k == 'f' ? "float" : "str"}, s->constant.tag, "the constant", n);
            switch (k.k) {
                case 'b': PBT_CHECK(s->constant.bValue == (k.i != 0), "the constant %s is %d", z, s->constant.bValue); break;
                case 'i': PBT_CHECK(s->constant.iValue == k.i, "the constant %s is %lld instead of %lld", z, (long long)s->constant.iValue, (long long)k.i); break;
                case 'f': PBT_CHECK(memcmp(&s->constant.fValue, &k.f, sizeof k.f) == 0, "the constant %s is %.17g instead of %.17g", z, s->constant.fValue, k.f); break;
                default: { const char *v = Tiny_GetStringFromConstIndex(st, s->constant.sIndex); PBT_CHECK(k.s == v, "the constant %s is %s instead of %s", z, quote(v).c_str(), quote(k.s).c_str()); }
            }
        }
        int gi = Tiny_GetGlobalIndex(st, z);
        auto it = gls.find(n);
        if (it == gls.end()) PBT_CHECK(gi == -1, "there is no global %s, but it has the index %d", z, gi);
        else {
            PBT_CHECK(gi >= 0, "the global %s is not found", z);
            if (it->second.index < 0) it->second.index = gi;
            PBT_CHECK(it->second.index == gi, "the index of the global %s changed", z);
        }
    }
    void lookAll() {
        std::set<std::string> ns(pool.begin(), pool.end());
        ns.insert(others.begin(), others.end());
        for (auto &k : types) ns.insert(k.first);
        for (auto &k : fns) ns.insert(k.first);
        for (auto &k : cos) ns.insert(k.first);
        for (auto &k : gls) ns.insert(k.first);
        ns.insert(macros.begin(), macros.end());
        ns.insert(pending.begin(), pending.end());
        for (auto p : kPrim) ns.insert(p);
        for (const char *w : {"", " ", "func", "struct", "null", "true", "?", "int?", "Int", "in", "inte", "...", "(bind signature)"}) ns.insert(w);
        std::vector<std::string> near;
        for (auto &n : ns) if (!n.empty() && g.chance(1, 6)) {
            std::string m = n;
            switch (g.below(5)) {
                case 0: m += "?"; break;
                case 1: m.pop_back(); break;
                case 2: m += "_"; break;
                case 3: m[0] ^= 32; break;
                default: m.insert(0, "_"); break;
            }
            near.push_back(m);
        }
        ns.insert(near.begin(), near.end());
        for (auto &n : ns) if (!builtin(n)) look(n);
        std::map<int, std::string> idx;
        for (auto &k : gls) { auto r = idx.insert({k.second.index, k.first}); PBT_CHECK(r.second, "the globals %s and %s have the same index", k.first.c_str(), r.first->second.c_str()); }
        idx.clear();
        for (auto &k : fns) if (!k.second.foreign) { auto r = idx.insert({k.second.index, k.first}); PBT_CHECK(r.second, "the functions %s and %s have the same index", k.first.c_str(), r.first->second.c_str()); }
    }
    // what the harness has bound itself
    std::set<std::string> own;
    bool builtin(const std::string &n) const { return own.count(n) != 0; }
};

void history(Gen &g, Case &c) {
    bool std = g.coin();
    M m(g, c, std);
    if (std) { m.macros = {"array", "json", "delegate"}; }
    // the names of the standard libraries and of the harness itself are not part of the model
    for (const char *n : {"Nat", "array", "dict", "array_any", "array_str", "array_int", "dict_str_int", "emit", "ti", "tf", "tb", "ts", "nat", "nat_id", "here", "junk", "inp", "hook", "hc", "KI", "KF", "KB", "KS", "strlen", "stridx", "sget", "strchr", "strcat", "substr", "ston", "stoi", "ntos", "floor", "ceil", "rand", "srand", "exit", "time", "INT_MAX"}) m.own.insert(n);
    for (auto n : kPrim) if (Tiny_FindFuncSymbol(m.h.state, n)) m.unknown.insert(n);
    int ops = (int)g.range(2, 25);
    bool big = g.chance(1, 40);
    for (int i = 0; i < ops; ++i) {
        switch (g.weighted({4, 2, 3, 2, 2, 1})) {
            case 0: m.unit(true, big ? 120 : 6); break;
            case 1: m.registerType(); break;
            case 2: m.bindFunction(); break;
            case 3: m.bindConst(); break;
            case 4: m.unit(false, 6); break;
            default: m.bindMacro(); break;
        }
        m.lookAll();
    }
    m.unit(true, 3);  // only a compiled state can run
    m.lookAll();
    // the indices denote what they were found for
    Thread t(m.h);
    t.start();
    t.run();
    auto dump = [&](Tiny_Value v) -> std::string {
        switch (v.type) {
            case TINY_VAL_NULL: return "null";
            case TINY_VAL_BOOL: return strf("b%d", v.boolean);
            case TINY_VAL_INT: return std::to_string(v.i);
            case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return "s" + std::string(Tiny_ToString(v), Tiny_StringLen(v));
            default: return strf("<kind %d>", v.type);
        }
    };
    for (auto &k : m.gls) {
        std::string got = dump(Tiny_GetGlobal(t.t.get(), k.second.index));
        PBT_CHECK(got == k.second.value, "the global %s is %s instead of %s", k.first.c_str(), quote(got).c_str(), quote(k.second.value).c_str());
    }
    if (g.coin()) {
        // more is declared once the thread is done
        std::set<std::string> old;
        for (auto &k : m.gls) old.insert(k.first);
        for (int n = (int)g.range(1, 2); n > 0; --n) { m.unit(true, g.chance(1, 20) ? 60 : 6); m.lookAll(); }
        for (auto &k : m.gls) {
            std::string got = dump(Tiny_GetGlobal(t.t.get(), k.second.index)), want = old.count(k.first) ? k.second.value : "null";
            PBT_CHECK(got == want, "once more was declared the global %s is %s instead of %s", k.first.c_str(), quote(got).c_str(), quote(want).c_str());
        }
        c.label("more declared after the run");
    }
    int64_t x = 5000;
    for (auto &k : m.gls) Tiny_SetGlobal(t.t.get(), k.second.index, Tiny_NewInt(x++));
    x = 5000;
    for (auto &k : m.gls) { Tiny_Value v = Tiny_GetGlobal(t.t.get(), k.second.index); PBT_CHECK(v.type == TINY_VAL_INT && v.i == x++, "the global %s does not hold what was put in", k.first.c_str()); }
    for (auto &k : m.fns) if (k.second.id >= 0 && !k.second.foreign) {
        std::vector<Tiny_Value> a(k.second.args.size(), Tiny_Null);
        Tiny_Value v = Tiny_CallFunction(t.t.get(), k.second.index, a.data(), (int)a.size());
        PBT_CHECK(v.type == TINY_VAL_INT && v.i == k.second.id, "another function than %s is called", k.first.c_str());
    }
    t.destroy();
    m.h.stateCtx.check("state");
    c.nontrivial = m.kinds.size() >= 3 && m.changes >= 3;
    for (auto &k : m.kinds) c.label(k);
    c.labelIf(m.failed > 0, "failed compiles between");
    c.labelIf(big, "many names");
}
// the symbols of a generated program
void programs(Gen &g, Case &c, const Cfg &cfg) {
    Program p;
    generate(g, cfg, p);
    std::string text = print(p).text;
    c.say(text);
    Host h;
    h.mustCompile(text);
    for (auto &s : p.structs) {
        const Tiny_Symbol *y = Tiny_FindTypeSymbol(h.state, s->name.c_str());
        if (!y) { PBT_CHECK(text.find("struct " + s->name) == std::string::npos, "struct %s is not found", s->name.c_str()); continue; }
        PBT_CHECK(y->type == TINY_SYM_TAG_STRUCT && Tiny_SymbolArrayCount(y->sstruct.fields) == s->fields.size(), "struct %s is reported with %zu fields", s->name.c_str(), Tiny_SymbolArrayCount(y->sstruct.fields));
        for (size_t i = 0; i < s->fields.size(); ++i) {
            PBT_CHECK(s->fields[i].name == y->sstruct.fields[i]->name, "field %zu of %s is reported as %s", i, s->name.c_str(), y->sstruct.fields[i]->name);
            PBT_CHECK(s->fields[i].type->name() == y->sstruct.fields[i]->fieldTag->name, "field %zu of %s is reported as a %s instead of a %s", i, s->name.c_str(), y->sstruct.fields[i]->fieldTag->name, s->fields[i].type->name().c_str());
        }
    }
    int n = 0;
    for (auto &f : p.funcs) {
        const Tiny_Symbol *y = Tiny_FindFuncSymbol(h.state, f->name.c_str());
        if (!y) { PBT_CHECK(text.find("func " + f->name + "(") == std::string::npos, "function %s is not found", f->name.c_str()); continue; }
        ++n;
        PBT_CHECK(y->type == TINY_SYM_FUNCTION && Tiny_GetFunctionIndex(h.state, f->name.c_str()) == (int)y->func.index, "function %s is reported as a %d", f->name.c_str(), (int)y->type);
        PBT_CHECK(Tiny_SymbolArrayCount(y->func.args) == f->params.size(), "function %s is reported with %zu parameters", f->name.c_str(), Tiny_SymbolArrayCount(y->func.args));
        for (size_t i = 0; i < f->params.size(); ++i) {
            PBT_CHECK(f->params[i]->name == y->func.args[i]->name && f->params[i]->type->name() == y->func.args[i]->var.tag->name, "parameter %zu of %s is reported as %s: %s", i, f->name.c_str(), y->func.args[i]->name, y->func.args[i]->var.tag->name);
            bool global = false;
            for (auto *v : p.globals) if (v->name == f->params[i]->name) global = true;
            PBT_CHECK(global || Tiny_GetGlobalIndex(h.state, f->params[i]->name.c_str()) == -1, "the parameter %s is reported as a global", f->params[i]->name.c_str());
        }
        PBT_CHECK(f->ret->name() == y->func.returnTag->name, "function %s is reported to return a %s instead of a %s", f->name.c_str(), y->func.returnTag->name, f->ret->name().c_str());
    }
    std::set<int> idx;
    for (auto *v : p.globals) {
        int i = Tiny_GetGlobalIndex(h.state, v->name.c_str());
        PBT_CHECK(i >= 0 && idx.insert(i).second, "the global %s has the index %d", v->name.c_str(), i);
        PBT_CHECK(!Tiny_FindConstSymbol(h.state, v->name.c_str()), "the global %s is reported as a constant", v->name.c_str());
    }
    c.nontrivial = n + p.structs.size() + p.globals.size() >= 4;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C28";
    p.title = "Symbol lookup reflects exactly the declarations made";
    p.assumptions = {"names are declared once per kind; a bound signature may name a type which is declared before the next program compiles"};
    p.families.push_back({"history", "at least three kinds of declarations in at least three successful operations", history, 6000, 800000});
    Cfg cfg;
    cfg.items = 12; cfg.maxFuncs = 5; cfg.maxStructs = 4; cfg.maxGlobals = 8; cfg.mainBudget = 120; cfg.funcBudget = 40;
    p.families.push_back({"programs", "at least four structs, functions and globals together", [=](Gen &g, Case &c) { programs(g, c, cfg); }, 4000, 500000});
    return run(argc, argv, p);
}
