#include <algorithm>
#include "vals.h"
using namespace vals;

namespace {
// What a value is, apart from how it was made.
struct MV {
    enum K { Nul, Bool, Int, Float, Str, Struct, Nat, Light } k = Nul;
    int64_t i = 0;
    double f = 0;
    std::string s;
};
bool eq(const MV &a, const MV &b) {
    if (a.k != b.k) return false;
    switch (a.k) {
        case MV::Nul: return true;
        case MV::Float: return a.f == b.f;
        case MV::Str: return a.s == b.s;
        default: return a.i == b.i;
    }
}
std::string show(const MV &v) {
    static const char *k[] = {"null", "bool ", "int ", "float ", "str ", "struct ", "native ", "light native "};
    std::string r = k[v.k];
    switch (v.k) {
        case MV::Nul: return r;
        case MV::Float: return r + fmtFloat(v.f);
        case MV::Str: return r + quote(v.s);
        default: return r + std::to_string(v.i);
    }
}
MV randVal(Gen &g, const std::vector<MV> &have, bool nan = true) {
    MV v;
    // the same again, or nearly the same
    if (!have.empty() && g.chance(2, 5)) {
        v = have[g.below(have.size())];
        switch (g.below(6)) {
            case 0: {  // another kind with the same number
                int64_t n = v.k == MV::Float ? (int64_t)std::min(1e15, std::max(-1e15, v.f == v.f ? v.f : 0)) : v.k == MV::Nul ? 0 : v.k == MV::Str ? atoll(v.s.c_str()) : v.i;
                v = MV();
                switch (g.below(6)) {
                    case 0: v.k = MV::Int; v.i = n; break;
                    case 1: v.k = MV::Float; v.f = (double)n; break;
                    case 2: v.k = MV::Str; v.s = std::to_string(n); break;
                    case 3: v.k = MV::Light; v.i = n & 63; break;
                    case 4: v.k = MV::Bool; v.i = n & 1; break;
                    default: break;
                }
                return v;
            }
            case 1:
                if (v.k == MV::Int) v.i ^= (int64_t)((uint64_t)1 << g.below(64));
                else if (v.k == MV::Float && std::isfinite(v.f)) v.f = g.coin() ? -v.f : std::nextafter(v.f, 1e300);
                else if (v.k == MV::Bool) v.i ^= 1;
                else if (v.k == MV::Str) {
                    switch (g.below(4)) {
                        case 0: v.s += (char)g.range(1, 127); break;
                        case 1: if (!v.s.empty()) v.s[g.below(v.s.size())] ^= 1 << g.below(8); break;
                        case 2: if (!v.s.empty()) v.s.pop_back(); break;
                        default: v.s += '\0'; if (g.coin()) v.s += 'x'; break;
                    }
                }
                return v;
            default: return v;
        }
    }
    v.k = (MV::K)g.below(8);
    switch (v.k) {
        case MV::Nul: break;
        case MV::Bool: v.i = g.below(2); break;
        case MV::Int: v.i = someInt(g); break;
        case MV::Float: v.f = nan && g.chance(1, 12) ? NAN : g.chance(1, 12) ? HUGE_VAL * (g.coin() ? 1 : -1) : someFloat(g); break;
        case MV::Str: v.s = someStr(g, true); if (g.chance(1, 10)) v.s = std::string(g.below(5000), 'x') + v.s; break;
        default: v.i = g.below(v.k == MV::Light ? 64 : 4); break;
    }
    return v;
}
// ---- through the API
void api(Gen &g, Case &c) {
    Host h;
    h.mustCompile("struct P { id: int }\nfunc mk(i: int): P { return new P{i} }\nhook(0)\n");
    Thread t(h);
    Ctx cx;
    int n = (int)g.range(2, 14);
    std::vector<MV> vs;
    for (int i = 0; i < n; ++i) vs.push_back(randVal(g, vs));
    t.hook = [&](Thread &t, const Tiny_Value *, int) {
        int mk = Tiny_GetFunctionIndex(h.state, "mk");
        Tiny_Value st[4];
        for (int i = 0; i < 4; ++i) { Tiny_Value a = Tiny_NewInt(i % 2); st[i] = Tiny_CallFunction(t.t.get(), mk, &a, 1); }
        static int cell[4];
        static const Tiny_NativeProp prop = {"thing", nullptr, nullptr};
        std::vector<std::unique_ptr<std::string>> keep;
        std::vector<Tiny_Value> rs;
        std::string how;
        for (auto &v : vs) {
            switch (v.k) {
                case MV::Nul: rs.push_back(Tiny_Null); break;
                case MV::Bool: rs.push_back(Tiny_NewBool(v.i)); break;
                case MV::Int: rs.push_back(Tiny_NewInt(v.i)); break;
                case MV::Float: rs.push_back(Tiny_NewFloat(v.f)); break;
                case MV::Struct: rs.push_back(st[v.i]); break;
                case MV::Nat: rs.push_back(Tiny_NewNative(t.t.get(), &cell[v.i], &prop)); break;
                case MV::Light: rs.push_back(Tiny_NewLightNative((void *)(intptr_t)v.i)); break;
                case MV::Str: {
                    keep.emplace_back(new std::string(v.s));
                    const std::string &s = *keep.back();
                    bool z = s.find('\0') != std::string::npos;
                    switch (z ? g.below(2) : g.below(4)) {
                        case 0: rs.push_back(Tiny_NewStringCopy(t.t.get(), s.data(), s.size())); break;
                        case 1: {
                            char *p = (char *)Tiny_AllocUsingContext(t.t->ctx, nullptr, s.size() + 1);
                            memcpy(p, s.c_str(), s.size() + 1);
                            rs.push_back(Tiny_NewString(t.t.get(), p, s.size()));
                            break;
                        }
                        case 2: rs.push_back(Tiny_NewStringCopyNullTerminated(t.t.get(), s.c_str())); break;
                        default: rs.push_back(Tiny_NewConstString(s.c_str())); break;
                    }
                }
            }
            c.say("// " + show(v) + (v.k == MV::Str ? rs.back().type == TINY_VAL_CONST_STRING ? " (constant)" : " (new)" : "") + "\n");
        }
        int eqs = 0;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                bool want = eq(vs[i], vs[j]), got = Tiny_AreValuesEqual(rs[i], rs[j]);
                if (want && i != j) ++eqs;
                PBT_CHECK(want == got, "%s and %s are %s", show(vs[i]).c_str(), show(vs[j]).c_str(), got ? "equal" : "not equal");
            }
        // as keys
        auto key = [&](int i) { return vs[i].k != MV::Nul && !(vs[i].k == MV::Float && vs[i].f != vs[i].f); };
        for (int i = 0; i < n; ++i) {
            if (!key(i)) continue;
            Dict d;
            InitDict(&d, cx.ctx());
            DictSet(&d, rs[i], Tiny_NewInt(7));
            for (int j = 0; j < n; ++j) {
                if (!key(j)) continue;
                const Tiny_Value *r = DictGet(&d, rs[j]);
                PBT_CHECK((r != nullptr) == eq(vs[i], vs[j]), "%s is %s with the key %s", show(vs[j]).c_str(), r ? "found" : "not found", show(vs[i]).c_str());
            }
            DestroyDict(&d);
        }
        c.nontrivial = eqs >= 1 && n >= 3;
        return Tiny_Null;
    };
    t.start();
    t.run();
}
// ---- in scripts: values held in every static type
struct W {
    Gen &g;
    StrTable tab;
    std::string text;
    std::vector<std::string> trace;
    int tmp = 0;
    explicit W(Gen &g) : g(g) {}
    // An expression with the value, of its own type, of the nullable type, or any.
    std::string base(const MV &v, std::string &ty) {
        switch (v.k) {
            case MV::Nul: { static const char *t[] = {"int?", "str?", "P?", "Nat?", "bool?", "float?"}; ty = t[g.below(6)]; return "cast(null, " + ty + ")"; }
            case MV::Bool: ty = "bool"; return v.i ? (g.coin() ? "true" : "(1 < 2)") : g.coin() ? "false" : "(2 < 1)";
            case MV::Int: ty = "int"; return g.chance(1, 3) ? "(" + intText(v.i) + " + 0)" : g.coin() ? "ti(" + intText(v.i) + ")" : intText(v.i);
            case MV::Float: ty = "float"; return std::isinf(v.f) ? (v.f > 0 ? "(1.0 / 0.0)" : "(-1.0 / 0.0)") : v.f != v.f ? "(0.0 / 0.0)" : fltText(v.f);
            case MV::Str: ty = "str"; return strEx(g, tab, v.s);
            case MV::Struct: ty = "P"; return strf("p%lld", (long long)v.i);
            case MV::Nat: ty = "Nat"; return g.coin() ? strf("n%lld", (long long)v.i) : strf("twin(n%lld)", (long long)v.i);
            default: ty = "i64"; return strf("int_to_i64(%lld)", (long long)v.i);
        }
    }
    std::string ex(const MV &v) {
        std::string ty, b = base(v, ty);
        if (v.k == MV::Int && b.rfind("ti(", 0) == 0) b = strf("id_int(%s)", b.substr(3, b.size() - 4).c_str());
        bool nul = v.k == MV::Nul;
        switch (g.below(9)) {
            case 0: return b;
            case 1: return "cast(" + b + ", any)";
            case 2: return nul ? b : "cast(cast(" + b + ", any), " + ty + "?)";
            case 3: { std::string x = strf("x%d", tmp++); text += x + " := " + b + "\n"; return x; }
            case 4: { std::string x = strf("x%d", tmp++); text += x + ": any = " + b + "\n"; return x; }
            case 5: { std::string x = strf("x%d", tmp++); text += x + ": " + ty + (nul ? "" : "?") + " = " + b + "\n"; return x; }
            case 6: return "id_any(" + b + ")";
            case 7: return "anys(" + b + ")[0]";
            default: return nul ? "null" : b;
        }
    }
};
Tiny_Value twin(Tiny_StateThread *t, const Tiny_Value *a, int) { static const Tiny_NativeProp prop = {"nat", nullptr, nullptr}; return Tiny_NewNative(t, Tiny_ToAddr(a[0]), &prop); }
void script(Gen &g, Case &c) {
    W w(g);
    w.text = "use array(\"any\") as anys\nstruct P { id: int }\nfunc id_any(x: any): any { return x }\nfunc id_int(x: int): int { return x }\nfunc same(a: any, b: any): bool { return a == b }\nfunc differ(a: any, b: any): bool { if a != b { return true } return false }\n";
    for (int i = 0; i < 4; ++i) w.text += strf("p%d := new P{%d}\nn%d := nat(%d)\n", i, i % 2, i, i);
    int n = (int)g.range(1, 25), eqs = 0;
    std::vector<MV> vs;
    auto val = [&](bool key = false) { MV v = randVal(g, vs, !key); if (key && (v.k == MV::Nul || v.f != v.f)) { v = MV(); v.k = MV::Int; } vs.push_back(v); return v; };
    for (int i = 0; i < n; ++i) {
        MV a = val(), b = val();
        bool want = eq(a, b);
        eqs += want;
        std::string r = want ? "emit true" : "emit false", nr = want ? "emit false" : "emit true";
        std::string x = w.ex(a), y = w.ex(b);
        switch (g.below(8)) {
            case 0: case 1: w.text += "emit(" + x + " == " + y + ")\n"; w.trace.push_back(r); break;
            case 2: w.text += "emit(" + x + " != " + y + ")\n"; w.trace.push_back(nr); break;
            case 3: w.text += "if " + x + " == " + y + " { emit(true) } else { emit(false) }\n"; w.trace.push_back(r); break;
            case 4: w.text += "if " + x + " != " + y + " { emit(true) } else { emit(false) }\n"; w.trace.push_back(nr); break;
            case 5: w.text += "emit(same(" + x + ", " + y + "))\n"; w.trace.push_back(r); break;
            case 6: w.text += "emit(differ(" + x + ", " + y + "))\n"; w.trace.push_back(nr); break;
            default: {
                MV k = val(true), l = val(true);
                w.text += strf("d%d := dict(%s, 1)\n", i, w.ex(k).c_str());
                std::string ly = w.ex(l);
                w.text += strf("emit(dict_exists(d%d, %s))\n", i, ly.c_str());
                w.trace.push_back(eq(k, l) ? "emit true" : "emit false");
            }
        }
    }
    c.say(w.text);
    for (size_t i = 0; i < w.tab.v.size(); ++i) c.say(strf("// string %zu = %s\n", i, quote(*w.tab.v[i]).c_str()));
    c.nontrivial = n >= 3 && eqs >= 1;
    table() = &w.tab;
    Host h;
    Tiny_BindI64(h.state);
    bindStrings(h.state);
    Tiny_BindFunction(h.state, "twin(Nat): Nat", twin);
    h.mustCompile(w.text);
    Thread t(h);
    t.start();
    if (g.coin()) { do t.t->maxNumObjects = 0; while (t.step()); } else t.run();
    compareTrace(w.trace, t.trace);
}
// ---- equivalence relation, over values of script programs: structures made in several ways
void laws(Gen &g, Case &c) {
    W w(g);
    std::vector<MV> vs;
    int n = (int)g.range(2, 7);
    w.text = "use array(\"any\") as anys\nstruct P { id: int }\nfunc id_any(x: any): any { return x }\nfunc id_int(x: int): int { return x }\n";
    for (int i = 0; i < 4; ++i) w.text += strf("p%d := new P{%d}\nn%d := nat(%d)\n", i, i % 2, i, i);
    for (int i = 0; i < n; ++i) { vs.push_back(randVal(g, vs, false)); std::string e = w.ex(vs.back()); w.text += strf("v%d: any = %s\n", i, e.c_str()); }
    w.text += "l := anys(";
    for (int i = 0; i < n; ++i) w.text += strf("%sv%d", i ? ", " : "", i);
    w.text += strf(")\nfor i := 0; i < %d; i += 1 { for j := 0; j < %d; j += 1 { if anys_get(l, i) == anys_get(l, j) { emit(1) } else { emit(0) } } }\n", n, n);
    c.say(w.text);
    table() = &w.tab;
    Host h;
    Tiny_BindI64(h.state);
    bindStrings(h.state);
    Tiny_BindFunction(h.state, "twin(Nat): Nat", twin);
    h.mustCompile(w.text);
    Thread t(h);
    t.start();
    t.run();
    PBT_CHECK((int)t.trace.size() == n * n, "%zu results", t.trace.size());
    std::vector<std::vector<int>> r(n, std::vector<int>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] = t.trace[i * n + j] == "emit 1";
    bool some = false;
    for (int i = 0; i < n; ++i) {
        PBT_CHECK(r[i][i], "%s is not equal to itself", show(vs[i]).c_str());
        for (int j = 0; j < n; ++j) {
            PBT_CHECK(r[i][j] == r[j][i], "== is not symmetric on %s and %s", show(vs[i]).c_str(), show(vs[j]).c_str());
            if (r[i][j]) PBT_CHECK(vs[i].k == vs[j].k, "%s equals %s", show(vs[i]).c_str(), show(vs[j]).c_str());
            if (i != j && r[i][j]) some = true;
            for (int k = 0; k < n; ++k)
                PBT_CHECK(!(r[i][j] && r[j][k]) || r[i][k], "== is not transitive on %s, %s and %s", show(vs[i]).c_str(), show(vs[j]).c_str(), show(vs[k]).c_str());
        }
    }
    c.nontrivial = some;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C17";
    p.title = "Value equality is a content-based equivalence relation";
    p.assumptions = {"two natives are the same object when they wrap the same address", "-0.0 equals 0.0 and NaN equals nothing, as in IEEE comparison"};
    p.families.push_back({"api", "at least three values, two of them equal", api, 25000, 3000000});
    p.families.push_back({"script", "at least three comparisons, one of equal values", script, 9000, 1000000});
    p.families.push_back({"laws", "two different variables hold equal values", laws, 9000, 1000000});
    return run(argc, argv, p);
}
