#include <algorithm>
#include "vals.h"
using namespace vals;

namespace {
// ---- the C container
struct CV { Tiny_Value v; };
bool same(Tiny_Value a, Tiny_Value b) {
    if (a.type != b.type) return false;
    switch (a.type) {
        case TINY_VAL_NULL: return true;
        case TINY_VAL_BOOL: return a.boolean == b.boolean;
        case TINY_VAL_INT: return a.i == b.i;
        case TINY_VAL_FLOAT: return memcmp(&a.f, &b.f, sizeof a.f) == 0;
        case TINY_VAL_CONST_STRING: return a.cstr == b.cstr;
        default: return a.addr == b.addr;
    }
}
std::string show(Tiny_Value v) {
    switch (v.type) {
        case TINY_VAL_NULL: return "null";
        case TINY_VAL_BOOL: return v.boolean ? "true" : "false";
        case TINY_VAL_INT: return std::to_string(v.i);
        case TINY_VAL_FLOAT: return "f" + fmtFloat(v.f);
        case TINY_VAL_CONST_STRING: return quote(v.cstr);
        default: return strf("<%d %p>", v.type, v.addr);
    }
}
Tiny_Value cval(Gen &g) {
    static const char *s[] = {"a", "b", "", "text"};
    static int cell[8];
    switch (g.below(6)) {
        case 0: return Tiny_NewInt(g.range(0, 9));
        case 1: return Tiny_NewInt(someInt(g));
        case 2: return Tiny_NewFloat(someFloat(g));
        case 3: return Tiny_NewBool(g.coin());
        case 4: return Tiny_NewConstString(s[g.below(4)]);
        default: return g.coin() ? Tiny_Null : Tiny_NewLightNative(&cell[g.below(8)]);
    }
}
void container(Gen &g, Case &c, bool longer, bool large = false) {
    Ctx cx;
    int n = (int)g.range(1, 3);
    std::vector<Array> as(n);
    std::vector<std::vector<Tiny_Value>> ms(n);
    for (int i = 0; i < n; ++i) {
        if (g.coin()) InitArray(&as[i], cx.ctx());
        else {
            size_t k = large ? (size_t)g.range(500, 20000) : g.below(g.chance(1, 4) ? 60 : 5);
            for (size_t j = 0; j < k; ++j) ms[i].push_back(large ? Tiny_NewInt((int64_t)j) : cval(g));
            InitArrayEx(&as[i], cx.ctx(), (int)k, ms[i].data());
        }
    }
    int ops = (int)(longer ? g.range(50, 400) : g.range(1, 30)), moves = 0;
    size_t maxLen = 0;
    auto check = [&](int i) {
        PBT_CHECK(ArrayLen(&as[i]) == (int)ms[i].size(), "length of array %d is %d instead of %zu", i, ArrayLen(&as[i]), ms[i].size());
        for (size_t k = 0; k < ms[i].size(); ++k)
            PBT_CHECK(same(*ArrayGet(&as[i], (int)k), ms[i][k]), "element %zu of array %d is %s instead of %s", k, i, show(*ArrayGet(&as[i], (int)k)).c_str(), show(ms[i][k]).c_str());
    };
    for (int i = 0; i < n; ++i) check(i);
    int bias = (int)g.below(3);
    for (int o = 0; o < ops; ++o) {
        int i = (int)g.below(n);
        auto &m = ms[i];
        Array *a = &as[i];
        std::string d;
        int k = (int)g.below(10);
        if (bias == 1 && g.coin()) k = 0;
        if (m.empty() && (k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6)) k = 0;
        Tiny_Value v, got;
        memset(&v, 0, sizeof v); memset(&got, 0, sizeof got);
        switch (k) {
            case 0: v = cval(g); d = "push " + show(v); ArrayPush(a, v); m.push_back(v); break;
            case 1: d = "pop"; v = m.back(); m.pop_back(); ArrayPop(a, &got); PBT_CHECK(same(got, v), "pop of array %d gives %s instead of %s", i, show(got).c_str(), show(v).c_str()); break;
            case 2: d = "shift"; v = m[0]; m.erase(m.begin()); ArrayShift(a, &got); PBT_CHECK(same(got, v), "shift of array %d gives %s instead of %s", i, show(got).c_str(), show(v).c_str()); ++moves; break;
            case 3: { size_t p = g.below(m.size()); v = cval(g); d = strf("insert %zu %s", p, show(v).c_str()); ArrayInsert(a, (int)p, v); m.insert(m.begin() + p, v); ++moves; break; }
            case 4: { size_t p = g.below(m.size()); d = strf("remove %zu", p); ArrayRemove(a, (int)p); m.erase(m.begin() + p); ++moves; break; }
            case 5: { size_t p = g.below(m.size()); v = cval(g); d = strf("set %zu %s", p, show(v).c_str()); ArraySet(a, (int)p, v); m[p] = v; break; }
            case 6: { size_t p = g.below(m.size()); d = strf("get %zu", p); got = *ArrayGet(a, (int)p); PBT_CHECK(same(got, m[p]), "element %zu of array %d is %s instead of %s", p, i, show(got).c_str(), show(m[p]).c_str()); break; }
            case 7: if (g.coin()) { d = "clear"; ArrayClear(a); m.clear(); break; } [[fallthrough]];
            case 8: {
                size_t p = g.chance(1, 4) ? g.below(m.size() * 2 + 3) : g.range(std::max<int64_t>(0, (int64_t)m.size() - 3), (int64_t)m.size() + 3);
                if (g.chance(1, 20)) p = g.below(200);
                v = cval(g);
                d = strf("resize %zu %s", p, show(v).c_str());
                ArrayResize(a, (int)p, v);
                m.resize(p, v);
                ++moves;
                break;
            }
            default: {
                int j = (int)g.below(n);  // an element of another array goes into this one
                if (ms[j].empty()) { d = "nothing"; break; }
                size_t p = g.below(ms[j].size());
                d = strf("push element %zu of array %d", p, j);
                Tiny_Value x = ms[j][p];
                ArrayPush(a, *ArrayGet(&as[j], (int)p));
                m.push_back(x);
            }
        }
        maxLen = std::max(maxLen, m.size());
        c.say(strf("array %d: %s\n", i, d.c_str()));
        check(i);
        if (n > 1 && g.chance(1, 5)) for (int j = 0; j < n; ++j) check(j);
        cx.check("context");
    }
    for (int j = 0; j < n; ++j) check(j);
    for (auto &a : as) DestroyArray(&a);
    cx.check("context");
    PBT_CHECK(cx.live.empty(), "%zu blocks remain after the arrays were destroyed", cx.live.size());
    c.nontrivial = ops >= 5 && maxLen >= 2 && moves > 0;
    c.label(maxLen > 50 ? "length: over 50" : maxLen > 8 ? "length: 9 to 50" : "length: to 8");
}

// ---- scripts
struct W {
    Gen &g;
    Program p;
    Machine m{p};
    StrTable tab;
    std::vector<std::string> trace;
    std::string text;
    struct A { std::string var; int t; int obj; };   // variables holding arrays
    std::vector<A> vars;
    std::vector<std::string> names;   // structs made so far: variables
    std::vector<Val> structs;
    int ids = 0, tmp = 0, ops = 0, moves = 0, sorts = 0;
    size_t maxLen = 0;
    explicit W(Gen &g) : g(g) {}

    static constexpr int NT = 8;
    // element types
    static const char *elem(int t) { static const char *e[] = {"int", "float", "bool", "str", "any", "P", "ints", "Nat"}; return e[t]; }
    static const char *arr(int t) { static const char *e[] = {"ints", "floats", "bools", "strs", "anys", "ps", "intss", "nats"}; return e[t]; }
    std::vector<Val> &f(int obj) { return m.heap[obj].f; }
    std::string intEx(int64_t v) {
        switch (g.below(5)) {
            case 0: return strf("id(%s)", intText(v).c_str());
            case 1: if (v > -1000000 && v < 1000000) return strf("(%s + %d)", intText(v - 7).c_str(), 7); [[fallthrough]];
            default: return intText(v);
        }
    }
    // an expression of element type t
    std::string ex(int t, Val &v) {
        // an element of an array of this type
        if (g.chance(1, 6)) {
            std::vector<int> c;
            for (size_t i = 0; i < vars.size(); ++i) if (vars[i].t == t && !f(vars[i].obj).empty()) c.push_back((int)i);
            if (!c.empty()) {
                A &a = vars[c[g.below(c.size())]];
                size_t k = g.below(f(a.obj).size());
                Val x = f(a.obj)[k];
                v = x;
                return g.coin() ? strf("%s_get(%s, %zu)", arr(t), a.var.c_str(), k) : strf("%s[%zu]", a.var.c_str(), k);
            }
        }
        switch (t) {
            case 0: { int64_t x = someInt(g); v = Val::n(x); return intEx(x); }
            case 1: { double x = someFloat(g); v = Val::fl(x); return fltText(x); }
            case 2: { bool b = g.coin(); v = Val::b(b); return b ? "true" : "false"; }
            case 3: { std::string s = someStr(g, true); v = Val::st(s); return strEx(g, tab, s); }
            case 4:
                switch (g.below(5)) {
                    case 0: if (!vars.empty()) { A &a = g.pick(vars); v = Val::ob(a.obj); return a.var; } [[fallthrough]];
                    case 1: v = Val::null(); return "null";
                    default: return ex((int)g.below(4), v);
                }
            case 6: {
                for (auto &a : vars) if (a.t == 0 && g.coin()) { v = Val::ob(a.obj); return a.var; }
                v = m.newObj(MObj::Arr);
                int64_t q = g.range(0, 9);
                m.heap[v.o].f = {Val::n(q)};
                return strf("ints(%lld)", (long long)q);
            }
            case 5:
                if (!names.empty() && g.coin()) { size_t k = g.below(names.size()); v = structs[k]; return names[k]; }
                v = m.newObj(MObj::St);
                m.heap[v.o].f = {Val::n(++ids)};
                return strf("new P{%d}", ids);
            default:
                v = m.newObj(MObj::Nat);
                m.heap[v.o].id = ++ids;
                return strf("nat(%d)", ids);
        }
    }
    // an index in one of the ways it can be written
    std::string at(size_t i, size_t n) {
        switch (g.below(7)) {
            case 0: if (i >= 32 && i < 127 && i != '\'' && i != '\\') return strf("'%c'", (char)i); [[fallthrough]];
            case 1: return strf("id(%zu)", i);
            case 2: return strf("%zu - %zu", i + 7, (size_t)7);
            case 3: return strf("(if id(%zu) > 3 %zu else %zu)", n, n > 3 ? i : 9999, n > 3 ? 9999 : i);
            default: return std::to_string(i);
        }
    }
    void out(const std::string &ex, const Val &v) { text += "emit(" + ex + ")\n"; trace.push_back("emit" + m.dumpAll({v})); }
    void whole(A &a) {
        if (f(a.obj).size() > 60) return;
        out(a.var, Val::ob(a.obj));
    }
    void op() {
        ++ops;
        A &a = g.pick(vars);
        const char *T = arr(a.t), *x = a.var.c_str();
        auto &e = f(a.obj);
        size_t n = e.size();
        maxLen = std::max(maxLen, n);
        Val v;
        auto call = [&](const char *fn, const std::string &args) {
            std::string s = args.empty() ? "" : args;
            if (g.coin()) return strf("%s->%s_%s(%s)", x, T, fn, s.c_str());
            return strf("%s_%s(%s%s%s)", T, fn, x, s.empty() ? "" : ", ", s.c_str());
        };
        int k = (int)g.below(15);
        if (n == 0 && k >= 2 && k <= 7) k = 0;
        switch (k) {
            case 0: case 1: { std::string s = ex(a.t, v); text += call("push", s) + "\n"; f(a.obj).push_back(v); break; }
            case 2: { Val r = e.back(); e.pop_back(); out(call("pop", ""), r); break; }
            case 3: { Val r = e[0]; e.erase(e.begin()); out(call("shift", ""), r); ++moves; break; }
            case 4: { size_t i = g.below(n); std::string s = ex(a.t, v); text += call("insert", at(i, n) + ", " + s) + "\n"; auto &q = f(a.obj); q.insert(q.begin() + i, v); ++moves; break; }
            case 5: { size_t i = g.below(n); text += call("remove", at(i, n)) + "\n"; e.erase(e.begin() + i); ++moves; break; }
            case 6: {
                size_t i = g.below(n);
                std::string s = ex(a.t, v);
                if (g.coin()) text += call("set", at(i, n) + ", " + s) + "\n"; else text += strf("%s[%s] = %s\n", x, at(i, n).c_str(), s.c_str());
                f(a.obj)[i] = v;
                break;
            }
            case 7: { size_t i = g.below(n); out(g.coin() ? call("get", at(i, n)) : strf("%s[%s]", x, at(i, n).c_str()), e[i]); break; }
            case 8: out(call("len", ""), Val::n((int64_t)n)); break;
            case 9: {
                // only any has null as a value of the element type
                bool nulls = a.t == 4;
                size_t to = nulls ? g.below(n + 8) : g.below(n + 1);
                text += call("resize", std::to_string(to)) + "\n";
                e.resize(to, Val::null());
                ++moves;
                break;
            }
            case 10: {
                size_t to = g.below(n + (g.chance(1, 6) ? 80 : 8));
                std::string s = ex(a.t, v);
                text += call("resize_fill", strf("%zu, ", to) + s) + "\n";
                f(a.obj).resize(to, v);
                ++moves;
                break;
            }
            case 11: if (g.chance(1, 3)) { text += call("clear", "") + "\n"; e.clear(); ++moves; } else whole(a); break;
            case 12:
                if (a.t != 0) { whole(a); break; }
                if (n == 0 || g.chance(1, 3)) {  // something to sort
                    int cnt = (int)g.range(1, 40), md = (int)g.range(1, 1000), mul = (int)g.range(1, 999);
                    text += strf("for k%d := 0; k%d < %d; k%d += 1 { ints_push(%s, (k%d * %d) %% %d - %d) }\n", tmp, tmp, cnt, tmp, x, tmp, mul, md, md / 2);
                    ++tmp;
                    for (int j = 0; j < cnt; ++j) f(a.obj).push_back(Val::n((int64_t)j * mul % md - md / 2));
                }
                text += call("sort", "") + "\n";
                std::sort(f(a.obj).begin(), f(a.obj).end(), [](const Val &p, const Val &q) { return p.i < q.i; });
                ++sorts;
                whole(a);
                break;
            case 13: {  // another name for the same array, or a new array
                A b{strf("v%zu", vars.size()), a.t, a.obj};
                if (vars.size() > 9) { whole(a); break; }
                if (g.chance(1, 3)) text += b.var + " := " + x + "\n";
                else {
                    b.t = (int)g.below(NT);
                    Val o;
                    std::string args;
                    std::vector<Val> vs;
                    int cnt = (int)(g.chance(1, 8) ? g.range(10, 40) : g.below(5));
                    for (int j = 0; j < cnt; ++j) { Val y; args += (j ? ", " : "") + ex(b.t, y); vs.push_back(y); }
                    o = m.newObj(MObj::Arr);
                    m.heap[o.o].f = vs;
                    b.obj = o.o;
                    text += b.var + " := " + arr(b.t) + "(" + args + ")\n";
                }
                vars.push_back(b);
                break;
            }
            default:
                switch (g.below(4)) {
                    case 0: {  // many pushes
                        if (a.t != 0) { whole(a); break; }
                        int cnt = (int)g.range(5, 70);
                        text += strf("for k%d := 0; k%d < %d; k%d += 1 { ints_push(%s, k%d) }\n", tmp, tmp, cnt, tmp, x, tmp);
                        ++tmp;
                        for (int j = 0; j < cnt; ++j) f(a.obj).push_back(Val::n(j));
                        break;
                    }
                    case 1: {  // moves everything into another array of the type
                        A &b = g.pick(vars);
                        if (b.t != a.t || b.obj == a.obj) { whole(a); break; }
                        bool front = g.coin();
                        text += strf("while %s_len(%s) > 0 { %s_push(%s, %s_%s(%s)) }\n", T, x, T, b.var.c_str(), T, front ? "shift" : "pop", x);
                        auto src = f(a.obj);
                        if (!front) std::reverse(src.begin(), src.end());
                        f(a.obj).clear();
                        for (auto &y : src) f(b.obj).push_back(y);
                        ++moves;
                        break;
                    }
                    case 2: {  // in a function, which gets it as an argument
                        std::string s = ex(a.t, v);
                        text += strf("f_%s(%s, %s)\n", T, x, s.c_str());
                        auto &q = f(a.obj);
                        q.push_back(v);
                        q.insert(q.begin(), v);
                        break;
                    }
                    default: {
                        std::string s = ex(5, v);
                        std::string nm = strf("s%zu", names.size());
                        if (names.size() > 6) { whole(a); break; }
                        text += nm + " := " + s + "\n";
                        names.push_back(nm);
                        structs.push_back(v);
                    }
                }
        }
    }
};
void script(Gen &g, Case &c, bool longer) {
    W w(g);
    w.text = "struct P { id: int }\nfunc id(x: int): int { return x }\n";
    for (int t = 0; t < W::NT; ++t) w.text += strf("use array(\"%s\") as %s\n", W::elem(t), W::arr(t));
    for (int t = 0; t < W::NT; ++t) w.text += strf("func f_%s(a: %s, e: %s): int { %s_push(a, e) %s_insert(a, 0, e) return %s_len(a) }\n", W::arr(t), W::arr(t), W::elem(t), W::arr(t), W::arr(t), W::arr(t));
    int n0 = (int)g.range(1, 4);
    for (int i = 0; i < n0; ++i) {
        int t = (int)g.below(W::NT);
        Val o = w.m.newObj(MObj::Arr);
        w.vars.push_back({strf("v%d", i), t, o.o});
        w.text += strf("v%d := %s()\n", i, W::arr(t));
    }
    int n = (int)(longer ? g.range(60, 200) : g.range(3, 40));
    for (int i = 0; i < n; ++i) w.op();
    for (auto &a : w.vars) w.whole(a);
    c.say(w.text);
    for (size_t i = 0; i < w.tab.v.size(); ++i) c.say(strf("// hs(%zu) = %s\n", i, quote(*w.tab.v[i]).c_str()));
    c.nontrivial = w.ops >= 5 && w.maxLen >= 2 && w.moves > 0;
    c.labelIf(w.sorts > 0, "sorted");
    c.label(w.maxLen > 50 ? "length: over 50" : w.maxLen > 8 ? "length: 9 to 50" : "length: to 8");
    table() = &w.tab;
    Host h;
    bindStrings(h.state);
    h.mustCompile(w.text);
    Thread t(h);
    t.start();
    if (g.coin()) { uint64_t every = g.coin() ? 1 : g.range(2, 30), k = 0; do { if (k++ % every == 0) t.t->maxNumObjects = 0; } while (t.step()); }
    else t.run();
    compareTrace(w.trace, t.trace);
    PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    t.destroy();
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain after the thread was destroyed", t.ctx.live.size());
}
// Sorting: every permutation and length, with extreme values.
void sorting(Gen &g, Case &c) {
    int n = (int)(g.chance(1, 10) ? g.range(50, 400) : g.below(20)), kind = (int)g.below(4);
    std::vector<int64_t> v;
    for (int i = 0; i < n; ++i) v.push_back(kind == 0 ? g.range(0, 3) : kind == 1 ? someInt(g) : kind == 2 ? (int64_t)g.bits64() : g.range(-1000, 1000));
    std::string s = "use array(\"int\") as ints\na := ints()\n";
    Host h;
    for (int i = 0; i < n; ++i) s += strf("ints_push(a, inpt(%d))\n", i);
    s += "ints_sort(a)\nemit(a)\n";
    if (n > 100) s = strf("use array(\"int\") as ints\na := ints()\nfor i := 0; i < %d; i += 1 { ints_push(a, inpt(i)) }\nints_sort(a)\nemit(a)\n", n);
    c.say(s + "// inpt:");
    for (auto x : v) c.say(strf(" %lld", (long long)x));
    static thread_local std::vector<int64_t> *cur;
    cur = &v;
    Tiny_BindFunction(h.state, "inpt(int): int", [](Tiny_StateThread *, const Tiny_Value *a, int) { return Tiny_NewInt((*cur)[Tiny_ToInt(a[0])]); });
    h.mustCompile(s);
    Thread t(h);
    t.start();
    t.run();
    std::sort(v.begin(), v.end());
    std::string want = "emit #0[";
    for (size_t i = 0; i < v.size(); ++i) want += (i ? "," : "") + std::to_string(v[i]);
    want += "]";
    if (n <= 60) compareTrace({want}, t.trace);
    else {
        Array *a = (Array *)Tiny_ToAddr(Tiny_GetGlobal(t.t.get(), Tiny_GetGlobalIndex(h.state, "a")));
        PBT_CHECK(ArrayLen(a) == n, "length %d after sorting instead of %d", ArrayLen(a), n);
        for (int i = 0; i < n; ++i) PBT_CHECK(Tiny_ToInt(*ArrayGet(a, i)) == v[i], "element %d after sorting is %lld instead of %lld", i, (long long)Tiny_ToInt(*ArrayGet(a, i)), (long long)v[i]);
    }
    c.nontrivial = n >= 3;
    c.labelIf(n > 49, "long");
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C15";
    p.title = "Arrays behave as mathematical sequences";
    p.assumptions = {"indices are within the array (insert: below its length); lengths are not negative", "resize grows with null, so it is only used to shrink arrays whose element type has no null"};
    p.families.push_back({"container", "at least five operations, one of them moving elements, and two elements", [](Gen &g, Case &c) { container(g, c, false); }, 60000, 8000000});
    p.families.push_back({"long container", "at least five operations, one of them moving elements, and two elements", [](Gen &g, Case &c) { container(g, c, true); }, 3000, 400000});
    p.families.push_back({"large container", "at least five operations, one of them moving elements, and two elements", [](Gen &g, Case &c) { container(g, c, false, true); }, 1500, 200000});
    p.families.push_back({"script", "at least five operations, one of them moving elements, and two elements", [](Gen &g, Case &c) { script(g, c, false); }, 7000, 900000});
    p.families.push_back({"long script", "at least five operations, one of them moving elements, and two elements", [](Gen &g, Case &c) { script(g, c, true); }, 900, 120000});
    p.families.push_back({"sorting", "at least three elements", sorting, 5000, 600000});
    return run(argc, argv, p);
}
