#include <algorithm>
#include "vals.h"
using namespace vals;

namespace {
const int64_t muls[] = {0, 32, 64, 32 * 7, 1024, -32, 4294967296LL};
// The text by which two keys or values are the same exactly if they are equal.
std::string canon(Tiny_Value v) {
    switch (v.type) {
        case TINY_VAL_NULL: return "null";
        case TINY_VAL_BOOL: return v.boolean ? "true" : "false";
        case TINY_VAL_INT: return "i" + std::to_string(v.i);
        case TINY_VAL_FLOAT: return "f" + fmtFloat(v.f == 0 ? 0.0 : v.f);
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return "s" + quote(std::string(Tiny_ToString(v), Tiny_StringLen(v)));
        case TINY_VAL_STRUCT: return "P" + std::to_string(Tiny_ToInt(Tiny_GetField(v, 1)));
        case TINY_VAL_LIGHT_NATIVE: return strf("L%p", Tiny_ToAddr(v));
        case TINY_VAL_NATIVE: {
            const Tiny_NativeProp *p = Tiny_GetProp(v);
            std::string n = p && p->name ? p->name : "?";
            if (n == "nat") return "N" + std::to_string(((NatRec *)Tiny_ToAddr(v))->id);
            return strf("%s%p", n.c_str(), Tiny_ToAddr(v));
        }
        default: return strf("<kind %d>", v.type);
    }
}
typedef std::map<std::string, std::string> Map;

// ---- the C container, with keys of every kind made by the host
void container(Gen &g, Case &c, bool longer) {
    Host h;
    h.mustCompile("hook(0)\n");
    Thread t(h);
    Ctx cx;
    bool collide = g.coin();
    size_t poolSize = g.chance(1, 3) ? g.range(30, 150) : g.range(2, 25);
    int ops = (int)(longer ? g.range(100, 700) : g.range(3, 60));
    struct Cell { int x; };
    static Cell cells[4096];
    t.hook = [&](Thread &t, const Tiny_Value *, int) {
        std::vector<Tiny_Value> pool;
        std::vector<std::string> names;
        static std::vector<std::unique_ptr<std::string>> keep;
        keep.clear();
        auto key = [&](size_t i) -> Tiny_Value {
            int kind = collide ? (int)g.weighted({6, 1, 1, 1, 1, 1, 1}) : (int)g.below(7);
            switch (kind) {
                case 0: {
                    // many land in the same or neighbouring buckets
                    int64_t base = g.range(0, collide ? 3 : 40), mul = muls[g.below(7)];
                    return Tiny_NewInt(base + mul * g.range(0, 6));
                }
                case 1: return Tiny_NewInt(someInt(g));
                case 2: return Tiny_NewFloat(someFloat(g));
                case 3: return Tiny_NewBool(g.coin());
                case 4: {
                    keep.emplace_back(new std::string(someStr(g, true)));
                    const std::string &s = *keep.back();
                    if (s.find('\0') == std::string::npos && g.coin()) return Tiny_NewConstString(s.c_str());
                    return Tiny_NewStringCopy(t.t.get(), s.data(), s.size());
                }
                case 5: return Tiny_NewLightNative(g.chance(1, 8) ? nullptr : (void *)&cells[g.below(collide ? 8 : 4096)]);
                default: {
                    t.nats.emplace_back(new NatRec{(int64_t)i, &t});
                    static const Tiny_NativeProp prop = {"nat", nullptr, nullptr};
                    return Tiny_NewNative(t.t.get(), t.nats.back().get(), &prop);
                }
            }
        };
        for (size_t i = 0; i < poolSize; ++i) { pool.push_back(key(i)); names.push_back(canon(pool.back())); }
        Dict d;
        InitDict(&d, cx.ctx());
        Map m;
        size_t maxLen = 0, removed = 0, val = 0;
        auto get = [&](size_t k) {
            const Tiny_Value *v = DictGet(&d, pool[k]);
            auto it = m.find(names[k]);
            if (it == m.end()) PBT_CHECK(!v, "%s is found although it is not in the dict", names[k].c_str());
            else {
                PBT_CHECK(v, "%s is not found", names[k].c_str());
                PBT_CHECK(canon(*v) == it->second, "%s has the value %s instead of %s", names[k].c_str(), canon(*v).c_str(), it->second.c_str());
            }
        };
        int grow = (int)g.below(3);
        for (int o = 0; o < ops; ++o) {
            size_t k = g.below(poolSize);
            switch (grow == 0 ? g.weighted({4, 3, 3, 0}) : grow == 1 ? g.weighted({6, 2, 2, 0}) : g.weighted({20, 10, 20, 1})) {
                case 0: { Tiny_Value v = g.chance(1, 12) ? Tiny_Null : Tiny_NewInt((int64_t)++val); c.say("put " + names[k] + " " + canon(v) + "\n"); DictSet(&d, pool[k], v); m[names[k]] = canon(v); break; }
                case 1: c.say("get " + names[k] + "\n"); get(k); break;
                case 2: c.say("remove " + names[k] + "\n"); if (m.erase(names[k])) ++removed; DictRemove(&d, pool[k]); break;
                default: c.say("clear\n"); DictClear(&d); m.clear(); break;
            }
            maxLen = std::max(maxLen, m.size());
            if (g.chance(1, 6) || o == ops - 1) for (size_t i = 0; i < poolSize; ++i) get(i);
        }
        DestroyDict(&d);
        cx.check("context");
        PBT_CHECK(cx.live.empty(), "%zu blocks remain after the dict was destroyed", cx.live.size());
        c.nontrivial = ops >= 5 && maxLen >= 3 && removed > 0;
        c.label(maxLen > 40 ? "size: over 40" : maxLen > 15 ? "size: 16 to 40" : "size: to 15");
        c.labelIf(collide, "colliding keys");
        return Tiny_Null;
    };
    t.start();
    t.run();
}

// ---- scripts
struct W {
    Gen &g;
    StrTable tab;
    std::string text;
    struct Obj { Map m; bool si; };       // si: dict_str_int
    std::vector<std::unique_ptr<Obj>> objs;
    struct Var { std::string name; int obj; };
    std::vector<Var> vars;
    // expected at each hook call: what the enumeration must be, or the text of a single value
    struct Want { bool enumeration; bool keysOnly; Map m; std::string one; };
    std::vector<Want> wants;
    int structs = 0, nats = 0, ops = 0, removed = 0, enums = 0, vi = 0;
    size_t maxLen = 0;
    bool collide;
    explicit W(Gen &g) : g(g) { collide = g.coin(); }

    std::string key(std::string &canonText) {
        switch (collide ? g.weighted({5, 1, 1, 1, 1, 1, 1, 2}) : g.below(8)) {
            case 0: { int64_t v = g.range(0, 3) + 32 * g.range(0, 4); canonText = "i" + std::to_string(v); return intText(v); }
            case 1: { int64_t v = g.coin() ? g.range(-3, 40) : someInt(g); canonText = "i" + std::to_string(v); return intText(v); }
            case 2: { double v = someFloat(g); canonText = "f" + fmtFloat(v == 0 ? 0.0 : v); return fltText(v); }
            case 3: { bool b = g.coin(); canonText = b ? "true" : "false"; return canonText; }
            case 4: if (structs) { int k = (int)g.below(structs); canonText = "P" + std::to_string(k); return strf("p%d", k); } [[fallthrough]];
            case 5: if (nats) { int k = (int)g.below(nats); canonText = "N" + std::to_string(k); return strf("n%d", k); } [[fallthrough]];
            case 6: { int64_t v = g.range(0, 5); canonText = strf("L%p", (void *)(intptr_t)v); return strf("int_to_i64(%lld)", (long long)v); }
            default: return skey(canonText);
        }
    }
    std::string skey(std::string &ct) {
        std::string s = g.chance(2, 3) ? strf("k%d", (int)g.below(30)) : someStr(g, true);
        ct = "s" + quote(s);
        return strEx(g, tab, s);
    }
    std::string value(std::string &ct) {
        if (g.chance(1, 10)) { ct = "null"; return "null"; }
        if (g.chance(1, 4)) return skey(ct);
        if (g.chance(1, 6) && structs) { int k = (int)g.below(structs); ct = "P" + std::to_string(k); return strf("p%d", k); }
        ++vi;
        ct = "i" + std::to_string(vi);
        return std::to_string(vi);
    }
    void one(const std::string &ex, const std::string &ct) { text += strf("hook(%zu, %s)\n", wants.size(), ex.c_str()); wants.push_back({false, false, {}, ct}); }
    void all(const Var &v) {
        Obj &o = *objs[v.obj];
        ++enums;
        if (o.si) text += strf("hook(%zu, dict_str_int_keys(%s))\n", wants.size(), v.name.c_str());
        else text += strf("hook(%zu, dict_keys(%s), dict_values(%s))\n", wants.size(), v.name.c_str(), v.name.c_str());
        wants.push_back({true, o.si, o.m, ""});
    }
    std::string fn(const Var &v, const char *name, const std::string &args) {
        const char *p = objs[v.obj]->si ? "dict_str_int" : "dict";
        if (g.coin()) return strf("%s->%s_%s(%s)", v.name.c_str(), p, name, args.c_str());
        return strf("%s_%s(%s%s%s)", p, name, v.name.c_str(), args.empty() ? "" : ", ", args.c_str());
    }
    void op() {
        ++ops;
        if (structs && g.chance(1, 5)) {
            // a key stays the same key whatever it contains
            int k = (int)g.below(structs);
            switch (g.below(3)) {
                case 0: text += strf("p%d.n = %d\n", k, (int)g.range(0, 40)); break;
                case 1: text += strf("p%d.n += 1\n", k); break;
                default: text += strf("p%d.any_ = p%d\n", k, (int)g.below(structs)); break;
            }
        }
        Var &v = g.pick(vars);
        Obj &o = *objs[v.obj];
        std::string k, ck, x, cx;
        if (o.si) k = skey(ck); else k = key(ck);
        // prefer keys which are there
        maxLen = std::max(maxLen, o.m.size());
        int what = (int)g.below(15);
        switch (what) {
            case 0: case 1: case 2: case 3: put:
                if (o.si) { int n = ++vi; x = std::to_string(n); cx = "i" + x; } else x = value(cx);
                if (!o.si && ck[0] == 's' && g.chance(1, 3)) text += v.name + "[" + k + "] = " + x + "\n";
                else text += fn(v, "put", k + ", " + x) + "\n";
                o.m[ck] = cx;
                break;
            case 4: case 5: case 6: {
                bool has = o.m.count(ck);
                if (!has && o.si) goto put;   // there is no int for it
                if (!o.si && ck[0] == 's' && g.chance(1, 3)) one(v.name + "[" + k + "]", has ? o.m[ck] : "null");
                else one(fn(v, "get", k), has ? o.m[ck] : "null");
                break;
            }
            case 7: case 8: one(fn(v, "exists", k), o.m.count(ck) ? "true" : "false"); break;
            case 9: case 10: case 11: if (o.m.erase(ck)) ++removed; text += fn(v, "remove", k) + "\n"; break;
            case 12:
                if (g.chance(1, 4)) { text += fn(v, "clear", "") + "\n"; o.m.clear(); break; }
                {  // a range of keys, at once
                    int n = (int)g.range(5, 60), st = (int)g.below(20);
                    if (o.si) {
                        text += strf("for q%d := %d; q%d < %d; q%d += 1 { dict_str_int_put(%s, strcat(\"k\", int_to_str(q%d)), q%d) }\n", ops, st, ops, st + n, ops, v.name.c_str(), ops, ops);
                        for (int i = st; i < st + n; ++i) o.m["s" + quote(strf("k%d", i))] = "i" + std::to_string(i);
                    } else {
                        int mul = g.coin() ? 1 : 32;
                        text += strf("for q%d := %d; q%d < %d; q%d += 1 { dict_put(%s, q%d * %d, q%d) }\n", ops, st, ops, st + n, ops, v.name.c_str(), ops, mul, ops);
                        for (int i = st; i < st + n; ++i) o.m["i" + std::to_string((int64_t)i * mul)] = "i" + std::to_string(i);
                    }
                }
                break;
            case 13: {
                // removes a range of keys in the middle of others
                int n = (int)g.range(2, 30), st = (int)g.below(30);
                if (o.si) {
                    text += strf("for q%d := %d; q%d < %d; q%d += 1 { dict_str_int_remove(%s, strcat(\"k\", int_to_str(q%d))) }\n", ops, st, ops, st + n, ops, v.name.c_str(), ops);
                    for (int i = st; i < st + n; ++i) removed += (int)o.m.erase("s" + quote(strf("k%d", i)));
                } else {
                    int mul = g.coin() ? 1 : 32;
                    text += strf("for q%d := %d; q%d < %d; q%d += 1 { dict_remove(%s, q%d * %d) }\n", ops, st, ops, st + n, ops, v.name.c_str(), ops, mul);
                    for (int i = st; i < st + n; ++i) removed += (int)o.m.erase("i" + std::to_string((int64_t)i * mul));
                }
                break;
            }
            default:
                if (vars.size() < 6 && g.coin()) {
                    Var w{strf("d%zu", vars.size()), v.obj};
                    if (g.chance(1, 3)) text += w.name + " := " + v.name + "\n";
                    else fresh(w);
                    vars.push_back(w);
                } else all(v);
        }
    }
    void fresh(Var &w) {
        auto o = std::make_unique<Obj>();
        o->si = g.chance(1, 3);
        std::string args;
        int n = (int)g.below(g.chance(1, 5) ? 20 : 4);
        for (int i = 0; i < n; ++i) {
            std::string k, ck, x, cx;
            if (o->si) { k = skey(ck); x = std::to_string(++vi); cx = "i" + x; } else { k = key(ck); x = value(cx); }
            args += (i ? ", " : "") + k + ", " + x;
            o->m[ck] = cx;
        }
        text += w.name + " := " + (o->si ? "dict_str_int(" : "dict(") + args + ")\n";
        w.obj = (int)objs.size();
        objs.push_back(std::move(o));
    }
};
void script(Gen &g, Case &c, bool longer) {
    W w(g);
    w.text = "struct P { n: int id: int any_: any }\n";
    w.structs = (int)g.below(5);
    w.nats = (int)g.below(4);
    for (int i = 0; i < w.structs; ++i) w.text += strf("p%d := new P{0, %d, null}\n", i, i);
    for (int i = 0; i < w.nats; ++i) w.text += strf("n%d := nat(%d)\n", i, i);
    int nd = (int)g.range(1, 2);
    for (int i = 0; i < nd; ++i) { W::Var v{strf("d%d", i), 0}; w.fresh(v); w.vars.push_back(v); }
    int n = (int)(longer ? g.range(60, 160) : g.range(3, 40));
    for (int i = 0; i < n; ++i) w.op();
    for (auto &v : w.vars) w.all(v);
    c.say(w.text);
    for (size_t i = 0; i < w.tab.v.size(); ++i) c.say(strf("// string %zu = %s\n", i, quote(*w.tab.v[i]).c_str()));
    c.nontrivial = w.ops >= 5 && w.maxLen >= 3 && w.removed > 0;
    c.label(w.maxLen > 40 ? "size: over 40" : w.maxLen > 15 ? "size: 16 to 40" : "size: to 15");
    c.labelIf(w.collide, "colliding keys");
    table() = &w.tab;
    Host h;
    Tiny_BindI64(h.state);
    bindStrings(h.state);
    h.mustCompile(w.text);
    Thread t(h);
    size_t seen = 0;
    t.hook = [&](Thread &, const Tiny_Value *a, int n) {
        size_t i = (size_t)Tiny_ToInt(a[0]);
        PBT_CHECK(i == seen++, "observation %zu comes where %zu should", i, seen - 1);
        const W::Want &want = w.wants[i];
        if (!want.enumeration) { std::string got = canon(a[1]); PBT_CHECK(got == want.one, "observation %zu is %s instead of %s", i, got.c_str(), want.one.c_str()); return Tiny_Null; }
        Array *k = (Array *)Tiny_ToAddr(a[1]), *v = want.keysOnly ? nullptr : (Array *)Tiny_ToAddr(a[2]);
        PBT_CHECK(ArrayLen(k) == (int)want.m.size(), "enumeration %zu has %d keys instead of %zu", i, ArrayLen(k), want.m.size());
        if (v) PBT_CHECK(ArrayLen(v) == ArrayLen(k), "enumeration %zu has %d values for %d keys", i, ArrayLen(v), ArrayLen(k));
        std::set<std::string> got;
        for (int q = 0; q < ArrayLen(k); ++q) {
            std::string key = canon(*ArrayGet(k, q));
            PBT_CHECK(got.insert(key).second, "enumeration %zu contains %s twice", i, key.c_str());
            auto it = want.m.find(key);
            PBT_CHECK(it != want.m.end(), "enumeration %zu contains %s, which is not in the dict", i, key.c_str());
            if (v) { std::string x = canon(*ArrayGet(v, q)); PBT_CHECK(x == it->second, "in enumeration %zu the value at the place of %s is %s instead of %s", i, key.c_str(), x.c_str(), it->second.c_str()); }
        }
        return Tiny_Null;
    };
    t.start();
    if (g.coin()) { uint64_t every = g.coin() ? 1 : g.range(2, 30), k = 0; do { if (k++ % every == 0) t.t->maxNumObjects = 0; } while (t.step()); }
    else t.run();
    PBT_CHECK(seen == w.wants.size(), "%zu observations instead of %zu", seen, w.wants.size());
    PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    t.destroy();
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain after the thread was destroyed", t.ctx.live.size());
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C16";
    p.title = "Dictionaries behave as finite maps";
    p.assumptions = {"keys are not null and not NaN"};
    p.families.push_back({"container", "at least five operations, three bindings at a time, and a removal", [](Gen &g, Case &c) { container(g, c, false); }, 12000, 1500000});
    p.families.push_back({"long container", "at least five operations, three bindings at a time, and a removal", [](Gen &g, Case &c) { container(g, c, true); }, 4000, 500000});
    p.families.push_back({"script", "at least five operations, three bindings at a time, and a removal", [](Gen &g, Case &c) { script(g, c, false); }, 7000, 900000});
    p.families.push_back({"long script", "at least five operations, three bindings at a time, and a removal", [](Gen &g, Case &c) { script(g, c, true); }, 1200, 150000});
    return run(argc, argv, p);
}
