#include "lang.h"
using namespace pbt;
using namespace lang;

namespace {
struct Kinds {
    std::set<std::pair<const void *, const Type *>> seen;
    uint64_t checked = 0;
    std::string where;
    [[noreturn]] void bad(const std::string &path, const Type *t, int kind) {
        static const char *names[] = {"null", "bool", "int", "float", "string", "constant string", "native", "light native", "struct"};
        fail(strf("%s has static type %s but holds a %s", path.c_str(), t->name().c_str(), kind >= 0 && kind <= 8 ? names[kind] : "value of unknown kind"));
    }
    void check(const Type *t, const Tiny_Value &v, const std::string &path) {
        ++checked;
        switch (t->k) {
            case K::Bool: if (v.type != TINY_VAL_BOOL) bad(path, t, v.type); return;
            case K::Int: if (v.type != TINY_VAL_INT) bad(path, t, v.type); return;
            case K::Float: if (v.type != TINY_VAL_FLOAT) bad(path, t, v.type); return;
            case K::Str: if (v.type != TINY_VAL_STRING && v.type != TINY_VAL_CONST_STRING) bad(path, t, v.type); return;
            case K::Any: if (v.type == TINY_VAL_NULL) return; if (t->inner->k != K::Void) check(t->inner, v, path); return;
            case K::Nullable: if (v.type == TINY_VAL_NULL) return; check(t->inner, v, path); return;
            case K::Nat: native(t, v, "nat", path); return;
            case K::Struct: {
                if (v.type != TINY_VAL_STRUCT) bad(path, t, v.type);
                if (!seen.insert({v.obj, t}).second) return;
                int n = shim_struct_count(v);
                PBT_CHECK(n == (int)t->st->fields.size(), "%s has static type %s with %zu fields but holds an object with %d", path.c_str(), t->name().c_str(), t->st->fields.size(), n);
                for (int i = 0; i < n; ++i) check(t->st->fields[i].type, Tiny_GetField(v, i), path + "." + t->st->fields[i].name);
                return;
            }
            case K::Array: {
                native(t, v, "array", path);
                if (!seen.insert({v.obj, t}).second) return;
                Array *a = (Array *)Tiny_ToAddr(v);
                for (int i = 0; i < ArrayLen(a); ++i) check(t->inner, *ArrayGet(a, i), strf("%s[%d]", path.c_str(), i));
                return;
            }
            case K::Dict: native(t, v, "dict", path); return;
            default: return;
        }
    }
    void native(const Type *t, const Tiny_Value &v, const char *name, const std::string &path) {
        if (v.type != TINY_VAL_NATIVE) bad(path, t, v.type);
        const Tiny_NativeProp *p = Tiny_GetProp(v);
        PBT_CHECK(p && p->name && !strcmp(p->name, name), "%s has static type %s but holds a native of another kind", path.c_str(), t->name().c_str());
    }
};

void one(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg, g.chance(1, 3));
    Host h;
    h.mustCompile(d.text.text);
    Thread t(h);
    t.start();
    std::vector<std::pair<Var *, int>> globals;
    for (Var *v : d.p.globals) {
        int i = Tiny_GetGlobalIndex(h.state, v->name.c_str());
        PBT_CHECK(i >= 0, "the global %s is not known", v->name.c_str());
        globals.push_back({v, i});
    }
    Kinds k;
    auto all = [&](bool end) {
        k.seen.clear();
        for (auto &q : globals) {
            Tiny_Value v = Tiny_GetGlobal(t.t.get(), q.second);
            if (Tiny_IsNull(v) && (!end || d.m->globals[q.first->slot].t == Val::Nul)) continue;  // its declaration has not run
            k.check(q.first->type, v, q.first->name);
        }
    };
    uint64_t n = 0, stride = 1 + g.below(5);
    while (t.step()) {
        if (++n % stride == 0 && n < 4000) all(false);
    }
    all(true);
    d.check(t);
    c.nontrivial = k.checked >= 20 && d.m->trace.size() >= 2;
    std::set<int> ks;
    for (Var *v : d.p.globals) ks.insert((int)v->type->k);
    for (int x : ks) { static const char *nm[] = {"void", "bool", "int", "float", "str", "any", "native", "struct", "nullable", "array", "dict"}; c.label(std::string("global:") + nm[x]); }
}

// Functions and structs used before they are defined, values passed through every kind of declaration.
void typesOnly(Gen &g, Case &c) {
    // A type is a base with an optional "?"; every slot of every kind is declared with it and a value of
    // it (or of a narrower type) travels from slot to slot and is observed in each.
    struct Ty { std::string name; std::vector<std::pair<std::string, std::string>> vals; };  // expression, dump
    std::vector<Ty> base = {
        {"int", {{"0", "0"}, {"-3", "-3"}, {"70000", "70000"}, {"ti(5)", "5"}, {"KI", "70000"}}},
        {"float", {{"0.5", "f0x1p-1"}, {"-2.0", "f-0x1p+1"}, {"1 + 0.5", "f0x1.8p+0"}, {"KF", "f" + fmtFloat(0.1)}, {"3 / 2.0", "f0x1.8p+0"}}},
        {"bool", {{"true", "true"}, {"!true", "false"}, {"1 < 2", "true"}, {"KB", "true"}}},
        {"str", {{"\"\"", "\"\""}, {"\"abc\"", "\"abc\""}, {"KS", "\"host string\""}, {"strcat(\"a\", \"b\")", "\"ab\""}}},
        {"S", {{"new S{1, cast(null, S?)}", "#0{1,null}"}, {"new S{2, new S{3, cast(null, S?)}}", "#0{2,#1{3,null}}"}}},
        {"Nat", {{"nat(4)", "#0<nat 4>"}}},
        {"dict", {{"dict()", "#0dict{}"}, {"dict(1, 2)", "#0dict{1:2,}"}}},
        {"arr", {{"arr()", "#0[]"}, {"arr(1, 2)", "#0[1,2]"}}},
    };
    std::string decls, stmts, funcs;
    std::vector<std::string> want;
    int n = (int)g.range(1, 6);
    bool usedNull = false, chained = false;
    for (int i = 0; i < n; ++i) {
        Ty &b = base[g.below(base.size())];
        int mode = (int)g.below(3);  // plain, nullable, any
        std::string ty = mode == 0 ? b.name : mode == 1 ? b.name + "?" : "any";
        std::string e, dump;
        if (mode && g.chance(1, 3)) { e = mode == 1 ? "cast(null, " + ty + ")" : "null"; dump = "null"; usedNull = true; }
        else { auto &v = b.vals[g.below(b.vals.size())]; e = v.first; dump = v.second; }
        auto traced = [&](int times) { for (int k = 0; k < times; ++k) if (e.compare(0, 3, "ti(") == 0) want.push_back("ti 5"); };
        auto see = [&](const std::string &d) { want.push_back("emit " + d); };
        int hops = (int)g.range(1, 5);
        chained |= hops >= 2;
        std::string cur = e, curTy = e == "null" ? "any" : dump == "null" ? ty : b.name;
        traced(1);
        for (int k = 0; k < hops; ++k) {
            std::string id = strf("%d_%d", i, k);
            bool infer = g.chance(1, 3) || ty == curTy ? g.coin() : false;
            // the type narrows to the static type of the value when it is inferred
            switch (g.below(6)) {
                case 0:
                    stmts += "v" + id + (infer ? " := " : ": " + ty + " = ") + cur + "\n";
                    if (!infer) curTy = ty;
                    cur = "v" + id;
                    break;
                case 1:
                    funcs += "func f" + id + "(x: " + ty + "): " + ty + " { return x }\n";
                    stmts += "v" + id + " := " + (g.coin() && cur[0] == 'v' ? cur + "->f" + id + "()" : "f" + id + "(" + cur + ")") + "\n";
                    curTy = ty;
                    cur = "v" + id;
                    break;
                case 2:
                    funcs += "struct T" + id + " { before: int x: " + ty + " after: str }\n";
                    stmts += "t" + id + " := new T" + id + (g.coin() ? "{1, " + cur + ", \"z\"}\n" : "{.before = 1, .x = " + cur + ", .after = \"z\"}\n") + "v" + id + " := t" + id + ".x\n";
                    curTy = ty;
                    cur = "v" + id;
                    break;
                case 3:
                    funcs += "func f" + id + "(x: " + ty + "): " + ty + " { y" + (infer ? " := x" : ": " + ty + " = x") + " if (1 < 2) return y else { z: " + ty + " = y return z } }\n";
                    stmts += "v" + id + ": " + ty + " = f" + id + "(" + cur + ")\n";
                    curTy = ty;
                    cur = "v" + id;
                    break;
                case 4:
                    stmts += "v" + id + " := cast(cast(" + cur + ", any), " + ty + ")\n";
                    curTy = ty;
                    cur = "v" + id;
                    break;
                default:
                    stmts += "v" + id + " := if (true) " + "(" + cur + ") else (" + cur + ")\n";
                    cur = "v" + id;
                    break;
            }
            stmts += "emit(" + cur + ")\n";
            see(dump);
        }
        c.label("type:" + ty);
    }
    std::string text;
    std::string head = "use array(\"int\") as arr\nstruct S { n: int next: S? }\n";
    text = g.coin() ? head + funcs + stmts : head + stmts + funcs;
    c.say(text);
    c.nontrivial = chained;
    c.labelIf(usedNull, "null");
    Host h;
    h.mustCompile(text);
    Thread t(h);
    t.start();
    t.run();
    compareTrace(want, t.trace);
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C04";
    p.title = "Well-typed programs are accepted and values have their declared types";
    p.assumptions = {"casts from any are made to the type of the value they hold"};
    Cfg cfg;
    cfg.maxStructs = 4; cfg.maxGlobals = 8; cfg.items = 12; cfg.hostCalls = true;
    std::string rule = "at least 20 values were compared with their static types and the program made at least two observations";
    p.families.push_back({"programs", rule, [=](Gen &g, Case &c) { one(g, c, cfg); }, 9000, 1500000});
    p.families.push_back({"travel", "a value passes through at least two declarations", typesOnly, 14000, 3000000});
    return run(argc, argv, p);
}
