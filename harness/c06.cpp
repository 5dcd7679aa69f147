#include "fuzztext.h"
#include "lang.h"
using namespace pbt;
using namespace lang;

namespace {
// functions bound before the text is compiled; their types may be ones nothing has defined
std::vector<std::string> bound;
Tiny_Value noFn(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_Null; }
struct Out { bool ok; int pos; std::string msg; };
Out compileOnce(const std::string &text, const std::string &name, bool checkRun, bool json) {
    Host h;
    h.stateCtx.cap = (64u << 20) + text.size() * 4096;
    for (auto &b : bound) Tiny_BindFunction(h.state, b.c_str(), noFn);
    // exactly sized copies, so that reading outside is noticed
    std::unique_ptr<char[]> t(new char[text.size() + 1]), nm(new char[name.size() + 1]);
    memcpy(t.get(), text.c_str(), text.size() + 1);
    memcpy(nm.get(), name.c_str(), name.size() + 1);
    Tiny_CompileResult r;
    memset(&r, 0xA7, sizeof r);
    r = Tiny_CompileString(h.state, nm.get(), t.get());
    Out o;
    PBT_CHECK(r.type == TINY_COMPILE_SUCCESS || r.type == TINY_COMPILE_ERROR, "compile result of unknown type %d", (int)r.type);
    o.ok = r.type == TINY_COMPILE_SUCCESS;
    o.pos = 0;
    if (!o.ok) {
        const char *e = (const char *)memchr(r.error.msg, 0, sizeof r.error.msg);
        PBT_CHECK(e, "the error message is not terminated");
        o.msg = r.error.msg;
        o.pos = r.error.pos;
        PBT_CHECK(!o.msg.empty(), "the error message is empty");
        PBT_CHECK(o.pos >= 0 && (size_t)o.pos <= text.size(), "error position %d in a text of %zu bytes", o.pos, text.size());
        PBT_CHECK(o.msg.find(name) != std::string::npos, "the message does not name the file %s: %.300s", name.c_str(), o.msg.c_str());
    }
    h.stateCtx.check("state context");
    PBT_CHECK(h.stateCtx.peak < (4u << 20) + text.size() * 1500, "compiling %zu bytes of text took %zu bytes of memory", text.size(), h.stateCtx.peak);
    // the state stays usable
    Tiny_CompileResult r2 = Tiny_CompileString(h.state, "after", "verif_after_1 := ti(41) + 1\n");
    if (!o.ok) PBT_CHECK(r2.type == TINY_COMPILE_SUCCESS, "after the error a valid text is rejected: %.200s", r2.error.msg);
    if (!o.ok && checkRun) {
        Thread th(h);
        th.start();
        th.run();
        PBT_CHECK(th.global("verif_after_1") == "42", "after the error a valid text computes %s", th.global("verif_after_1").c_str());
    }
    Tiny_DeleteState(h.state);
    h.state = nullptr;
    h.stateCtx.check("state context");
    PBT_CHECK(h.stateCtx.live.empty(), "%zu blocks (%zu bytes) remain after the state was deleted", h.stateCtx.live.size(), h.stateCtx.cur);
    return o;
}
void judge(Gen &g, Case &c, const std::string &text) {
    c.say(text);
    for (auto &b : bound) c.say("// bound: " + b + "\n");
    static const char *names[] = {"f", "dir/some file.tiny", "a_rather_long_name_of_a_file_for_the_message_to_carry.tiny"};
    std::string name = names[g.below(3)];
    Out a = compileOnce(text, name, true, false);
    Out b = compileOnce(text, name, false, false);
    PBT_CHECK(a.ok == b.ok && a.pos == b.pos && a.msg == b.msg, "compiling the same text twice gives two results:\n  %d %d %.200s\n  %d %d %.200s", a.ok, a.pos, a.msg.c_str(), b.ok, b.pos, b.msg.c_str());
    c.label(a.ok ? "accepted" : "rejected");
    if (!a.ok) {
        // the kind of error, without what is quoted from the text
        size_t k = a.msg.find("): ");
        std::string m = k == std::string::npos ? "?" : a.msg.substr(k + 3, 18);
        for (char &ch : m) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = ' ';
        c.label("error:" + m);
    }
    c.nontrivial = text.size() >= 8;
}
void mutated(Gen &g, Case &c) {
    Cfg cfg;
    cfg.items = 6; cfg.mainBudget = 100; cfg.funcBudget = 40; cfg.maxFuncs = 2; cfg.hostCalls = true;
    Program p;
    generate(g, cfg, p);
    Layout l;
    if (g.chance(1, 4)) l.g = &g;
    std::string t = print(p, l).text;
    if (g.chance(1, 4)) t += "use array(\"int\") as nums\nuse json(\"Node0\")\nuse delegate(\"f0\") as Dlg\n";
    judge(g, c, mutateText(g, t));
}
// Small texts built from tokens by a loose grammar: mostly plausible, often wrong.
struct Loose {
    Gen &g;
    std::string o;
    int left = 120;
    void t(const char *s) { o += s; o += ' '; }
    const char *id() { static const char *v[] = {"x", "y", "z", "foo", "bar", "S", "T", "int", "emit", "ti", "KI", "KS", "null", "true", "3", "2.5", "\"s\"", "'c'", "dict", "nat"}; return v[g.below(20)]; }
    const char *name() { static const char *v[] = {"x", "y", "z", "foo", "bar", "S", "T", "a", "b"}; return v[g.below(9)]; }
    void type(int d = 2) {
        static const char *v[] = {"int", "float", "bool", "str", "any", "void", "S", "T", "Nat", "dict", "array", "func"};
        t(v[g.below(12)]);
        if (g.chance(1, 4)) t("?");
    }
    void expr(int d) {
        if (--left < 0) d = 0;
        if (d <= 0) { t(id()); return; }
        switch (g.below(13)) {
            case 0: t(id()); break;
            case 1: case 2: {
                static const char *ops[] = {"+", "-", "*", "/", "%", "&", "|", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "<<", ">>"};
                expr(d - 1); t(ops[g.below(17)]); expr(d - 1);
                break;
            }
            case 3: t("("); expr(d - 1); t(")"); break;
            case 4: t(g.coin() ? "-" : "!"); expr(d - 1); break;
            case 5: t(name()); args(d); break;
            case 6: t("new"); t(name()); t("{"); for (int i = (int)g.below(3); i > 0; --i) { if (g.chance(1, 4)) { t("."); t(name()); t("="); } expr(d - 1); if (i > 1) t(","); } t("}"); break;
            case 7: expr(d - 1); t("."); t(name()); break;
            case 8: expr(d - 1); t("["); expr(d - 1); t("]"); break;
            case 9: expr(d - 1); t("->"); t(name()); args(d); break;
            case 10: t("cast"); t("("); expr(d - 1); t(","); type(); t(")"); break;
            case 11: t("if"); expr(d - 1); expr(d - 1); t("else"); expr(d - 1); break;
            default: t(id()); args(d); break;
        }
        if (g.chance(1, 60)) t(tokenPool()[g.below(tokenPool().size())].c_str());
    }
    void args(int d) { t("("); for (int i = (int)g.below(4); i > 0; --i) { expr(d - 1); if (i > 1) t(","); } t(")"); }
    void block(int d) { if (g.chance(1, 8)) { stmt(d - 1); return; } t("{"); for (int i = (int)g.below(4); i > 0; --i) stmt(d - 1); t("}"); }
    void stmt(int d) {
        if (--left < 0) d = 0;
        if (d <= 0) { t(name()); t(":="); t(id()); o += "\n"; return; }
        switch (g.below(15)) {
            case 0: t(name()); t(":="); expr(d); break;
            case 1: t(name()); t(":"); type(); t("="); expr(d); break;
            case 2: t(name()); t("::"); expr(g.coin() ? 0 : 1); break;
            case 3: { static const char *ops[] = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&="}; expr(2); t(ops[g.below(8)]); expr(d); break; }
            case 4: t("if"); expr(2); block(d); if (g.coin()) { t("else"); block(d); } break;
            case 5: t("while"); expr(2); block(d); break;
            case 6: t("for"); t(name()); t(":="); expr(1); t(";"); expr(2); t(";"); t(name()); t("+="); expr(1); block(d); break;
            case 7: t("func"); t(name()); t("("); for (int i = (int)g.below(4); i > 0; --i) { t(name()); t(":"); type(); if (i > 1) t(","); } t(")"); t(":"); type(); block(d); break;
            case 8: t("struct"); t(name()); t("{"); for (int i = (int)g.below(4); i > 0; --i) { t(name()); t(":"); type(); } t("}"); break;
            case 9: t("return"); if (g.coin()) expr(2); break;
            case 10: t(g.coin() ? "break" : "continue"); break;
            case 11: t("emit"); args(3); break;
            case 12: t("use"); t(g.coin() ? "array" : g.coin() ? "json" : "delegate"); t("("); for (int i = (int)g.below(3); i > 0; --i) { o += "\""; o += name(); o += "\" "; if (i > 1) t(","); } t(")"); if (g.coin()) { t("as"); t(name()); } break;
            case 13: t("{"); for (int i = (int)g.below(3); i > 0; --i) stmt(d - 1); t("}"); break;
            default: expr(3); break;
        }
        o += "\n";
    }
};
void loose(Gen &g, Case &c) {
    Loose l{g};
    for (int i = (int)g.range(1, 8); i > 0; --i) l.stmt(3);
    judge(g, c, l.o);
}
// As above with functions of the host whose types only the text may define, or nothing.
void awaited(Gen &g, Case &c) {
    Loose l{g};
    static const char *sigs[] = {"mk(): S", "mkt(): T", "foo(S): T", "bar(T, S?): int", "use_s(S): int", "mks(): S?", "z(T, ...): S", "vr(S, ...): T?", "c(S): void"};
    struct Clear { ~Clear() { bound.clear(); } } clear;
    for (const char *s : sigs) if (g.chance(1, 3)) bound.push_back(s);
    std::string t;
    for (int i = (int)g.range(1, 6); i > 0; --i) {
        const char *S = g.coin() ? "S" : "T", *F = g.coin() ? "a" : "b";
        switch (g.below(16)) {
            case 0: t += strf("x%d := mk()\n", i); break;
            case 1: t += strf("emit(mk().%s)\n", F); break;
            case 2: t += strf("y%d := new %s{}\n", i, S); break;
            case 3: t += strf("y%d := new %s{.%s = 1}\n", i, S, F); break;
            case 4: t += strf("func zf%d(p: %s): int { emit(p.%s) return 1 }\n", i, S, F); break;
            case 5: t += strf("func zg%d(): %s { return mk%s() }\n", i, S, g.coin() ? "" : "t"); break;
            case 6: t += strf("struct W%d { v: %s%s }\n", i, S, g.coin() ? "?" : ""); break;
            case 7: t += strf("use array(\"%s\") as ar%d\n", S, i); break;
            case 8: t += strf("use json(\"%s\")\n", S); break;
            case 9: t += strf("emit(foo(mk()).%s)\n", F); break;
            case 10: t += strf("mk().%s = 3\n", F); break;
            case 11: t += strf("emit(mkt()[%d])\nmk()[1] = mkt()\n", i); break;
            case 12: t += strf("struct %s { a: int b: %s? }\n", S, g.coin() ? "S" : "T"); break;
            case 13: t += strf("emit(cast(null, %s).%s, cast(null, %s?) == mk(), mk()->bar(1))\n", S, F, S); break;
            case 14: t += strf("n%d: %s%s = cast(null, %s)\n", i, S, g.coin() ? "?" : "", S); break;
            default: l.left = 30; l.o.clear(); l.stmt(3); t += l.o; break;
        }
    }
    for (auto &b : bound) c.label("awaits " + b);
    judge(g, c, t);
}
void tokens(Gen &g, Case &c) {
    std::string t;
    int n = (int)g.range(1, 40);
    const auto &pool = tokenPool();
    for (int i = 0; i < n; ++i) { t += pool[g.below(pool.size())]; if (g.chance(2, 3)) t += ' '; }
    judge(g, c, t);
}
void bytes(Gen &g, Case &c) {
    std::string t;
    int n = (int)g.below(60);
    int mode = (int)g.below(3);
    for (int i = 0; i < n; ++i) t += mode == 0 ? (char)(1 + g.below(255)) : mode == 1 ? (char)(32 + g.below(95)) : "0123456789xX.eE+-_'\"\\/:=<>&|!?()[]{} \n"[g.below(43)];
    judge(g, c, t);
}
// Long or deep texts: one construct repeated or nested many times.
void large(Gen &g, Case &c) {
    int n = (int)(g.chance(1, 3) ? g.range(200, 4000) : g.range(1, 300));
    int deep = n > 450 ? 450 : n;
    std::string t, what;
    auto rep = [&](const std::string &s, int k) { std::string r; for (int i = 0; i < k; ++i) r += s; return r; };
    switch (g.below(18)) {
        case 0: t = "x := " + rep("(", deep) + "1" + rep(")", g.coin() ? deep : deep - 1) + "\n"; what = "parentheses"; break;
        case 1: t = "x := " + rep("-", deep) + "1\n"; what = "minus"; break;
        case 2: t = "x := 1" + rep(" + 1", n) + "\n"; what = "sum"; break;
        case 3: t = rep("{", deep) + rep("}", g.coin() ? deep : deep + 1); what = "blocks"; break;
        case 4: t = rep("if true ", deep) + "x := 1\n"; what = "ifs"; break;
        case 5: t = "x := \"" + rep("a", n * 10) + (g.coin() ? "\"" : ""); what = "long string"; break;
        case 6: t = rep("a", n * 4) + (g.coin() ? " := 1" : ""); what = "long name"; break;
        case 7: t = "x := " + rep("9", n) + "\n"; what = "long number"; break;
        case 8: t = "emit(" + rep("1, ", n > 300 ? 300 : n) + "1)\n"; what = "arguments"; break;
        case 9: t = "struct S {" + [&] { std::string r; for (int i = 0; i < (n > 400 ? 400 : n); ++i) r += strf(" f%d: int", i); return r; }() + " }\n"; what = "fields"; break;
        case 10: { for (int i = 0; i < n; ++i) t += strf("emit(\"string %d\")\n", i); what = "strings"; break; }
        case 11: t = "func f(" + [&] { std::string r; for (int i = 0; i < (n > 400 ? 400 : n); ++i) r += strf("%sp%d: int", i ? ", " : "", i); return r; }() + "): void {}\n"; what = "parameters"; break;
        case 12: t = "func f(): void {" + [&] { std::string r; for (int i = 0; i < (n > 400 ? 400 : n); ++i) r += strf(" l%d := %d\n", i, i); return r; }() + "}\n"; what = "locals"; break;
        case 13: t = rep("x.y", 1) + rep(".y", deep) + " = 1"; what = "field chain"; break;
        case 14: t = "x := 0x" + rep("F", n) + "\n"; what = "long hex"; break;
        case 15: t = rep("// comment\n", n) + "x := y"; what = "comments"; break;
        case 16: { std::string q; for (int i = 0; i < (n > 60 ? 60 : n); ++i) q += "?"; t = "x: int" + q + " = cast(null, int" + q + ")\n"; what = "nullable of nullable"; break; }
        default: t = "undeclared_" + rep("n", n) + "(1)\n"; what = "long name in an error"; break;
    }
    c.label(what);
    judge(g, c, t);
}
// use of the macros with odd arguments
void macros(Gen &g, Case &c) {
    std::string t;
    static const char *args[] = {"int", "float", "str", "bool", "any", "void", "S", "S?", "Missing", "", "int?", "f", "g", "emit", "dict", "arr", "a very long type name which does not exist at all anywhere in this program", "x y", "%s%d%n", "array"};
    static const char *as[] = {"arr", "S", "int", "f", "emit", "x", "dict", "arr2"};
    t += "struct S { a: int b: str next: S? }\nfunc f(x: int, s: S): str { return \"\" }\nfunc g(): void {}\nx := 1\n";
    int n = (int)g.range(1, 5);
    for (int i = 0; i < n; ++i) {
        static const char *ms[] = {"array", "json", "delegate", "nothing"};
        t += strf("use %s(", ms[g.weighted({5, 5, 5, 1})]);
        int k = (int)g.weighted({2, 8, 3, 1, 1});
        if (k == 4) k = (int)g.range(4, 40);
        for (int q = 0; q < k; ++q) t += strf("%s\"%s\"", q ? ", " : "", args[g.below(20)]);
        t += ")";
        if (g.chance(2, 3)) t += strf(" as %s", as[g.below(8)]);
        t += "\n";
    }
    if (g.coin()) t += "y := arr()\narr_push(y, 1)\nz := y[0]\n";
    if (g.coin()) t += "w := S_to_json(new S{1, \"\", cast(null, S?)})\n";
    judge(g, c, t);
}
// Names of any length in every role; the compiler builds other names and messages from them.
void longNames(Gen &g, Case &c) {
    auto name = [&](char ch) {
        static const int around[] = {31, 63, 100, 127, 128, 200, 255, 256, 512, 1024, 2048};
        int n = g.chance(2, 3) ? around[g.below(11)] + (int)g.range(-24, 8) : (int)g.range(1, 3000);
        return std::string((size_t)n, ch);
    };
    std::string S = name('s'), T = g.coin() ? name('t') : "T", F = g.coin() ? name('f') : "f", X = g.coin() ? name('x') : "x", A = g.coin() ? name('a') : "a", fn = g.coin() ? name('n') : "fn";
    std::string t = "struct " + S + " { " + F + ": int next: " + S + "? }\nstruct " + T + " { " + F + ": int }\n";
    auto mkS = "new " + S + "{1, cast(null, " + S + "?)}";
    if (g.coin()) t += "func " + S + "_get_index(v: " + S + ", i: int): int { return v." + F + " + i }\nfunc " + S + "_set_index(v: " + S + ", i: int, n: int): void { v." + F + " = n }\n";
    if (g.coin()) t += "func " + fn + "(v: " + S + ", w: " + T + "?): " + S + " { return v }\n";
    t += X + " := " + mkS + "\n";
    for (int i = (int)g.range(1, 6); i > 0; --i) switch (g.below(22)) {
        case 0: t += "emit(" + X + "[2])\n"; c.label("index"); break;
        case 1: t += X + "[2] = 5\n"; c.label("index assignment"); break;
        case 2: t += X + "." + F + " = 5\n"; break;
        case 3: t += fn + "(" + X + ", cast(null, " + T + "?))\n"; break;
        case 4: t += fn + "(new " + T + "{1}, cast(null, " + T + "?))\n"; c.label("wrong type"); break;
        case 5: t += X + "->" + fn + "(1)\n"; break;
        case 6: t += X + " = new " + T + "{1}\n"; c.label("wrong type"); break;
        case 7: t += "emit(" + X + " + new " + T + "{1})\n"; c.label("wrong type"); break;
        case 8: t += "use array(\"" + S + "\") as " + A + "\nq" + A + " := " + A + "()\n" + A + "_push(q" + A + ", " + X + ")\nemit(q" + A + "[0]." + F + ")\nq" + A + "[0] = " + X + "\n"; c.label("array"); break;
        case 9: t += "use array(\"" + S + "\")\n"; break;
        case 10: t += "use array(\"" + T + "\") as " + A + "\n"; c.label("array"); break;
        case 11: t += "use json(\"" + S + "\")\nemit(" + S + "_to_json(" + X + "))\n"; c.label("json"); break;
        case 12: t += "use delegate(\"" + fn + "\") as " + A + "\n"; c.label("delegate"); break;
        case 13: t += "use delegate(\"" + fn + "\")\n"; c.label("delegate"); break;
        case 14: t += "emit(" + X + ".missing" + F + ")\n"; c.label("missing field"); break;
        case 15: t += "emit(" + X + ".next[0])\n"; c.label("index of a nullable"); break;
        case 16: t += X + " := 1\n"; c.label("twice"); break;
        case 17: t += A + "_missing(1)\n"; break;
        case 18: t += "z: " + A + " = null\n"; c.label("missing type"); break;
        case 19: t += A + " :: 12\nemit(" + A + ")\n"; break;
        case 20: t += "emit(new " + T + "{." + F + " = 3})\nemit(new " + T + "{.no" + F + " = 3})\n"; break;
        default: t += "emit(cast(cast(" + X + ", any), " + T + "?))\nif (" + X + ") {}\n"; c.label("wrong type"); break;
    }
    judge(g, c, t);
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C06";
    p.title = "Compilation is total: any text compiles or yields one well-formed error";
    p.assumptions = {"nesting of the text is at most 500 levels (the parser is recursive)", "texts contain no zero byte (they are C strings)"};
    std::string rule = "the text has at least 8 bytes";
    p.families.push_back({"mutated", rule, mutated, 9000, 2000000});
    p.families.push_back({"loose", rule, loose, 9000, 2000000});
    p.families.push_back({"awaited", rule, awaited, 4000, 600000});
    p.families.push_back({"tokens", rule, tokens, 6000, 1000000});
    p.families.push_back({"bytes", rule, bytes, 4000, 600000});
    p.families.push_back({"macros", rule, macros, 4000, 500000});
    p.families.push_back({"long_names", rule, longNames, 1500, 200000});
    p.families.push_back({"large", rule, large, 600, 60000});
    return run(argc, argv, p);
}
