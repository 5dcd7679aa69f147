#include <algorithm>
#include "cuts.h"
#include "fuzztext.h"
#include "mistakes.h"
using namespace pbt;
using namespace lang;

namespace {
// A macro which does what its arguments say, for nested compiles and bindings.
Tiny_Value bound(Tiny_StateThread *st, const Tiny_Value *a, int n) { return Tiny_NewInt(n); }
Tiny_MacroResult vm(Tiny_State *s, char *const *args, int n, const char *as) {
    Tiny_MacroResult r;
    memset(&r, 0, sizeof r);
    r.type = TINY_MACRO_SUCCESS;
    for (int i = 0; i < n; ++i) {
        std::string a = args[i], rest = a.size() > 2 ? a.substr(2) : "";
        switch (a.empty() ? 0 : a[0]) {
            case 'c': case 't': {  // compile; 't' does not care whether it works
                Tiny_CompileResult c = Tiny_CompileString(s, "nested", rest.c_str());
                if (c.type != TINY_COMPILE_SUCCESS && a[0] == 'c') { r.type = TINY_MACRO_ERROR; snprintf(r.error.msg, sizeof r.error.msg, "nested compile failed"); return r; }
                break;
            }
            case 'f': Tiny_BindFunction(s, rest.c_str(), bound); break;
            case 'k': Tiny_BindConstString(s, rest.c_str(), rest.c_str()); break;
            case 'i': Tiny_BindConstInt(s, rest.c_str(), 12345); break;
            case 'y': Tiny_RegisterType(s, rest.c_str()); break;
            case 'n': if (as) Tiny_BindFunction(s, (std::string(as) + "(): int").c_str(), bound); break;
            default: r.type = TINY_MACRO_ERROR; snprintf(r.error.msg, sizeof r.error.msg, "asked to fail"); return r;
        }
    }
    return r;
}
struct H : Host {
    H() { Tiny_BindMacro(state, "vm", vm); }
    // functions whose types nothing has defined yet
    void await(const std::vector<std::string> &sigs) { for (auto &x : sigs) Tiny_BindFunction(state, x.c_str(), bound); }
};
std::vector<std::string> awaited(Gen &g) {
    static const char *types[] = {"Zs", "zints", "zrs", "ZBT", "Zlater", "Zr", "Zj", "delegate_int_int", "Zdup", "ZInner", "Zu", "Zs2"};
    std::vector<std::string> r;
    if (g.coin()) return r;
    for (int n = (int)g.range(1, 4); n > 0; --n) {
        std::string t = types[g.below(12)];
        r.push_back(strf("zawait%d(%s%s, int): ", n, t.c_str(), g.chance(1, 3) ? "?" : "") + (g.coin() ? "int" : g.coin() ? types[g.below(12)] : t));
    }
    return r;
}

std::string sym(Tiny_State *s, const Tiny_Symbol *y, int depth = 0) {
    if (!y) return "-";
    std::string r = strf("%d:%s", (int)y->type, y->name);
    if (depth > 1) return r;
    switch (y->type) {
        case TINY_SYM_TAG_STRUCT:
            r += y->sstruct.defined ? "{" : "?{";
            for (size_t i = 0; i < Tiny_SymbolArrayCount(y->sstruct.fields); ++i) r += std::string(y->sstruct.fields[i]->name) + " " + sym(s, y->sstruct.fields[i]->fieldTag, depth + 1) + ",";
            return r + "}";
        case TINY_SYM_FUNCTION:
            r += "(";
            for (size_t i = 0; i < Tiny_SymbolArrayCount(y->func.args); ++i) r += sym(s, y->func.args[i]->var.tag, depth + 1) + ",";
            return r + ")" + sym(s, y->func.returnTag, depth + 1);
        case TINY_SYM_FOREIGN_FUNCTION:
            r += "(";
            for (size_t i = 0; i < Tiny_SymbolArrayCount(y->foreignFunc.argTags); ++i) r += sym(s, y->foreignFunc.argTags[i], depth + 1) + ",";
            return r + ")" + (y->foreignFunc.varargs ? "..." : "") + sym(s, y->foreignFunc.returnTag, depth + 1);
        case TINY_SYM_CONST:
            r += "=" + sym(s, y->constant.tag, depth + 1);
            if (y->constant.tag->type == TINY_SYM_TAG_STR) r += quote(Tiny_GetStringFromConstIndex(s, y->constant.sIndex));
            if (y->constant.tag->type == TINY_SYM_TAG_INT) r += strf("%lld", (long long)y->constant.iValue);
            return r;
        default: return r;
    }
}
std::string about(Tiny_State *s, const std::string &n) {
    const char *c = n.c_str();
    return "global " + std::to_string(Tiny_GetGlobalIndex(s, c)) + ", function " + std::to_string(Tiny_GetFunctionIndex(s, c)) + " " + sym(s, Tiny_FindFuncSymbol(s, c)) + ", type " +
           sym(s, Tiny_FindTypeSymbol(s, c)) + ", constant " + sym(s, Tiny_FindConstSymbol(s, c));
}
std::vector<std::string> words(Gen &g, const std::string &t) {
    std::set<std::string> w;
    for (auto &x : roughTokens(t)) if (isalpha((unsigned char)x[0])) w.insert(x);
    std::vector<std::string> v(w.begin(), w.end());
    while (v.size() > 40) v.erase(v.begin() + g.below(v.size()));
    size_t n = v.size();
    for (size_t i = 0; i < n; ++i) if (g.chance(1, 6)) v.push_back(v[i] + "?");
    return v;
}

// Texts which fail late, after having introduced names of every kind.
std::string tricky(Gen &g) {
    static const char *intro[] = {
        "struct Zs { a: int b: str }\n", "func zf(a: int, b: str): int { zl := a\n return zl + 1 }\n", "zg := 1\n", "ZK :: 123456\n", "ZKS :: \"some constant string\"\n", "zh: Zlater? = cast(null, Zlater?)\nstruct Zlater { a: Zs2? }\nstruct Zs2 { a: int }\n",
        "use array(\"int\") as zints\n", "struct Zr { a: int }\nuse array(\"Zr\") as zrs\n", "struct Zj { a: int b: str }\nuse json(\"Zj\")\n", "func zd(a: int): int { return a }\nuse delegate(\"zd\") as ZDlg\n",
        "use vm(\"c:func zn(): int { return 1 }\", \"f:zbf(int, str): int\", \"k:ZBS\", \"i:ZBI\", \"y:ZBT\")\n", "use vm(\"t:zbad := \", \"y:ZBT\")\n", "use vm(\"t:struct S0 { zz: int } zbad := 1 zq := nope\", \"n\") as zasname\n",
        "for zi := 0; zi < 3; zi += 1 { emit(\"text in a loop\") }\n", "if true { zin := \"a\" } else { zout := \"b\" }\n", "emit(cast(cast(1, any), int?))\n", "zn2: float? = 1.5\n"};
    static const char *bad[] = {
        "emit(zundefined)\n", "emit(zundefined())\n", "zx: int = \"s\"\n", "struct Zu { a: Zundefined }\n", "func zlast(): int { return \"x\" }\n", "func zlast(a: int { }\n", "zx := \"unterminated\n", "emit(1\n", "break\n", "use nomacro(\"x\")\n",
        "use vm(\"e\")\n", "use vm(\"c:zinner := 1 func zinner2() { } struct ZInner { a: int } zbad2 := nope\")\n", "use vm(\"c:zinner := 1 func zinner2() { } struct ZInner { a: int }\", \"e\")\n", "use array(\"Zundefined\") as zundefs\n", "use json(\"Zundefined\")\n", "use delegate(\"zundefined\") as ZD2\n",
        "KI = 3\n", "KI :: 3\n", "zdup := 1 zdup := 2\n", "struct Zdup { a: int a: int }\n", "func zdup(a: int, a: int) { }\n", "zy := new Zs3{1}\n", "func zouter() { func zinner() { } }\n", "zt := if 1 2 else 3\n", "@\n", "use vm(\"c:use vm(\\\"c:zdeep := 1\\\", \\\"e\\\")\")\n", "}\n", "\"", "'"};
    std::string t;
    int n = (int)g.below(5);
    std::vector<int> used;
    for (int i = 0; i < n; ++i) { int k = (int)g.below(17); if (std::find(used.begin(), used.end(), k) == used.end()) { used.push_back(k); t += intro[k]; } }
    size_t at = g.chance(1, 4) ? g.below(t.size() + 1) : t.size();
    while (at > 0 && at < t.size() && t[at - 1] != '\n') --at;
    return t.substr(0, at) + bad[g.below(29)] + t.substr(at);
}

struct Pair {
    H a, b;                            // b never sees a failing text
    std::vector<std::string> history;  // texts both have compiled, for a state which saw no failure
    uint64_t failures = 0, kinds = 0;
    bool unknown = false;              // a text which is not known to run has been compiled
    std::vector<std::string> waits;

    Pair(Gen &g, Case &c) : waits(awaited(g)) {
        a.await(waits);
        b.await(waits);
        for (auto &x : waits) c.say("// bound: " + x + "\n");
        if (!waits.empty()) c.label("types awaited");
    }

    std::string failing(Gen &g, Case &c, const std::string &next, const std::string &sofar) {
        switch (g.below(5)) {
            case 0: return mutateText(g, next.empty() ? sofar : next);
            case 1: {  // the same names, mostly with other meanings
                Program p;
                Cfg cfg;
                cfg.items = 4; cfg.mainBudget = 60; cfg.funcBudget = 30;
                generate(g, cfg, p);
                Planter pl(g, p);
                if (g.coin()) pl.replace(); else pl.insert();
                return print(p).text;
            }
            case 2: {  // what comes next, and then a mistake
                std::string t = tricky(g);
                return g.coin() ? next + "\n" + t : t + "\n" + next;
            }
            default: return tricky(g);
        }
    }
    void attempt(Gen &g, Case &c, const std::string &next, const std::string &sofar) {
        std::string t = failing(g, c, next, sofar);
        c.say("// ---- attempt\n" + t + "\n");
        Tiny_CompileResult r = a.compile(t, "attempt");
        if (r.type == TINY_COMPILE_SUCCESS) {
            Tiny_CompileResult q = b.compile(t, "attempt");
            PBT_CHECK(q.type == TINY_COMPILE_SUCCESS, "a text is accepted after a failed compile and rejected without: %.300s", q.error.msg);
            history.push_back(t);
            unknown = true;
            c.label("attempt accepted");
        } else {
            ++failures;
            if (g.chance(1, 4)) {
                // a state which saw no failure says the same
                H f;
                f.await(waits);
                for (auto &s : history) f.mustCompile(s, "again");
                Tiny_CompileResult q = f.compile(t, "attempt");
                PBT_CHECK(q.type == r.type && q.error.pos == r.error.pos && !strcmp(q.error.msg, r.error.msg), "after a failed compile a text is rejected with\n%.300s\nwithout it the result is\n%.300s", r.error.msg, q.type ? q.error.msg : "success");
            }
        }
        for (auto &w : words(g, t)) {
            std::string x = about(a.state, w), y = about(b.state, w);
            PBT_CHECK(x == y, "after the failed compile '%s' is: %s\nwithout it: %s", w.c_str(), x.c_str(), y.c_str());
        }
        a.stateCtx.check("state context");
    }
    void compile(const std::string &t, const char *name) {
        Tiny_CompileResult q = b.compile(t, name), r = a.compile(t, name);
        PBT_CHECK(q.type == r.type, "after failed compiles a text is %s, without them %s: %.300s", r.type ? "rejected" : "accepted", q.type ? "rejected" : "accepted", r.type ? r.error.msg : q.error.msg);
        if (q.type == TINY_COMPILE_SUCCESS) history.push_back(t);
        else PBT_CHECK(q.error.pos == r.error.pos && !strcmp(q.error.msg, r.error.msg), "after failed compiles the error is\n%.300s\nwithout them\n%.300s", r.error.msg, q.error.msg);
    }
};

void pieces(Gen &g, Case &c) {
    Diff d;
    Cfg cfg;
    cfg.items = 7; cfg.mainBudget = 140; cfg.funcBudget = 50; cfg.lineProbe = true;
    d.make(g, c, cfg);
    std::vector<size_t> cuts = cutPoints(g, d.p, (int)g.range(0, 4));
    cuts.push_back(d.p.items.size());
    Pair s(g, c);
    size_t from = 0;
    for (size_t k = 0; k < cuts.size(); ++k) {
        size_t to = cuts[k];
        size_t b = from == 0 ? 0 : d.text.itemStart[from], e = to == d.p.items.size() ? d.text.text.size() : d.text.itemStart[to];
        std::string piece = d.text.text.substr(b, e - b);
        for (int n = (int)g.below(4); n > 0; --n) s.attempt(g, c, piece, d.text.text.substr(0, e));
        if (s.unknown) {
            // an attempt was a valid text: only the outcomes can be compared from here on
            s.compile(piece, "piece");
            from = to;
            continue;
        }
        c.say(strf("// ---- piece %zu: items %zu to %zu\n", k, from, to));
        s.compile(piece, "piece");
        PBT_CHECK(s.history.size() && s.history.back() == piece, "a valid piece is rejected");
        from = to;
        if (g.chance(1, 2)) {
            for (int n = (int)g.below(3); n > 0; --n) s.attempt(g, c, "", piece);
            if (s.unknown) continue;
            Machine m(d.p);
            m.runItems(0, to);
            Thread t(s.a);
            t.start();
            t.run();
            compareTrace(m.trace, t.trace, "trace of the earlier pieces after a failed compile");
        }
    }
    for (int n = (int)g.below(3); n > 0; --n) s.attempt(g, c, "", d.text.text);
    c.nontrivial = s.failures >= 1;
    c.label(strf("failures:%d", (int)std::min<uint64_t>(s.failures, 6)));
    if (!s.unknown) {
        Thread t(s.a), u(s.b);
        t.start();
        u.start();
        uint64_t cy = 0;
        for (;;) {
            bool x = t.step(), y = u.step();
            PBT_CHECK(x == y, "after failed compiles the program takes another number of cycles (%llu)", (unsigned long long)cy);
            if (!x) break;
            ++cy;
        }
        d.check(t);
        d.check(u);
        PBT_CHECK(t.hereLines == u.hereLines, "after failed compiles other executing lines are reported");
        // a new name can be introduced by whatever comes next
        s.compile("zg2 := 1\nfunc zf2(): int { return zg2 }\nstruct Zs { q: float }\nfunc zf(): float { return new Zs{2.5}.q }\nZK := zf()\n", "last");
        Thread v(s.a);
        v.start();
        v.run();
        PBT_CHECK(v.global("ZK") == "f0x1.4p+1", "names used again after failed compiles: ZK is %s", v.global("ZK").c_str());
    }
    for (H *h : {&s.a, &s.b}) {
        Tiny_DeleteState(h->state);
        h->state = nullptr;
        h->stateCtx.check("state context");
        PBT_CHECK(h->stateCtx.live.empty(), "%zu blocks remain after the state was deleted", h->stateCtx.live.size());
    }
}

// The same failing text again and again takes no more memory, and uses up no limit.
void repeated(Gen &g, Case &c) {
    H h;
    h.await(awaited(g));
    int kind = (int)g.below(5);
    static const char *kinds[] = {"text", "strings", "declarations", "nested", "tricky"};
    c.label(kinds[kind]);
    int n = (int)g.range(1, 400);
    int salt = 0;
    auto make = [&]() {
        std::string r;
        ++salt;
        if (kind == 1) for (int i = 0; i < n; ++i) r += strf("emit(\"string %d of attempt %d\")\n", i, salt);
        if (kind == 2) for (int i = 0; i < n / 4 + 1; ++i) r += strf("zg%d := %d\nfunc zf%d(a: int): int { l := a return l }\nstruct Zs%d { a: int b: Zs%d? }\nZK%d :: \"k%d_%d\"\n", i, i, i, i, i, i, i, salt);
        if (kind == 3) for (int i = 0; i < n / 20 + 1; ++i) r += strf("use vm(\"c:func zn%d(): int { return 1 }\", \"f:zbf%d(int, str): int\", \"k:ZBS%d_%d\", \"i:ZBI%d\", \"y:ZBT%d\")\n", i, i, i, salt, i, i);
        return r;
    };
    std::string end = kind == 3 && g.coin() ? "use vm(\"e\")\n" : "emit(zundefined)\n";
    std::string fixed = kind == 4 ? tricky(g) : kind == 0 ? [&] { Program p; Cfg cfg; cfg.items = 5; generate(g, cfg, p); Planter pl(g, p); pl.replace(); return print(p).text; }() : "";
    // a piece of valid program first
    if (g.coin()) h.mustCompile("first := 4\n");
    int reps = (int)g.range(4, 9);
    size_t blocks = 0, bytes = 0;
    for (int i = 0; i < reps; ++i) {
        std::string text = fixed.empty() ? make() + end : fixed;
        if (i == 0) c.say(text);
        Tiny_CompileResult r = h.compile(text, "attempt");
        PBT_CHECK(r.type == TINY_COMPILE_ERROR, "attempt %d is accepted", i);
        h.stateCtx.check("state context");
        if (i == 1) { blocks = h.stateCtx.live.size(); bytes = h.stateCtx.cur; }
        if (i > 1) {
            PBT_CHECK(h.stateCtx.live.size() <= blocks + 2, "each failed compile leaves memory behind: %zu blocks after 2, %zu after %d", blocks, h.stateCtx.live.size(), i + 1);
            PBT_CHECK(h.stateCtx.cur <= bytes + bytes / 4 + 2048, "each failed compile leaves memory behind: %zu bytes after 2, %zu after %d", bytes, h.stateCtx.cur, i + 1);
        }
    }
    c.nontrivial = true;
    if (!fixed.empty()) return;
    std::string ok = make();
    h.mustCompile(ok, "at last");
    Thread t(h);
    t.start();
    t.run();
    if (kind == 1) {
        PBT_CHECK((int)t.trace.size() == n, "%zu of %d strings observed", t.trace.size(), n);
        for (int i = 0; i < n; ++i) PBT_CHECK(t.trace[i] == strf("emit \"string %d of attempt %d\"", i, salt), "string %d reads %s", i, t.trace[i].c_str());
    }
    if (kind == 2) for (int i = 0; i < n / 4 + 1; ++i) PBT_CHECK(t.global(strf("zg%d", i)) == std::to_string(i), "zg%d is %s", i, t.global(strf("zg%d", i)).c_str());
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C07";
    p.title = "A failed compile leaves the state exactly as it was";
    p.families.push_back({"pieces", "at least one compile failed", pieces, 6000, 900000});
    p.families.push_back({"repeated", "every case: the text fails again and again", repeated, 1500, 200000});
    return run(argc, argv, p);
}
