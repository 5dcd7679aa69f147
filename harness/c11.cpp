// All memory goes through the supplied contexts and balances to zero.
#include <errno.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include "cuts.h"
#include "fuzztext.h"
#include "mistakes.h"
using namespace pbt;
using namespace lang;

// The library's own calls of the C allocator come here (see build.sh).
namespace {
bool gDefault = false;                           // the default context is in use
std::unordered_map<void *, size_t> gDirect;      // blocks the library took from the C allocator
uint64_t gBypass = 0;
std::string gWhat;
void *took(void *p, size_t n, const char *what) {
    if (!gDefault) { ++gBypass; gWhat = what; }
    if (p) gDirect[p] = n;
    return p;
}
void gave(void *p, const char *what) {
    if (!p) return;
    if (!gDefault) { ++gBypass; gWhat = what; }
    auto it = gDirect.find(p);
    if (it == gDirect.end()) { gWhat = strf("%s of a block which was not taken from there", what); ++gBypass; return; }
    gDirect.erase(it);
}
}  // namespace
extern "C" {
void *vf_malloc(size_t n) { return took(malloc(n), n, "malloc"); }
void *vf_calloc(size_t a, size_t b) { return took(calloc(a, b), a * b, "calloc"); }
void *vf_realloc(void *p, size_t n) { gave(p, "realloc"); return took(realloc(p, n), n, "realloc"); }
void *vf_reallocarray(void *p, size_t a, size_t b) { return vf_realloc(p, a * b); }
void vf_free(void *p) { gave(p, "free"); free(p); }
char *vf_strdup(const char *s) { return (char *)took(strdup(s), strlen(s) + 1, "strdup"); }
char *vf_strndup(const char *s, size_t n) { return (char *)took(strndup(s, n), n + 1, "strndup"); }
void *vf_aligned_alloc(size_t a, size_t n) { return took(aligned_alloc(a, n), n, "aligned_alloc"); }
int vf_posix_memalign(void **p, size_t a, size_t n) { int r = posix_memalign(p, a, n); if (!r) took(*p, n, "posix_memalign"); return r; }
}

namespace {
void scratch() {
    static bool once = [] { std::string d = pbt::scratch(); mkdir((d + "/sub").c_str(), 0700); return chdir(d.c_str()) == 0; }();
    if (!once) abort();
}

// Pieces of program which use the libraries; $ is replaced by a number.
const char *kLib[] = {
    "emit(strlen(strcat(\"a\", \"b\", int_to_str($))))\n",
    "s$ := substr(strcat(\"hello\", \" world\"), 2, -1) emit(s$, s$[1], strchr(s$, 'w'))\n",
    "emit(ston(\"1.5\"), str_to_int(\"42\"), stoi(\"ff\", 16), ntos(1.5), ntos(2), ntos(\"x\"), floor(1.5), ceil(1.5))\n",
    "d$ := dict(\"a\", 1, \"b\", \"two\", 3, nat($)) dict_put(d$, \"c\", d$) dict_remove(d$, \"a\") emit(dict_get(d$, \"b\"), array_any_len(dict_keys(d$)), array_any_len(dict_values(d$))) d$[\"q\"] = d$[\"c\"]\n",
    "e$ := dict_str_int(\"x\", 1) dict_str_int_put(e$, \"y\", 2) emit(dict_str_int_get(e$, \"y\"), array_str_len(dict_str_int_keys(e$))) dict_str_int_clear(e$) dict_str_int_put(e$, \"z\", 3)\n",
    "use array(\"int\") as li$\nv$ := li$(3, 1, 2) li$_sort(v$) li$_push(v$, 9) li$_insert(v$, 0, 5) emit(li$_pop(v$), li$_shift(v$), li$_len(v$)) li$_resize_fill(v$, 40, 7) li$_remove(v$, 3) li$_clear(v$) li$_push(v$, 1)\n",
    "use array(\"str\") as lt$\nw$ := lt$(\"a\", strcat(\"b\", \"c\")) lt$_resize(w$, 20) lt$_resize_fill(w$, 30, \"z\") emit(w$[0], w$[25]) w$[1] = strcat(\"x\", w$[0])\n",
    "struct J$ { a: int b: str c: J$? d: float? e: bool }\nuse json(\"J$\")\nemit(J$_to_json(new J${1, \"q\\\"\", new J${2, \"\\n\", cast(null, J$?), cast(null, float?), true}, 2.5, false}))\n",
    "func dl$(a: int, b: str, c: float?): str { return strcat(b, int_to_str(a)) }\nuse delegate(\"dl$\") as D$\nemit(call_function(get_function_index(\"dl$\"), 3, \"x\", null))\n",
    "x$ := i64_add_many(int_to_i64($), int_to_i64(5), int_to_i64(6)) emit(i64_to_string(x$), i64_to_string(i64_mul_many(x$, x$)))\n",
    "emit(write_file(\"a.txt\", strcat(\"some\", \" text\"))) emit(read_file(\"a.txt\"))\n",
    "emit(write_file(\"sub\", \"no\")) emit(write_file(\"no/such/dir\", \"no\"))\n",
    "emit(cast(read_file(\"missing\"), any) == null)\nemit(cast(read_file(\"sub\"), any) == null)\n",
    "f$ := fopen(\"b.txt\", \"w\") fwrite(f$, \"0123456789\") fwrite(f$, \"abc\", 2) fclose(f$) g$ := fopen(\"b.txt\", \"r\") fseek(g$, 3) emit(fread(g$, 4)) emit(fread(g$, 100), fread(g$, 1)) emit(fsize(g$)) fclose(g$)\n",
    "printf(\"%i %f %s %q %%\\n\", $, 1.5, strcat(\"a\", \"b\"), dict(\"a\", array_any(1, \"x\")))\n",
    "emit(input(\"prompt\"))\nemit(input())\n",
    "emit(get_executing_line())\nemit(time() > 0, rand() >= 0)\n",
    "i$ := 0 while (i$ < 40) { junk(2) t$ := strcat(\"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\", int_to_str(i$)) i$ += 1 }\n",
    "g$ := dict() h$ := 0 while (h$ < 45) { g$[strcat(\"k\", int_to_str(h$))] = h$ h$ += 1 } while (h$ > 5) { h$ -= 1 dict_remove(g$, strcat(\"k\", int_to_str(h$))) } emit(array_any_len(dict_keys(g$)), dict_get(g$, \"k3\"))\n",
    "use array(\"float\") as lf$\nm$ := lf$() n$ := 0 while (n$ < 90) { m$->lf$_push(1.5) m$->lf$_insert(0, 2.5) n$ += 1 } m$->lf$_resize_fill(400, 1.0) m$->lf$_resize(2) emit(m$[1])\n",
    "func rec$(n: int): any { if (n <= 0) return nat($) return dict(\"n\", rec$(n - 1), n, strcat(\"s\", int_to_str(n))) } k$ := rec$(8)\n",
    "struct L$ { v: any n: L$? }\nfunc mk$(n: int): L$ { if (n <= 0) return new L${strcat(\"e\", \"nd\"), cast(null, L$?)} return new L${nat(n), mk$(n - 1)} } l$ := mk$(12)\nemit(hc(\"mk$\", 5))\n",
};
const int kLibs = sizeof kLib / sizeof *kLib;
// Texts which fail in the middle of something which holds memory.
const char *kBad[] = {
    "use array(\"Nope\") as bad$\n", "use array(\"int\")\n", "use array() as q$\n", "use array(\"int\", \"str\") as q$\n", "use json(\"int\")\n", "use json(\"Nope\")\n", "use json()\n", "use delegate(\"nope\") as q$\n", "use delegate(\"emit\") as q$\n",
    "func cl$() { } use delegate(\"cl$\")\n", "struct JB$ { a: dict }\nuse json(\"JB$\")\n", "struct JU$ { a: Nope$ }\nuse json(\"JU$\")\n", "func bb$_push() { }\nuse array(\"int\") as bb$\n", "use nomacro(\"a\", \"b\") as q$\n", "use array(\"int\" as q$\n",
    "use json(\"J\n", "x$ := [1, 2\n", "x$ := new Nope${1, \"abc\", new Nope${2}}\n", "x$ := strcat(\"a\", \n", "func f$(a: int, b: str, c: Nope$): int { return strcat(\"a\", \"b\") }\n", "struct Z$ { a: int, b: str\n", "x$ := \"unterminated\n", "x$ := 'a\n", "for i$ := 0; i$ < 3; i$ += \"s\" { emit(\"q\") }\n",
    "x$ := if true (1) else\n", "while (true) { break } break\n", "x$ := cast(1 + (2 * (3 - \n", "x$.y.z = 3\n", "emit(1, \"a\", 2.5, new Q$.\n", "func f$(a: int): int { return new Y${a: 1} }\n", "KI = 2\n",
};
const int kBads = sizeof kBad / sizeof *kBad;
std::string number(const char *t, int n) {
    std::string r;
    for (; *t; ++t) if (*t == '$') r += std::to_string(9000 + n); else r += *t;
    return r;
}
std::string badText(Gen &g, const std::string &valid, int n) {
    switch (g.below(4)) {
        case 0: return mutateText(g, valid);
        case 1: {
            std::string a = number(kLib[g.below(kLibs)], n), b = number(kBad[g.below(kBads)], n);
            return g.coin() ? a + b : b + a;
        }
        case 2: return mutateText(g, number(kLib[g.below(kLibs)], n), 2);
        default: return number(kBad[g.below(kBads)], n);
    }
}
// Keeps the bytes the programs write, and gives them a line of input, without touching the real streams.
struct Std {
    FILE *in, *out, *oin = stdin, *oout = stdout;
    char text[32] = "a line of input\nshort\n";
    Std() { fflush(stdout); in = fmemopen(text, strlen(text), "r"); out = fopen("/dev/null", "w"); stdin = in; stdout = out; }
    ~Std() { stdin = oin; stdout = oout; fclose(in); fclose(out); }
};
void clean() { gBypass = 0; gWhat.clear(); gDirect.clear(); gDefault = false; }
void bypass(const char *when) { PBT_CHECK(!gBypass, "%s: memory is taken from or given to the C allocator instead of the context (%s)", when, gWhat.c_str()); }

void checkCtx(Ctx &c, const char *what) {
    c.check(what);
    PBT_CHECK(c.live.empty(), "%s: %zu blocks (%zu bytes) are still held after everything was destroyed", what, c.live.size(), c.cur);
}

void history(Gen &g, Case &c, const Cfg &cfg) {
    scratch();
    clean();
    // texts
    std::vector<std::string> units;
    int n = (int)g.range(1, 4), num = 0;
    std::unique_ptr<Diff> d;
    if (g.chance(2, 3)) {
        d.reset(new Diff);
        generate(g, cfg, d->p);
        units.push_back(print(d->p).text);
    }
    for (int i = 0; i < n; ++i) {
        std::string t;
        for (int k = (int)g.range(1, 5); k > 0; --k) {
            int w = (int)g.below(kLibs);
            t += number(kLib[w], ++num);
            c.label(strf("lib:%d", w));
        }
        units.push_back(t);
    }
    Host h;
    bool packed = g.chance(1, 4);  // the contexts place blocks next to each other
    if (packed) h.stateCtx.packed = true;
    c.labelIf(packed, "packed");
    if (g.chance(9, 10)) Tiny_BindStandardIO(h.state);
    else for (auto &u : units) if (u.find("file") != std::string::npos || u.find("fopen") != std::string::npos || u.find("printf") != std::string::npos || u.find("input") != std::string::npos) u = "";
    Tiny_BindI64(h.state);
    uint64_t ok = 0, failed = 0;
    auto bad = [&](const std::string &near) {
        std::string t = badText(g, near, ++num);
        c.say("// ---- attempt\n" + t + "\n");
        Tiny_CompileResult r = h.compile(t, "attempt");
        if (r.type == TINY_COMPILE_SUCCESS) { c.label("attempt accepted"); return false; }
        ++failed;
        return true;
    };
    bool risky = false;  // a text of unknown behaviour was accepted
    for (auto &u : units) {
        for (int k = (int)g.below(3); k > 0; --k) if (!bad(u)) risky = true;
        c.say("// ---- unit\n" + u + "\n");
        if (risky) { h.compile(u, "unit"); continue; }
        if (g.chance(1, 5)) {
            FILE *f = fopen("unit.tiny", "w");
            fwrite(u.data(), 1, u.size(), f);
            fclose(f);
            Tiny_CompileResult r = Tiny_CompileFile(h.state, "unit.tiny");
            PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "a valid program in a file is rejected: %.300s", r.error.msg);
            c.label("from a file");
        } else h.mustCompile(u, "unit");
        ++ok;
    }
    if (g.chance(1, 4)) { for (const char *f : {"missing.tiny", "sub", "."}) PBT_CHECK(Tiny_CompileFile(h.state, f).type != TINY_COMPILE_SUCCESS, "compiling %s succeeded", f); c.label("no such file"); }
    if (g.chance(1, 4) && !bad(units[0])) risky = true;
    bypass("compiling");
    h.stateCtx.check("state context");
    c.label(risky ? "not run" : "run");
    size_t stateCalls = h.stateCtx.calls;
    int threads = risky ? (int)g.below(2) : (int)g.range(1, 4);
    uint64_t cycles = 0;
    bool abandoned = false;
    {
        Std redirected;
        std::vector<std::unique_ptr<Thread>> ts;
        std::vector<int64_t> left;
        std::vector<int> state;   // 0: made, 1: running, 2: stopped
        for (int i = 0; i < threads; ++i) {
            ts.emplace_back(new Thread(h));
            ts.back()->ctx.packed = packed;
            // how many cycles until it is abandoned; most often it may finish
            left.push_back(g.chance(1, 2) ? (int64_t)g.below(g.coin() ? 60 : 1500) : (int64_t)1 << 40);
            state.push_back(0);
        }
        while (std::any_of(state.begin(), state.end(), [](int s) { return s < 2; })) {
            size_t i = g.below(ts.size());
            while (state[i] == 2) i = (i + 1) % ts.size();
            Thread &t = *ts[i];
            if (risky) { if (g.coin()) t.start(); state[i] = 2; continue; }
            if (state[i] == 0) {
                if (left[i] == 0) { state[i] = 2; c.label("never started"); continue; }
                t.start();
                state[i] = 1;
                continue;
            }
            size_t turn = cycles > 3000 ? 100000 : g.coin() ? 1 + g.below(5) : 1 + g.below(300);
            if (g.chance(1, 4)) t.t->maxNumObjects = 0;
            for (size_t q = 0; q < turn && state[i] == 1; ++q) {
                if (left[i]-- <= 0) { state[i] = 2; abandoned = true; break; }
                ++cycles;
                if (!t.step()) { state[i] = 2; if (g.chance(1, 6)) { t.start(); state[i] = 1; left[i] = (int64_t)g.below(300); c.label("started again"); } break; }
            }
        }
        bypass("running");
        PBT_CHECK(h.stateCtx.calls == stateCalls, "running threads took memory from, or gave memory to, the context of the state (%zu calls)", h.stateCtx.calls - stateCalls);
        // threads go in any order
        while (!ts.empty()) {
            size_t i = g.below(ts.size());
            Thread &t = *ts[i];
            std::vector<size_t> others;
            for (auto &o : ts) others.push_back(o->ctx.calls);
            t.destroy();
            for (size_t k = 0; k < ts.size(); ++k) PBT_CHECK(k == i || ts[k]->ctx.calls == others[k], "destroying one thread used the context of another");
            PBT_CHECK(h.stateCtx.calls == stateCalls, "destroying a thread used the context of the state");
            checkCtx(t.ctx, "thread context");
            PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
            ts.erase(ts.begin() + i);
        }
    }
    c.labelIf(abandoned, "abandoned");
    c.labelIf(failed > 0, "failed compiles");
    c.nontrivial = failed > 0 || cycles >= 50;
    Tiny_DeleteState(h.state);
    h.state = nullptr;
    checkCtx(h.stateCtx, "state context");
    bypass("destroying");
}

// Any text at all, with every library bound.
void texts(Gen &g, Case &c) {
    scratch();
    clean();
    Host h;
    Tiny_BindStandardIO(h.state);
    Tiny_BindI64(h.state);
    int n = (int)g.range(1, 5);
    for (int i = 0; i < n; ++i) {
        std::string t;
        switch (g.below(4)) {
            case 0: { int k = (int)g.range(1, 40); auto &p = tokenPool(); for (int q = 0; q < k; ++q) { t += p[g.below(p.size())]; if (g.coin()) t += " "; } break; }
            case 1: t = badText(g, number(kLib[g.below(kLibs)], i), i); break;
            case 2: t = mutateText(g, number(kLib[g.below(kLibs)], i) + number(kLib[g.below(kLibs)], i + 10)); break;
            default: {
                Program p;
                Cfg cfg;
                cfg.items = 5; cfg.mainBudget = 60; cfg.funcBudget = 30;
                generate(g, cfg, p);
                if (g.coin()) { Planter pl(g, p); pl.replace(); }
                t = print(p).text;
                if (g.coin()) t = mutateText(g, t);
            }
        }
        c.say("// ----\n" + t + "\n");
        Tiny_CompileResult r = h.compile(t, "text");
        c.label(r.type == TINY_COMPILE_SUCCESS ? "accepted" : "rejected");
        h.stateCtx.check("state context");
    }
    c.nontrivial = true;
    Tiny_DeleteState(h.state);
    h.state = nullptr;
    checkCtx(h.stateCtx, "state context");
    bypass("compiling");
}

// The same with the default context: everything it took from the C allocator is given back.
Tiny_Value fAny(Tiny_StateThread *, const Tiny_Value *a, int n) { return n ? a[0] : Tiny_Null; }
Tiny_Value fNone(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_Null; }
Tiny_Value fInt(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(1); }
void freeNat(Tiny_Context *c, void *p) { Tiny_AllocUsingContext(*c, p, 0); }
const Tiny_NativeProp kProp = {"n", nullptr, freeNat};
Tiny_Value fNat(Tiny_StateThread *t, const Tiny_Value *, int) { return Tiny_NewNative(t, Tiny_AllocUsingContext(t->ctx, nullptr, 24), &kProp); }
Tiny_Value fHc(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_CallFunction(t, Tiny_GetFunctionIndex(t->state, Tiny_ToString(a[0])), a + 1, n - 1); }
void defaults(Gen &g, Case &c) {
    scratch();
    clean();
    gDefault = true;
    int mode = (int)g.below(3);  // which of the two uses the default context
    Ctx sc, tc;
    Tiny_State *s = mode == 2 ? Tiny_CreateStateWithContext(sc.ctx()) : Tiny_CreateState();
    Tiny_BindStandardArray(s); Tiny_BindStandardDict(s); Tiny_BindStandardLib(s); Tiny_BindStandardIO(s); Tiny_BindI64(s);
    Tiny_RegisterType(s, "Nat");
    Tiny_BindFunction(s, "emit(...): void", fNone);
    Tiny_BindFunction(s, "junk(int): void", fNone);
    Tiny_BindFunction(s, "nat(int): Nat", fNat);
    Tiny_BindFunction(s, "hc(str, ...): any", fHc);
    std::string all;
    int n = (int)g.range(1, 5);
    uint64_t failed = 0, cycles = 0;
    bool ok = true;
    for (int i = 0; i < n && ok; ++i) {
        if (g.coin()) {
            std::string t = badText(g, number(kLib[g.below(kLibs)], 100 + i), 200 + i);
            c.say("// ---- attempt\n" + t + "\n");
            if (Tiny_CompileString(s, "attempt", t.c_str()).type == TINY_COMPILE_SUCCESS) ok = false;
            else ++failed;
        }
        if (!ok) break;
        std::string t = number(kLib[g.below(kLibs)], i);
        c.say("// ---- unit\n" + t + "\n");
        Tiny_CompileResult r = Tiny_CompileString(s, "unit", t.c_str());
        PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "a valid program is rejected: %.300s", r.error.msg);
    }
    {
        Std redirected;
        Tiny_StateThread t;
        if (mode == 1) Tiny_InitThreadWithContext(&t, s, tc.ctx());
        else Tiny_InitThread(&t, s);
        if (ok && g.chance(9, 10)) {
            Tiny_StartThread(&t);
            if (g.coin()) Tiny_Run(&t);
            else for (int64_t k = g.below(800); k > 0 && Tiny_ExecuteCycle(&t); --k) { ++cycles; if (g.chance(1, 50)) t.maxNumObjects = 0; }
        }
        Tiny_DestroyThread(&t);
    }
    Tiny_DeleteState(s);
    c.nontrivial = failed > 0 || ok;
    c.label(mode == 0 ? "both default" : mode == 1 ? "state default" : "thread default");
    PBT_CHECK(!gBypass, "%s", gWhat.c_str());
    PBT_CHECK(gDirect.empty(), "%zu blocks taken from the C allocator are not given back", gDirect.size());
    checkCtx(sc, "state context");
    checkCtx(tc, "thread context");
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C11";
    p.title = "All memory goes through the supplied contexts and balances to zero";
    p.assumptions = {"memory which the C library takes for itself (open files, formatting) is not the library's", "files which a program leaves open are not memory of the context"};
    Cfg cfg;
    cfg.garbage = true; cfg.hostCalls = true; cfg.items = 8; cfg.mainBudget = 200;
    p.families.push_back({"history", "a compile failed or at least fifty cycles ran", [=](Gen &g, Case &c) { history(g, c, cfg); }, 5000, 700000});
    p.families.push_back({"texts", "every case", texts, 6000, 900000});
    p.families.push_back({"defaults", "something was compiled", defaults, 3000, 500000});
    return run(argc, argv, p);
}
