#include <sys/stat.h>
#include <unistd.h>

#include "cuts.h"
using namespace pbt;
using namespace lang;

namespace {
void compilePiece(Gen &g, Host &h, Case &c, const std::string &text, int i) {
    if (g.chance(1, 3)) {
        std::string f = pbt::scratch() + "/piece.tiny";
        FILE *o = fopen(f.c_str(), "wb");
        if (!o) abort();
        fwrite(text.data(), 1, text.size(), o);
        fclose(o);
        Tiny_CompileResult r = Tiny_CompileFile(h.state, f.c_str());
        unlink(f.c_str());
        if (r.type != TINY_COMPILE_SUCCESS) fail(strf("piece %d, compiled from a file, is rejected: %.300s", i, r.error.msg));
        c.label("from a file");
    } else {
        std::string name = strf("piece%d", i);
        std::string copy = text;  // the state may not keep pointers into the caller's text
        h.mustCompile(copy, name.c_str());
        copy.assign(copy.size(), '#');
    }
}

// A text which declares and does nothing may be compiled at any point.
void emptyPiece(Gen &g, Host &h, Case &c, int i) {
    static const char *t[] = {"", " ", "\n", "\n\n\t \n", "// nothing here", "// nothing here\n", "{}", "{ }\n", "func verif_unused_$(a: int): int { return a }\n", "struct VerifUnused$ { a: int }\n", "VERIF_UNUSED_$ :: 3\n"};
    std::string text;
    for (const char *s = t[g.below(sizeof t / sizeof *t)]; *s; ++s) if (*s == '$') text += std::to_string(i); else text += *s;
    c.say(strf("// empty piece %d\n", i) + text);
    c.label("empty piece");
    compilePiece(g, h, c, text, i);
}

Tiny_Value unrelated(Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(1); }

void pieces(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg, g.chance(1, 6));
    if (d.text.itemStart.size() != d.p.items.size()) fail("harness: item offsets");
    std::vector<size_t> cuts = cutPoints(g, d.p, (int)g.range(1, 8));
    if (cuts.empty()) throw Discard{};
    c.nontrivial = d.m->trace.size() >= 2;
    c.label(strf("pieces:%zu", cuts.size() + 1));
    Host h;
    cuts.push_back(d.p.items.size());
    size_t from = 0;
    int binds = 0, empties = 0;
    for (size_t k = 0; k < cuts.size(); ++k) {
        size_t to = cuts[k];
        size_t b = from == 0 ? 0 : d.text.itemStart[from], e = to == d.p.items.size() ? d.text.text.size() : d.text.itemStart[to];
        while (g.chance(1, 8)) emptyPiece(g, h, c, 1000 + empties++);
        c.say(strf("// piece %zu: items %zu to %zu\n", k, from, to));
        compilePiece(g, h, c, d.text.text.substr(b, e - b), (int)k);
        from = to;
        if (g.chance(1, 2)) {
            // a thread started now runs everything compiled so far
            Machine m(d.p);
            m.runItems(0, to);
            Thread t(h);
            t.start();
            t.run();
            compareTrace(m.trace, t.trace, strf("trace after piece %zu", k).c_str());
            for (Var *v : d.p.globals) {
                if (Tiny_GetGlobalIndex(h.state, v->name.c_str()) < 0) continue;
                std::string want = m.dump(m.globals[v->slot]), got = t.global(v->name);
                PBT_CHECK(want == got, "after piece %zu global %s is\n  %s\nbut should be\n  %s", k, v->name.c_str(), got.c_str(), want.c_str());
            }
            c.label("prefix run");
        }
        if (g.chance(1, 3)) {
            switch (g.below(4)) {
                case 0: Tiny_BindFunction(h.state, strf("unrelated%d(int, str): int", binds).c_str(), unrelated); break;
                case 1: Tiny_BindConstInt(h.state, strf("UNRELATED%d", binds).c_str(), 3); break;
                case 2: Tiny_BindConstString(h.state, strf("UNRELATED%d", binds).c_str(), strf("unrelated string %d", binds).c_str()); break;
                default: Tiny_RegisterType(h.state, strf("Unrelated%d", binds).c_str()); break;
            }
            ++binds;
            c.label("bound in between");
        }
    }
    while (g.chance(1, 8)) emptyPiece(g, h, c, 1000 + empties++);
    Thread t(h);
    t.start();
    t.run();
    d.check(t);
}

// Every piece uses something bound just before it and something of every piece before.
template <int N> Tiny_Value bfn(Tiny_StateThread *, const Tiny_Value *a, int n) { return Tiny_NewInt(Tiny_ToInt(a[0]) * 10 + N); }
Tiny_ForeignFunction kB[] = {bfn<0>, bfn<1>, bfn<2>, bfn<3>, bfn<4>, bfn<5>, bfn<6>, bfn<7>};

void binding(Gen &g, Case &c) {
    Host h;
    int n = (int)g.range(2, 8);
    std::vector<std::string> want;
    struct Fn { int piece; };
    std::vector<int64_t> consts(n), globals(n);
    std::vector<int> fnBase(n);
    std::vector<bool> hasC(n), hasB(n), hasS(n);
    std::string all;
    int empties = 0;
    for (int i = 0; i < n; ++i) {
        hasB[i] = g.coin() || i == 0;
        hasC[i] = g.coin();
        hasS[i] = g.coin();
        consts[i] = g.range(-100000, 100000);
        std::string log;
        if (hasB[i]) { Tiny_BindFunction(h.state, strf("b%d(int): int", i).c_str(), kB[i]); log += strf("// bind b%d\n", i); }
        if (hasC[i]) { Tiny_BindConstInt(h.state, strf("K%d", i).c_str(), consts[i]); log += strf("// bind K%d = %lld\n", i, (long long)consts[i]); }
        if (hasS[i]) { Tiny_RegisterType(h.state, strf("Ty%d", i).c_str()); Tiny_BindConstString(h.state, strf("KS%d", i).c_str(), strf("str %d", i).c_str()); log += strf("// bind KS%d\n", i); }
        // functions defined by piece i: f_i(x) = b_j(x) + f_k(x), with j, k earlier
        std::string t;
        int j;
        do j = (int)g.below(i + 1); while (!hasB[j]);
        fnBase[i] = j;
        int k = i ? (int)g.range(-1, i - 1) : -1;
        std::function<int64_t(int, int64_t)> f;
        static thread_local std::vector<std::pair<int, int>> defs;
        if (i == 0) defs.clear();
        defs.push_back({j, k});
        f = [&](int q, int64_t x) { return x * 10 + defs[q].first + (defs[q].second >= 0 ? f(defs[q].second, x + 1) : 0); };
        t += strf("func f%d(x: int): int { return b%d(x)", i, j) + (k >= 0 ? strf(" + f%d(x + 1)", k) : "") + " }\n";
        int64_t v = f(i, i + 2);
        std::string init = strf("f%d(%d)", i, i + 2);
        if (i && g.coin()) { int q = (int)g.below(i); v += globals[q]; init += strf(" + g%d", q); }
        int ck = (int)g.below(i + 1);
        if (hasC[ck]) { v += consts[ck]; init += strf(" + K%d", ck); }
        globals[i] = v;
        t += strf("g%d := ", i) + init + "\n";
        t += strf("emit(\"piece %d\", g%d)\n", i, i);
        want.push_back(strf("emit \"piece %d\" %lld", i, (long long)v));
        int sk = (int)g.below(i + 1);
        if (hasS[sk]) { t += strf("emit(KS%d)\n", sk); want.push_back(strf("emit \"str %d\"", sk)); }
        if (i && g.coin()) {
            // assign an earlier global from a later piece
            int q = (int)g.below(i);
            t += strf("g%d = g%d + 1\nemit(g%d)\n", q, q, q);
            globals[q]++;
            want.push_back(strf("emit %lld", (long long)globals[q]));
        }
        if (g.chance(1, 3)) {
            t += strf("struct R%d { a: int b: str }\nr%d := new R%d{g%d, \"r\"}\nC%d :: %d\n", i, i, i, i, i, i + 40);
            t += strf("emit(r%d.a + C%d)\n", i, i);
            want.push_back(strf("emit %lld", (long long)globals[i] + i + 40));
        }
        while (g.chance(1, 8)) emptyPiece(g, h, c, 1000 + empties++);
        c.say(log + strf("// piece %d\n", i) + t);
        compilePiece(g, h, c, t, i);
        if (g.chance(1, 3)) {
            Thread th(h);
            th.start();
            th.run();
            compareTrace(want, th.trace, strf("trace after piece %d", i).c_str());
        }
    }
    while (g.chance(1, 8)) emptyPiece(g, h, c, 1000 + empties++);
    c.nontrivial = n >= 3;
    Thread th(h);
    th.start();
    th.run();
    compareTrace(want, th.trace);
    for (int i = 0; i < n; ++i) {
        std::string got = th.global(strf("g%d", i)), w = std::to_string(globals[i]);
        PBT_CHECK(got == w, "g%d ends as %s but should be %s", i, got.c_str(), w.c_str());
    }
}

// Threads which live on while pieces are added: they are started again, their functions are called
// and their globals are read and written by the host.  A global whose declaration has not run is null.
void late(Gen &g, Case &c) {
    Host h;
    struct Gl { std::string name; bool str; };
    struct Fn { std::string name; int kind, gl; };  // 0 sets an int, 1 returns it, 2 sets a string made of parts, 3 returns it
    struct St { int kind, gl; std::string v; };     // 0 assigns, 1 emits
    std::vector<Gl> gl;
    std::vector<Fn> fn;
    std::vector<St> st;
    int nt = (int)g.range(1, 3), pieces = (int)g.range(2, 5), nfn = 0, used = 0;
    std::vector<std::unique_ptr<Thread>> th;
    struct M { std::map<int, std::string> v; bool begun = false; std::vector<std::string> trace; };
    std::vector<M> mo(nt);
    for (int i = 0; i < nt; ++i) th.emplace_back(new Thread(h));
    auto val = [](M &m, int k) { auto it = m.v.find(k); return it == m.v.end() ? std::string("null") : it->second; };
    for (int pc = 0; pc < pieces; ++pc) {
        std::string t;
        int n = (int)g.weighted({2, 3, 2, 1}) * (g.chance(1, 10) ? 30 : 1);
        for (int i = 0; i < n; ++i) {
            Gl q{strf("g%zu", gl.size()), g.coin()};
            std::string v = q.str ? strf("val %zu", gl.size()) : std::to_string(g.range(0, 1000000));
            t += q.name + " := " + (q.str ? "strcat(\"val \", \"" + std::to_string(gl.size()) + "\")" : v) + "\n";
            st.push_back({0, (int)gl.size(), q.str ? quote(v) : v});
            gl.push_back(q);
        }
        for (int i = (int)g.below(4); i > 0 && !gl.empty(); --i) {
            int k = (int)g.below(gl.size());
            if (g.coin()) k = (int)gl.size() - 1;
            Fn f{strf("f%d", nfn++), (gl[k].str ? 2 : 0) + (int)g.below(2), k};
            std::string &nm = gl[k].name;
            switch (f.kind) {
                case 0: t += "func " + f.name + "(v: int): void { junk(v % 5) " + nm + " = v }\n"; break;
                case 1: t += "func " + f.name + "(v: int): int { junk(v % 5) return " + nm + " }\n"; break;
                case 2: t += "func " + f.name + "(v: int): void { " + nm + " = strcat(\"made \", int_to_str(v)) junk(v % 5) }\n"; break;
                default: t += "func " + f.name + "(v: int): str { junk(v % 5) return " + nm + " }\n"; break;
            }
            fn.push_back(f);
        }
        for (int i = (int)g.below(3); i > 0 && !gl.empty(); --i) {
            int k = (int)g.below(gl.size());
            t += "emit(" + gl[k].name + ")\n";
            st.push_back({1, k, ""});
        }
        if (t.empty()) t = "junk(1)\n";
        c.say(strf("// piece %d\n", pc) + t);
        compilePiece(g, h, c, t, pc);
        for (int i = (int)g.below(6); i > 0; --i) {
            int ti = (int)g.below(nt);
            M &m = mo[ti];
            Thread &x = *th[ti];
            switch (g.below(5)) {
                case 0: case 1: {
                    if (fn.empty()) break;
                    Fn &f = g.coin() ? fn.back() : g.pick(fn);
                    int64_t a = g.range(0, 100000);
                    c.say(strf("// thread %d calls %s(%lld)\n", ti, f.name.c_str(), (long long)a));
                    m.begun = true;
                    Tiny_Value v = Tiny_NewInt(a);
                    std::string got = x.dump(Tiny_CallFunction(x.t.get(), Tiny_GetFunctionIndex(h.state, f.name.c_str()), &v, 1));
                    if (f.kind == 0) m.v[f.gl] = std::to_string(a);
                    else if (f.kind == 2) m.v[f.gl] = quote(strf("made %lld", (long long)a));
                    else PBT_CHECK(got == val(m, f.gl), "after piece %d %s returned %s on thread %d instead of %s", pc, f.name.c_str(), got.c_str(), ti, val(m, f.gl).c_str());
                    ++used;
                    break;
                }
                case 2: {
                    c.say(strf("// thread %d is started\n", ti));
                    x.start();
                    x.run();
                    m.begun = true;
                    for (St &s : st) if (s.kind) m.trace.push_back("emit " + val(m, s.gl)); else m.v[s.gl] = s.v;
                    compareTrace(m.trace, x.trace, strf("trace of thread %d after piece %d", ti, pc).c_str());
                    ++used;
                    break;
                }
                case 3: {
                    if (!m.begun || gl.empty()) break;
                    int k = (int)g.below(gl.size());
                    c.say(strf("// %s of thread %d is read\n", gl[k].name.c_str(), ti));
                    std::string got = x.global(gl[k].name);
                    PBT_CHECK(got == val(m, k), "after piece %d %s of thread %d is %s instead of %s", pc, gl[k].name.c_str(), ti, got.c_str(), val(m, k).c_str());
                    break;
                }
                default: {
                    if (!m.begun || gl.empty()) break;
                    int k = (int)g.below(gl.size());
                    if (gl[k].str) break;
                    int64_t a = g.range(0, 100000);
                    c.say(strf("// %s of thread %d is set to %lld\n", gl[k].name.c_str(), ti, (long long)a));
                    Tiny_SetGlobal(x.t.get(), Tiny_GetGlobalIndex(h.state, gl[k].name.c_str()), Tiny_NewInt(a));
                    m.v[k] = std::to_string(a);
                }
            }
        }
    }
    for (int i = 0; i < nt; ++i) {
        if (!mo[i].begun) continue;
        for (size_t k = 0; k < gl.size(); ++k) {
            std::string got = th[i]->global(gl[k].name);
            PBT_CHECK(got == val(mo[i], (int)k), "in the end %s of thread %d is %s instead of %s", gl[k].name.c_str(), i, got.c_str(), val(mo[i], (int)k).c_str());
        }
        th[i]->destroy();
        th[i]->ctx.check("thread");
    }
    c.nontrivial = used >= 2;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C08";
    p.title = "Compiling a program in pieces equals compiling it whole";
    p.assumptions = {"no thread is running while a later piece is compiled; pieces are cut where everything used has been declared"};
    Cfg cfg;
    cfg.defBeforeUse = true; cfg.items = 14;
    p.families.push_back({"pieces", "at least two pieces and two observations", [=](Gen &g, Case &c) { pieces(g, c, cfg); }, 9000, 1500000});
    p.families.push_back({"binding", "at least three pieces, each after new bindings", binding, 9000, 1500000});
    p.families.push_back({"late", "threads which live on while pieces are added did at least two things", late, 9000, 1500000});
    return run(argc, argv, p);
}
