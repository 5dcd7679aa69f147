#include <atomic>
#include <sched.h>
#include <thread>

#include "vals.h"
using namespace vals;

namespace {
// Runs the given bodies at the same time, each on its own OS thread.
void together(std::vector<std::function<void()>> &bodies) {
    std::vector<std::string> err(bodies.size());
    std::atomic<int> waiting{0};
    std::vector<std::thread> os;
    for (size_t i = 0; i < bodies.size(); ++i)
        os.emplace_back([&, i] {
            waiting.fetch_add(1, std::memory_order_relaxed);
            while (waiting.load(std::memory_order_relaxed) < (int)bodies.size()) sched_yield();
            try { bodies[i](); }
            catch (Failure &f) { err[i] = f.msg.empty() ? "failed" : f.msg; }
        });
    for (auto &t : os) t.join();
    for (size_t i = 0; i < err.size(); ++i) if (!err[i].empty()) fail(strf("thread %zu: %s", i, err[i].c_str()));
}
// How one OS thread runs its script thread.
struct Drive { int mode = 0; uint64_t every = 0; int rounds = 1; bool lookups = false, useDefault = false, compileFirst = false; };
Drive someDrive(Gen &g) {
    Drive d;
    d.mode = (int)g.below(3);
    if (g.coin()) d.every = 1 + g.below(40);
    d.rounds = (int)g.range(1, 3);
    d.lookups = g.coin();
    return d;
}
void run(const Drive &d, Thread &t) {
    uint64_t n = 0;
    if (d.mode == 0) { if (d.every) t.t->maxNumObjects = 0; t.run(); return; }
    do {
        if (d.every && n % d.every == 0) t.t->maxNumObjects = 0;
        if (d.mode == 2 && n % 64 == 0) sched_yield();
        ++n;
    } while (t.step());
}

// ---- the same generated program on several OS threads
void programs(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg);
    int n = (int)g.range(2, 4);
    std::vector<std::unique_ptr<Machine>> ms;
    std::vector<int64_t> seeds;
    std::vector<Drive> dr;
    for (int i = 0; i < n; ++i) {
        seeds.push_back((int64_t)g.below(4));
        dr.push_back(someDrive(g));
        ms.emplace_back(new Machine(d.p));
        ms[i]->input = seeds[i];
        ms[i]->run();
    }
    Host h;
    h.mustCompile(d.text.text);
    // the expected texts are made before the threads start: the model itself is not shared
    std::vector<std::vector<std::pair<std::string, std::string>>> globals(n);
    for (int i = 0; i < n; ++i) for (Var *v : d.p.globals) globals[i].push_back({v->name, ms[i]->dump(ms[i]->globals[v->slot])});
    std::vector<std::string> fnames;
    for (auto &f : d.p.funcs) fnames.push_back(f->name);
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < n; ++i)
        bodies.push_back([&, i] {
            for (int r = 0; r < dr[i].rounds; ++r) {
                Thread t(h);
                t.input = seeds[i];
                t.start();
                run(dr[i], t);
                PBT_CHECK(Tiny_IsThreadDone(t.t.get()), "stopped without being done");
                compareTrace(ms[i]->trace, t.trace);
                for (auto &q : globals[i]) { std::string got = t.global(q.first); PBT_CHECK(got == q.second, "global %s ends as %.400s instead of %.400s", q.first.c_str(), got.c_str(), q.second.c_str()); }
                PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
                if (dr[i].lookups) {
                    for (auto &f : fnames) PBT_CHECK(Tiny_GetFunctionIndex(h.state, f.c_str()) >= 0 && Tiny_FindFuncSymbol(h.state, f.c_str()), "function %s is not found", f.c_str());
                    PBT_CHECK(Tiny_FindTypeSymbol(h.state, "int") && Tiny_FindConstSymbol(h.state, "KI"), "symbols are not found");
                    char buf[512];
                    for (int pc = 0, k = 0; pc >= 0 && k < 100; ++k) if (!Tiny_DisasmOne(h.state, &pc, buf, sizeof buf)) break;
                }
                t.destroy();
                t.ctx.check("thread");
            }
        });
    together(bodies);
    c.nontrivial = d.m->trace.size() >= 2 && d.m->steps > 20;
    c.label(strf("threads:%d", n));
}

// ---- library calls
struct Lib {
    Gen &g;
    std::string out, decls;
    int serial = 0;
    std::set<std::string> used;
    explicit Lib(Gen &g) : g(g) {}
    std::string i(int d) {
        switch (d <= 0 ? g.below(3) : g.below(10)) {
            case 0: return std::to_string(g.range(0, 20));
            case 1: return strf("inp(%d)", (int)g.below(30));
            case 2: return "gi";
            case 3: return "(" + i(d - 1) + " " + std::string(1, "+-*"[g.below(3)]) + " " + i(d - 1) + ")";
            case 4: used.insert("strlen"); return "strlen(" + s(d - 1) + ")";
            case 5: used.insert("str_to_int"); return "str_to_int(" + s(d - 1) + ")";
            case 6: used.insert("stoi"); return strf("stoi(%s, %d)", s(d - 1).c_str(), (int)g.range(2, 36));
            case 7: used.insert("strchr"); return strf("strchr(%s, %d)", s(d - 1).c_str(), (int)g.range(48, 60));
            case 8: used.insert("stridx"); return strf("%s(strcat(%s, \"abcdefgh\"), %d)", g.coin() ? "stridx" : "sget", s(d - 1).c_str(), (int)g.below(8));
            default: used.insert("line"); return "cast(get_executing_line(), int)";
        }
    }
    std::string f(int d) {
        switch (d <= 0 ? g.below(2) : g.below(5)) {
            case 0: return strf("%d.25", (int)g.below(50));
            case 1: return "gf";
            case 2: used.insert("ston"); return "ston(" + s(d - 1) + ")";
            case 3: used.insert("floor"); return std::string(g.coin() ? "floor" : "ceil") + "(" + f(d - 1) + ")";
            default: return "(" + f(d - 1) + " * " + f(d - 1) + ")";
        }
    }
    std::string s(int d) {
        static const char *l[] = {"\"\"", "\"x\"", "\"12\"", "\"-7.5\"", "\"quote\\\"\\n\\\\\"", "KS"};
        switch (d <= 0 ? g.below(3) : g.below(14)) {
            case 0: return l[g.below(6)];
            case 1: return "gs";
            case 2: return strf("int_to_str(inp(%d))", (int)g.below(30));
            case 3: used.insert("int_to_str"); return "int_to_str(" + i(d - 1) + ")";
            case 4: used.insert("ntos"); return "ntos(" + (g.coin() ? i(d - 1) : f(d - 1)) + ")";
            case 5: case 6: used.insert("strcat"); return "strcat(" + s(d - 1) + ", " + s(d - 1) + (g.coin() ? ", " + s(d - 2) : "") + ")";
            case 7: { used.insert("substr"); int a = (int)g.below(6); return strf("substr(strcat(%s, \"abcdef\"), %d, %d)", s(d - 1).c_str(), a, a + (int)g.below(7 - a)); }
            case 8: used.insert("json"); return "cast(" + std::string(g.coin() ? "int_to_json(" + i(d - 1) : g.coin() ? "float_to_json(" + f(d - 1) : "str_to_json(" + s(d - 1)) + "), str)";
            case 9: used.insert("json"); return strf("P_to_json(new P{%s, %s, %s, %s})", i(d - 1).c_str(), s(d - 1).c_str(), f(d - 1).c_str(), g.coin() ? "true" : "gs == KS");
            case 10: used.insert("delegate"); return strf("delegate_str_int_str_call(%s(), %s, %s)", g.coin() ? "dA" : "dB", s(d - 1).c_str(), i(d - 1).c_str());
            case 11: used.insert("i64"); return strf("i64_to_string(i64_%s_many(int_to_i64(%s), int_to_i64(%s), int_to_i64(3)))", g.coin() ? "add" : "mul", i(d - 1).c_str(), i(d - 1).c_str());
            case 12: used.insert("call"); return strf("cast(hc(\"join\", %s, %s), str)", s(d - 1).c_str(), i(d - 1).c_str());
            default: return "join(" + s(d - 1) + ", " + i(d - 1) + ")";
        }
    }
    void stmt(int depth) {
        switch (depth > 0 ? g.below(22) : g.below(20)) {
            case 0: out += "emit(" + i(2) + ")\n"; break;
            case 1: out += "emit(" + s(2) + ")\n"; break;
            case 2: out += "emit(" + f(2) + ")\n"; break;
            case 3: out += "gi = " + i(2) + "\n"; break;
            case 4: out += "gs = " + s(2) + "\nif strlen(gs) > 200 { gs = substr(gs, 0, 50) }\n"; break;
            case 5: out += "gf = " + f(1) + "\n"; break;
            case 6: used.insert("array"); out += "ai_push(a1, " + i(2) + ")\n"; break;
            case 7: used.insert("array"); out += "sl_push(a2, " + s(2) + ")\n"; break;
            case 8: used.insert("array"); out += "if ai_len(a1) > 0 { emit(" + std::string(g.coin() ? "ai_pop" : "ai_shift") + "(a1)) }\n"; break;
            case 9: used.insert("sort"); out += "ai_sort(a1)\nemit(a1)\n"; break;
            case 10: used.insert("array"); out += "if sl_len(a2) > 1 { sl_remove(a2, 0) sl_insert(a2, 0, " + s(1) + ") emit(a2[0], sl_len(a2)) a2[0] = " + s(1) + " }\n"; break;
            case 11: used.insert("array"); out += strf("ai_resize_fill(a1, %d, %s)\nemit(a1)\n", (int)g.below(9), i(1).c_str()); break;
            case 12: used.insert("dict"); out += "d[" + s(1) + "] = " + (g.coin() ? s(2) : i(2)) + "\n"; break;
            case 13: used.insert("dict"); out += "{ k" + std::to_string(serial) + " := " + s(1) + "\nif dict_exists(d, k" + std::to_string(serial) + ") { emit(dict_get(d, k" + std::to_string(serial) + ")) dict_remove(d, k" + std::to_string(serial) + ") } }\n"; ++serial; break;
            case 14: used.insert("dict"); out += "dict_put(d, cast(" + i(1) + ", any), cast(" + s(1) + ", any))\nemit(array_any_len(dict_keys(d)), array_any_len(dict_values(d)))\n"; break;
            case 15: used.insert("dictsi"); out += "dict_str_int_put(ds, " + s(1) + ", " + i(1) + ")\nemit(array_str_len(dict_str_int_keys(ds)))\n"; break;
            case 16: used.insert("printf"); out += "printf(\"%s %i %f %q\\n\", " + s(1) + ", " + i(1) + ", " + f(1) + ", " + (g.coin() ? "a2" : s(1)) + ")\n"; break;
            case 17: used.insert("file"); out += "emit(write_file(path(), " + s(2) + "))\nemit(read_file(path()))\n"; break;
            case 18: used.insert("fopen"); out += strf("{ f%d := fopen(path(), \"wb\")\nfwrite(f%d, %s)\nfclose(f%d) f%d = fopen(path(), \"rb\") emit(fsize(f%d)) fseek(f%d, 1) emit(fread(f%d, 20)) fclose(f%d) }\n", serial, serial, s(2).c_str(), serial, serial, serial, serial, serial, serial); ++serial; break;
            case 19: used.insert("time"); out += "if time() < 1000 { emit(\"time\") }\njunkl(" + std::to_string(g.below(40)) + ")\n"; break;
            case 20: { int k = serial++; out += strf("for i%d := 0; i%d < %d; i%d += 1 {\n", k, k, (int)g.range(1, 6), k); for (int q = (int)g.range(1, 4); q > 0; --q) stmt(depth - 1); out += "}\n"; break; }
            default: out += "if " + i(1) + " > " + i(1) + " {\n"; stmt(depth - 1); out += "} else {\n"; stmt(depth - 1); out += "}\n"; break;
        }
    }
    std::string text() {
        return "struct P { i: int s: str f: float b: bool }\nuse json(\"P\")\nuse array(\"int\") as ai\nuse array(\"str\") as sl\nfunc join(s: str, i: int): str { return strcat(s, \":\", int_to_str(i)) }\nfunc twice(s: str, i: int): str { return strcat(s, int_to_str(i * 2), s) }\n"
               "use delegate(\"join\") as dA\nuse delegate(\"twice\") as dB\nfunc junkl(n: int) { for i := 0; i < n; i += 1 { strcat(\"junk\", int_to_str(i)) p := new P{i, \"\", 0.0, true} } }\n"
               "gi := inp(1)\ngs := int_to_str(inp(2))\ngf := 1.5\na1 := ai(3, 1, 2)\na2 := sl()\nd := dict()\nds := dict_str_int()\n" + out + "emit(gi, gs, gf, a1, a2, array_any_len(dict_keys(d)))\n";
    }
};
std::string pathOf(Thread *t) { return strf("%s/t%p", scratch().c_str(), (void *)t); }
Tiny_Value fPath(Tiny_StateThread *t, const Tiny_Value *, int) {
    std::string s = pathOf(&Thread::of(t));
    return Tiny_NewStringCopy(t, s.data(), s.size());
}
void reinit(const Drive &d, Host &h, Thread &t) {
    if (!d.useDefault) return;
    Tiny_InitThread(t.t.get(), h.state);
    t.t->userdata = &t;
}
void bindMore(Host &h) {
    Tiny_BindStandardIO(h.state);
    Tiny_BindI64(h.state);
    Tiny_BindFunction(h.state, "path(): str", fPath);
}
void once(const Drive &d, Host &h, int64_t input, std::vector<std::string> &trace) {
    Thread t(h);
    reinit(d, h, t);
    t.input = input;
    t.start();
    run(d, t);
    PBT_CHECK(Tiny_IsThreadDone(t.t.get()), "stopped without being done");
    trace = t.trace;
    PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    t.destroy();
    t.ctx.check("thread");
    remove(pathOf(&t).c_str());
}
void library(Gen &g, Case &c) {
    Lib l(g);
    for (int n = (int)g.range(3, 14); n > 0; --n) l.stmt(2);
    std::string text = l.text();
    c.say(text);
    Host h;
    bindMore(h);
    h.mustCompile(text);
    int n = (int)g.range(2, 4);
    std::vector<Drive> dr;
    std::vector<int64_t> in;
    std::vector<std::vector<std::string>> alone(n);
    for (int i = 0; i < n; ++i) {
        dr.push_back(someDrive(g));
        dr[i].useDefault = g.chance(1, 3);
        in.push_back((int64_t)g.below(4));
        once(Drive{}, h, in[i], alone[i]);
    }
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < n; ++i)
        bodies.push_back([&, i] {
            for (int r = 0; r < dr[i].rounds; ++r) {
                std::vector<std::string> tr;
                once(dr[i], h, in[i], tr);
                compareTrace(alone[i], tr);
            }
        });
    together(bodies);
    h.stateCtx.check("state");
    c.nontrivial = l.used.size() >= 3;
    for (auto &u : l.used) c.label("uses:" + u);
}
// ---- different states, compiled and run at the same time
void states(Gen &g, Case &c, const Cfg &cfg) {
    int n = (int)g.range(2, 3);
    struct One { std::string text; std::vector<std::string> want; Drive d; int64_t in; bool broken; std::string err; int pos; };
    std::vector<One> v(n);
    std::vector<std::unique_ptr<Diff>> ds;
    int total = 0;
    for (int i = 0; i < n; ++i) {
        v[i].d = someDrive(g);
        v[i].in = (int64_t)g.below(4);
        v[i].broken = g.chance(1, 4);
        if (g.coin()) {
            ds.emplace_back(new Diff);
            ds.back()->make(g, c, cfg);
            v[i].text = ds.back()->text.text;
            Machine m(ds.back()->p);
            m.input = v[i].in;
            m.run();
            v[i].want = m.trace;
            c.say("\n// ----\n");
        } else {
            Lib l(g);
            for (int k = (int)g.range(1, 6); k > 0; --k) l.stmt(1);
            v[i].text = l.text();
            c.say(v[i].text + "\n// ----\n");
            Host h;
            bindMore(h);
            h.mustCompile(v[i].text);
            once(Drive{}, h, v[i].in, v[i].want);
        }
        if (v[i].broken) {
            std::string bad = v[i].text + (g.coin() ? "\nx__ := 1 + \"a\"\n" : "\nfunc (\n");
            Host h;
            bindMore(h);
            Tiny_CompileResult r = h.compile(bad);
            v[i].text = bad;
            v[i].err = r.error.msg;
            v[i].pos = r.error.pos;
            PBT_CHECK(r.type != TINY_COMPILE_SUCCESS, "an invalid program compiles");
            c.label("with errors");
        }
        total += (int)v[i].want.size();
    }
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < n; ++i)
        bodies.push_back([&, i] {
            for (int r = 0; r < v[i].d.rounds; ++r) {
                Host h;
                bindMore(h);
                if (v[i].broken) {
                    Tiny_CompileResult q = h.compile(v[i].text);
                    PBT_CHECK(q.type != TINY_COMPILE_SUCCESS && q.error.pos == v[i].pos && v[i].err == q.error.msg, "the error is %.200s instead of %.200s", q.error.msg, v[i].err.c_str());
                    continue;
                }
                h.mustCompile(v[i].text);
                std::vector<std::string> tr;
                once(v[i].d, h, v[i].in, tr);
                compareTrace(v[i].want, tr);
                h.stateCtx.check("state");
            }
        });
    together(bodies);
    c.nontrivial = total >= 4;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C27";
    p.title = "A compiled state can be shared by concurrent OS threads without races";
    p.trustFlaky = true;
    p.workers = 4;
    p.assumptions = {"rand and srand share the C library's generator and are left out", "two to four OS threads, schedules chosen by the operating system; races are found by happens-before analysis whatever the schedule"};
    Cfg cfg;
    cfg.inputs = true; cfg.garbage = true; cfg.hostCalls = true; cfg.items = 9; cfg.mainBudget = 250;
    p.families.push_back({"programs", "at least two observations and more than twenty steps of the model", [=](Gen &g, Case &c) { programs(g, c, cfg); }, 1500, 200000});
    p.families.push_back({"library", "at least three kinds of library calls", library, 1500, 200000});
    p.families.push_back({"states", "at least four observations", [=](Gen &g, Case &c) { states(g, c, cfg); }, 800, 100000});
    return run(argc, argv, p);
}
