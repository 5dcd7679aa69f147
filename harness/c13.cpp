// Calling script functions from the host is re-entrant and restores state.
#include <deque>
#include "lang.h"
using namespace pbt;
using namespace lang;

namespace {
const char *kHelpers =
    "struct HzL { v: any n: HzL? }\n"
    "hz_g: any = null\n"
    "func hz_add(a: int, b: int): int { return a * 3 + b }\n"
    "func hz_fib(n: int): int { if (n < 2) return n return hz_fib(n - 1) + hz_fib(n - 2) }\n"
    "func hz_rep(s: str, n: int): str { r := \"\" i := 0 while (i < n) { r = strcat(r, s) i += 1 } return r }\n"
    "func hz_list(n: int, v: any): HzL { if (n <= 0) return new HzL{v, cast(null, HzL?)} x := new HzL{n, hz_list(n - 1, v)} return x }\n"
    "func hz_void(n: int) { i := 0 while (i < n) { strcat(\"garbage\", int_to_str(i)) i += 1 } }\n"
    "func hz_none() { }\n"
    "func hz_sum(a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int, i: int, j: int): int { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8 + i * 9 + j * 10 }\n"
    "func hz_id(x: any): any { junk(3) y := hz_list(2, x) z := strcat(\"a\", \"b\") return x }\n"
    "func hz_deep(n: int): int { if (n <= 0) return 0 return 1 + hz_deep(n - 1) }\n"
    "func hz_locals(a: int): int { b := a + 1 c := b + 1 d := c + 1 e := d + 1 f := e + 1 g := f + 1 h := g + 1 i := h + 1 j := i + 1 k := j + 1 l := k + 1 m := l + 1 junk(2) return a * 1000000 + b * 1000 + m }\n"
    "func hz_early(n: int): int { i := 0 while (i < n) { for j := 0; j < n; j += 1 { if (i * n + j == 7) { return i * 100 + j } } i += 1 } return -1 }\n"
    "func hz_nest(k: int, v: any): HzL { a := strcat(\"v\", int_to_str(k)) b := hook(k, v, a) return new HzL{b, new HzL{a, cast(null, HzL?)}} }\n"
    "func hz_foreign(a: str, b: str): str { return strcat(a, b, substr(a, 0, -1)) }\n"
    "func hz_get(): any { return hz_g }\n"
    "func hz_expr(a: int): int { return a + hz_add(a, hz_fib(4)) * (1 + hz_add(2, a)) }\n"
    "func hz_bool(a: bool, b: bool): bool { return a && !b || hz_early(3) == 201 }\n"
    "func hz_float(a: float, b: int): float { return a * 2.0 + b }\n"
    "hz_cnt := 0\n"
    "func hz_count(by: int): int { hz_cnt += by return hz_cnt }\n";

struct Snapshot {
    int pc, fp, sp, fc;
    std::string stack, frames, ret;
    static std::string raw(const Tiny_Value &v) {
        switch (v.type) {
            case TINY_VAL_NULL: return "n";
            case TINY_VAL_BOOL: return v.boolean ? "t" : "f";
            case TINY_VAL_INT: return "i" + std::to_string(v.i);
            case TINY_VAL_FLOAT: return "d" + fmtFloat(v.f);
            default: return strf("%d:%p", (int)v.type, (void *)v.obj);
        }
    }
    explicit Snapshot(const Tiny_StateThread &t) : pc(t.pc), fp(t.fp), sp(t.sp), fc(t.fc) {
        for (int i = 0; i < sp; ++i) stack += raw(t.stack[i]) + " ";
        for (int i = 0; i < fc; ++i) frames += strf("%d,%d,%d ", t.frames[i].pc, t.frames[i].fp, (int)t.frames[i].nargs);
        ret = raw(t.retVal);
    }
    void same(const Snapshot &o, const char *what) const {
        PBT_CHECK(pc == o.pc && fp == o.fp && sp == o.sp && fc == o.fc, "%s: position, frame, stack and depth were %d %d %d %d, after the call %d %d %d %d", what, pc, fp, sp, fc, o.pc, o.fp, o.sp, o.fc);
        PBT_CHECK(stack == o.stack, "%s: the stack held\n %s\nafter the call\n %s", what, stack.c_str(), o.stack.c_str());
        PBT_CHECK(frames == o.frames, "%s: the frames were\n %s\nafter the call\n %s", what, frames.c_str(), o.frames.c_str());
        PBT_CHECK(ret == o.ret, "%s: the pending result was %s, after the call %s", what, ret.c_str(), o.ret.c_str());
    }
};

struct Caller {
    Gen &g;
    Case &c;
    std::map<Thread *, int64_t> cnt;
    uint64_t calls = 0, nested = 0, inside = 0;
    int depth = 0, budget = 400;
    std::deque<std::string> strings;   // outlive everything
    std::vector<Thread *> all;
    bool later = false;  // more may be compiled into the state
    int lateUnits = 0;
    std::vector<int> lateGlobals;
    Caller(Gen &g, Case &c) : g(g), c(c) {}

    bool alive(Thread &t) { return t.t->pc >= 0; }
    bool ready(Thread &t) { return t.t->globalVars && !Tiny_IsNull(Tiny_GetGlobal(t.t.get(), Tiny_GetGlobalIndex(t.h.state, "hz_cnt"))); }
    Tiny_Value str(Thread &t, const std::string &s) {
        if (alive(t) && g.coin()) return Tiny_NewStringCopy(t.t.get(), s.data(), s.size());
        strings.push_back(s);
        return Tiny_NewConstString(strings.back().c_str());
    }
    Tiny_Value value(Thread &t, std::string &shown) {
        switch (g.below(alive(t) ? 6 : 4)) {
            case 0: { int64_t i = g.range(-5, 100); shown = std::to_string(i); return Tiny_NewInt(i); }
            case 1: { std::string s = "str" + std::to_string(g.below(50)); shown = quote(s); return str(t, s); }
            case 2: { double d = g.range(-8, 8) / 4.0; shown = "f" + fmtFloat(d); return Tiny_NewFloat(d); }
            case 3: shown = "null"; return Tiny_Null;
            case 4: {
                t.nats.emplace_back(new NatRec{g.range(0, 99), &t});
                static const Tiny_NativeProp prop = {"nat", [](void *) {}, [](Tiny_Context *, void *p) { NatRec *n = (NatRec *)p; ++n->freed; n->thread->natFreed++; }};
                shown = strf("#0<nat %lld>", (long long)t.nats.back()->id);
                return Tiny_NewNative(t.t.get(), t.nats.back().get(), &prop);
            }
            default: { std::string s = "dyn" + std::to_string(g.below(50)); shown = quote(s); return Tiny_NewStringCopy(t.t.get(), s.data(), s.size()); }
        }
    }
    bool room(Thread &t, int stack, int frames) { return t.t->sp + stack < TINY_THREAD_STACK_SIZE - 4 && t.t->fc + frames < TINY_THREAD_MAX_CALL_DEPTH - 2; }
    Tiny_Value invoke(Thread &t, const char *fn, const std::vector<Tiny_Value> &args) {
        int i = Tiny_GetFunctionIndex(t.h.state, fn);
        PBT_CHECK(i >= 0, "function %s is not found", fn);
        if (g.chance(1, 3)) t.t->maxNumObjects = 0;
        Snapshot a(*t.t);
        ++calls;
        Tiny_Value r = Tiny_CallFunction(t.t.get(), i, args.empty() ? nullptr : args.data(), (int)args.size());
        a.same(Snapshot(*t.t), fn);
        return r;
    }
    void want(Thread &t, const char *fn, Tiny_Value r, const std::string &w) {
        std::string got = t.dump(r);
        PBT_CHECK(got == w, "%s returned to the host %.300s instead of %.300s", fn, got.c_str(), w.c_str());
    }
    // A list made by hz_list(n, v).
    void wantList(Thread &t, Tiny_Value r, int n, const std::string &v) {
        for (int i = n; i > 0; --i) {
            PBT_CHECK(r.type == TINY_VAL_STRUCT, "element %d of the list returned to the host is %s", n - i, t.dump(r).c_str());
            want(t, "hz_list", Tiny_GetField(r, 0), std::to_string(i));
            r = Tiny_GetField(r, 1);
        }
        PBT_CHECK(r.type == TINY_VAL_STRUCT, "the end of the list returned to the host is %s", t.dump(r).c_str());
        want(t, "hz_list", Tiny_GetField(r, 0), v);
        PBT_CHECK(Tiny_IsNull(Tiny_GetField(r, 1)), "the list returned to the host does not end");
    }
    static int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
    void one(Thread &t) {
        if (--budget < 0) return;
        auto I = [](int64_t i) { return Tiny_NewInt(i); };
        int k = (int)g.below(later ? 21 : 18);
        switch (k) {
            case 0: { int64_t a = (int64_t)g.bits64() >> g.range(4, 60), b = g.range(-9, 9); if (room(t, 10, 2)) want(t, "hz_add", invoke(t, "hz_add", {I(a), I(b)}), std::to_string(a * 3 + b)); break; }
            case 1: { int n = (int)g.below(9); if (room(t, 10 + 4 * n, n + 2)) want(t, "hz_fib", invoke(t, "hz_fib", {I(n)}), std::to_string(fib(n))); break; }
            case 2: { int n = (int)g.below(12); std::string s = "x" + std::to_string(g.below(30)), w; for (int i = 0; i < n; ++i) w += s; if (room(t, 16, 2)) want(t, "hz_rep", invoke(t, "hz_rep", {str(t, s), I(n)}), quote(w)); break; }
            case 3: {
                int n = (int)g.below(6);
                if (!room(t, 14 + 6 * n, n + 2)) break;
                std::string v;
                Tiny_Value x = value(t, v);
                Tiny_Value r = invoke(t, "hz_list", {I(n), x});
                wantList(t, r, n, v);
                if (g.coin() && room(t, 40, 6)) { wantList(t, invoke(t, "hz_id", {r}), n, v); c.label("result passed on"); }
                break;
            }
            case 4: if (room(t, 16, 2)) want(t, "hz_void", invoke(t, "hz_void", {I(g.range(0, 12))}), "null"); break;
            case 5: if (room(t, 8, 2)) want(t, "hz_none", invoke(t, "hz_none", {}), "null"); break;
            case 6: {
                std::vector<Tiny_Value> a;
                int64_t w = 0;
                for (int i = 0; i < 10; ++i) { int64_t v = g.range(-100, 100); a.push_back(I(v)); w += v * (i + 1); }
                if (room(t, 30, 2)) want(t, "hz_sum", invoke(t, "hz_sum", a), std::to_string(w));
                break;
            }
            case 7: { std::string v; if (!room(t, 40, 6)) break; Tiny_Value x = value(t, v); want(t, "hz_id", invoke(t, "hz_id", {x}), v); break; }
            case 8: { int n = (int)g.below(15); if (room(t, 10 + 4 * n, n + 2)) want(t, "hz_deep", invoke(t, "hz_deep", {I(n)}), std::to_string(n)); break; }
            case 9: { int64_t a = g.range(-50, 50); if (room(t, 30, 2)) want(t, "hz_locals", invoke(t, "hz_locals", {I(a)}), std::to_string(a * 1000000 + (a + 1) * 1000 + a + 12)); break; }
            case 10: {
                int n = (int)g.below(9);
                int64_t w = -1;
                for (int i = 0; i < n && w < 0; ++i) for (int j = 0; j < n && w < 0; ++j) if (i * n + j == 7) w = i * 100 + j;
                if (room(t, 16, 2)) want(t, "hz_early", invoke(t, "hz_early", {I(n)}), std::to_string(w));
                break;
            }
            case 11: case 12: {
                if (depth > 6 || !room(t, 40, 4)) break;
                ++depth;
                ++nested;
                std::string v;
                int q = (int)g.below(100);
                Tiny_Value x = value(t, v);
                Tiny_Value r = invoke(t, "hz_nest", {I(q), x});
                --depth;
                PBT_CHECK(r.type == TINY_VAL_STRUCT, "hz_nest returned to the host %s", t.dump(r).c_str());
                want(t, "hz_nest", Tiny_GetField(r, 0), v);
                Tiny_Value m = Tiny_GetField(r, 1);
                PBT_CHECK(m.type == TINY_VAL_STRUCT, "hz_nest returned to the host %s", t.dump(r).c_str());
                want(t, "hz_nest", Tiny_GetField(m, 0), quote(strf("v%d", q)));
                break;
            }
            case 13: { std::string a = "a" + std::to_string(g.below(20)), b = "b" + std::to_string(g.below(20)); if (room(t, 20, 2)) { Tiny_Value x = str(t, a), y = str(t, b); want(t, "hz_foreign", invoke(t, "hz_foreign", {x, y}), quote(a + b + a)); } break; }
            case 14: {
                if (!ready(t) || !room(t, 10, 2)) break;
                std::string v;
                Tiny_Value x = value(t, v);
                int gi = Tiny_GetGlobalIndex(t.h.state, "hz_g");
                Tiny_SetGlobal(t.t.get(), gi, x);
                want(t, "hz_get", invoke(t, "hz_get", {}), v);
                want(t, "hz_g", Tiny_GetGlobal(t.t.get(), gi), v);
                break;
            }
            case 15: {
                if (!ready(t) || !room(t, 10, 2)) break;
                int64_t by = g.range(1, 9);
                cnt[&t] += by;
                want(t, "hz_count", invoke(t, "hz_count", {I(by)}), std::to_string(cnt[&t]));
                break;
            }
            case 16: { int64_t a = g.range(-20, 20); if (room(t, 40, 8)) want(t, "hz_expr", invoke(t, "hz_expr", {I(a)}), std::to_string(a + (a * 3 + 3) * (1 + 6 + a))); break; }
            case 18: {
                // what is declared after the thread was first used
                if (lateUnits > 3 && !g.chance(1, 4)) break;
                if (lateUnits > 12) break;
                bool running = false;
                for (auto *x : all) running |= alive(*x);
                if (running || depth) break;  // threads which are under way have no room for it
                int l = lateUnits++, ng = (int)g.range(1, 9);
                std::string u;
                for (int i = 0; i < ng; ++i) u += strf("lg%d_%d: any = null\n", l, i);
                u += strf("struct LS%d { a: any b: any }\nfunc lf%d(a: any, b: str): LS%d { lg%d_%d = a c := \"late%d\" r := new LS%d{lg%d_%d, strcat(b, c)} return r }\n", l, l, l, l, ng - 1, l, l, l, ng - 1);
                t.h.mustCompile(u, "late");
                lateGlobals.push_back(ng);
                c.label("declared later");
                break;
            }
            case 19: {
                if (!lateUnits || !room(t, 20, 3)) break;
                int l = (int)g.below(lateUnits);
                std::string v, b = "b" + std::to_string(g.below(30));
                Tiny_Value x = value(t, v), y = str(t, b);
                Tiny_Value r = invoke(t, strf("lf%d", l).c_str(), {x, y});
                PBT_CHECK(r.type == TINY_VAL_STRUCT, "a function declared later returned to the host %s", t.dump(r).c_str());
                want(t, "a function declared later", Tiny_GetField(r, 0), v);
                want(t, "a function declared later", Tiny_GetField(r, 1), quote(b + strf("late%d", l)));
                want(t, "a global declared later", Tiny_GetGlobal(t.t.get(), Tiny_GetGlobalIndex(t.h.state, strf("lg%d_%d", l, lateGlobals[l] - 1).c_str())), v);
                break;
            }
            case 20: {
                if (!lateUnits) break;
                int l = (int)g.below(lateUnits);
                std::string v;
                int gi = Tiny_GetGlobalIndex(t.h.state, strf("lg%d_%d", l, (int)g.below(lateGlobals[l])).c_str());
                PBT_CHECK(gi >= 0, "a global declared later is not found");
                Tiny_Value x = value(t, v);
                Tiny_SetGlobal(t.t.get(), gi, x);
                want(t, "a global declared later", Tiny_GetGlobal(t.t.get(), gi), v);
                break;
            }
            default:
                if (g.coin()) { bool a = g.coin(), b = g.coin(); if (room(t, 20, 4)) want(t, "hz_bool", invoke(t, "hz_bool", {Tiny_NewBool(a), Tiny_NewBool(b)}), (a && !b) || true ? "true" : "false"); }
                else { double a = g.range(-9, 9) / 8.0; int64_t b = g.range(-9, 9); if (room(t, 10, 2)) want(t, "hz_float", invoke(t, "hz_float", {Tiny_NewFloat(a), I(b)}), "f" + fmtFloat(a * 2 + (double)b)); }
        }
        if (g.chance(1, 12) && all.size() > 1) { Thread &o = *g.pick(all); if (&o != &t) { one(o); c.label("other thread"); } }
    }
    void some(Thread &t, int most) { for (int n = (int)g.range(1, most); n > 0; --n) one(t); }
    void attach(Thread &t, int density) {
        all.push_back(&t);
        cnt[&t] = 0;
        t.hook = [this](Thread &t, const Tiny_Value *a, int n) {
            PBT_CHECK(n == 3, "hook received %d arguments", n);
            std::string before = t.dumpAll(a, n);
            if (g.chance(3, 4)) some(t, 3);
            std::string after = t.dumpAll(a, n);
            PBT_CHECK(before == after, "the arguments of the foreign function were%s, after calls made by it%s", before.c_str(), after.c_str());
            return a[1];
        };
        t.onForeign = [this, density](Thread &t) {
            if (depth || !g.chance(1, density)) return;
            ++inside;
            ++depth;
            some(t, 2);
            --depth;
        };
    }
};

// Host calls at every kind of moment of generated runs.
void anytime(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg);
    Host h;
    h.mustCompile(kHelpers, "helpers");
    h.mustCompile(d.text.text);
    Caller call(g, c);
    call.later = g.chance(1, 3);
    int n = g.chance(1, 4) ? 2 : 1;
    std::vector<std::unique_ptr<Thread>> ts;
    for (int i = 0; i < n; ++i) { ts.emplace_back(new Thread(h)); call.attach(*ts[i], (int)g.range(2, 12)); }
    uint64_t outside = 0, between = 0;
    for (auto &t : ts) if (g.coin()) { call.some(*t, call.later ? 8 : 3); ++outside; c.label("before the run"); }
    for (auto &t : ts) { t->start(); if (g.chance(1, 3)) call.some(*t, 2); }
    std::vector<bool> done(n);
    int den = (int)g.range(1, 40);
    bool every = g.chance(1, 6);
    if (every) call.budget = 3000;
    for (int left = n; left;) {
        int i = (int)g.below(n);
        while (done[i]) i = (i + 1) % n;
        Thread &t = *ts[i];
        if (!t.step()) { done[i] = true; --left; continue; }
        if ((every || g.chance(1, den)) && call.budget > 0) { ++between; call.one(t); }
    }
    for (auto &t : ts) {
        if (g.coin()) { call.some(*t, call.later ? 12 : 3); c.label("after the run"); ++outside; }
        d.check(*t);
        PBT_CHECK(t->global("hz_cnt") == std::to_string(call.cnt[t.get()]), "hz_cnt is %s instead of %lld", t->global("hz_cnt").c_str(), (long long)call.cnt[t.get()]);
    }
    c.labelIf(every, "after every cycle");
    c.labelIf(call.inside > 0, "inside foreign functions");
    c.labelIf(call.nested > 0, "nested");
    c.nontrivial = between + call.inside >= 3 && call.calls >= 3;
}

// Functions of generated programs, called by the host after the run, compared with the model.
void generated(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg);
    Host h;
    h.mustCompile(d.text.text);
    Thread t(h);
    t.start();
    t.run();
    d.check(t);
    std::vector<Func *> fs;
    for (auto &f : d.p.funcs) if (Tiny_GetFunctionIndex(h.state, f->name.c_str()) >= 0) fs.push_back(f.get());
    if (fs.empty()) return;
    int made = 0;
    std::deque<std::string> keep;
    for (int k = (int)g.range(1, 6); k > 0; --k) {
        Func *f = g.pick(fs);
        std::vector<Val> a;
        std::vector<Tiny_Value> v;
        bool ok = true;
        for (Var *q : f->params) {
            std::vector<Var *> same;
            for (Var *w : d.p.globals) if (w->type == q->type && (d.m->globals[w->slot].t != Val::Nul || q->type->k == K::Nullable)) same.push_back(w);
            if (!same.empty() && g.coin() && !(f->fuel && q == f->params[0])) {
                Var *w = g.pick(same);
                a.push_back(d.m->globals[w->slot]);
                v.push_back(Tiny_GetGlobal(t.t.get(), Tiny_GetGlobalIndex(h.state, w->name.c_str())));
                continue;
            }
            switch (q->type->k) {
                case K::Int: { int64_t i = g.range(0, 4); a.push_back(Val::n(i)); v.push_back(Tiny_NewInt(i)); break; }
                case K::Bool: { bool b = g.coin(); a.push_back(Val::b(b)); v.push_back(Tiny_NewBool(b)); break; }
                case K::Float: { double x = g.range(-20, 20) / 4.0; a.push_back(Val::fl(x)); v.push_back(Tiny_NewFloat(x)); break; }
                case K::Str: { std::string s = strf("arg%d", (int)g.below(20)); keep.push_back(s); a.push_back(Val::st(s)); v.push_back(Tiny_NewConstString(keep.back().c_str())); break; }
                case K::Nullable: a.push_back(Val::null()); v.push_back(Tiny_Null); break;
                default: ok = false;
            }
        }
        if (!ok) continue;
        Val w = d.m->call(f, a);   // may fall outside the domain, before anything was called
        if (g.chance(1, 3)) t.t->maxNumObjects = 0;
        c.say(strf("// host calls %s(%s)\n", f->name.c_str(), d.m->dumpAll(a).c_str()));
        Snapshot before(*t.t);
        Tiny_Value r = Tiny_CallFunction(t.t.get(), Tiny_GetFunctionIndex(h.state, f->name.c_str()), v.data(), (int)v.size());
        before.same(Snapshot(*t.t), f->name.c_str());
        ++made;
        std::string want = f->ret->k == K::Void ? "null" : d.m->dump(w), got = t.dump(r);
        PBT_CHECK(want == got, "%s returned to the host %.400s instead of %.400s", f->name.c_str(), got.c_str(), want.c_str());
        d.check(t);
    }
    c.nontrivial = made > 0;
    c.label(strf("calls:%d", made));
}
// Functions called by their name and number from the program itself, with operands, arguments and locals under way.
// The host calls functions of many parameters, before, during and after the run.
void wideCalls(Gen &g, Case &c) {
    int n = g.chance(1, 3) ? (int)g.range(60, 100) : (int)g.range(0, 60);
    auto def = [&](const char *name, int n) {
        std::string t = strf("func %s(", name);
        for (int i = 0; i < n; ++i) t += strf("%sp%d: int", i ? ", " : "", i);
        t += "): int {\n  h := 7\n";
        for (int i = 0; i < n; ++i) t += strf("  h = (h * 31 + p%d) %% 1000003\n", i);
        return t + "  return h\n}\n";
    };
    auto hash = [](const std::vector<int64_t> &a) { int64_t h = 7; for (auto x : a) h = (h * 31 + x) % 1000003; return h; };
    int n2 = (int)g.below(20);
    std::string t = def("wide", n) + def("other", n2) + "i := 0\nwhile (i < 6) {\n  hook(i)\n  i += 1\n}\n";
    c.say(t);
    c.nontrivial = n > 8;
    c.labelIf(n > 60, "over 60 arguments");
    Host h;
    h.mustCompile(t);
    Thread th(h);
    int calls = 0;
    auto call = [&](Thread &t) {
        for (const char *name : {"wide", "other"}) {
            std::vector<int64_t> a;
            std::vector<Tiny_Value> v;
            for (int i = 0, k = *name == 'w' ? n : n2; i < k; ++i) { a.push_back(g.range(0, 100000)); v.push_back(Tiny_NewInt(a.back())); }
            Tiny_Value r = Tiny_CallFunction(t.t.get(), Tiny_GetFunctionIndex(h.state, name), v.data(), (int)v.size());
            PBT_CHECK(r.type == TINY_VAL_INT && r.i == hash(a), "%s called with %zu arguments gives %lld instead of %lld", name, a.size(), (long long)r.i, (long long)hash(a));
            ++calls;
        }
    };
    th.hook = [&](Thread &t, const Tiny_Value *, int) { if (g.coin()) call(t); return Tiny_Null; };
    if (g.coin()) call(th);
    th.start();
    while (th.step()) if (g.chance(1, 12)) call(th);
    PBT_CHECK(th.error.empty(), "%s", th.error.c_str());
    PBT_CHECK(th.global("i") == "6", "the program ended with i = %s", th.global("i").c_str());
    call(th);
    th.destroy();
}
void byName(Gen &g, Case &c) {
    Program p;
    Machine m(p);
    int n = (int)g.range(1, 6);
    struct F { int np, shape, to, arg; std::string name; int64_t k; };
    std::vector<F> fs;
    std::vector<std::string> names = {"f", "g", "call", "main", "x1", "longer_name_of_a_function"};
    for (int i = 0; i < n; ++i) fs.push_back({(int)g.below(5), (int)g.below(6), i + 1 + (int)g.below(2), (int)g.below(4), names[i], (int64_t)g.range(0, 99)});
    std::vector<std::string> trace;
    std::string t;
    auto q = [](const std::string &s) { return "\"" + s + "\""; };
    // how a function is looked up
    auto idx = [&](const F &f) -> std::string {
        size_t h = f.name.size() / 2;
        if (g.chance(1, 4)) return "get_function_index(strcat(" + q(f.name.substr(0, h)) + ", " + q(f.name.substr(h)) + "))";
        return "get_function_index(" + q(f.name) + ")";
    };
    std::function<Val(const F &, const std::vector<Val> &)> run = [&](const F &f, const std::vector<Val> &a) -> Val {
        std::vector<Val> e = {Val::st(f.name)};
        for (auto &v : a) e.push_back(v);
        trace.push_back("emit" + m.dumpAll(e));
        Val loc = Val::st(strf("l%lld", (long long)f.k));
        const F *to = f.to < n ? &fs[f.to] : nullptr;
        auto args = [&](const Val &firstArg) { std::vector<Val> r; for (int i = 0; i < to->np; ++i) r.push_back(i == 0 ? firstArg : i == 1 && f.np ? a[0] : i == 2 ? loc : Val::n(f.k + i)); return r; };
        if (!to) return f.np ? a[f.arg % f.np] : loc;
        switch (f.shape) {
            case 0: return run(*to, args(Val::n(f.k)));
            case 1: { Val r = run(*to, args(loc)); trace.push_back("emit" + m.dumpAll({Val::n(f.k), r, loc})); return r; }
            case 2: run(*to, args(Val::n(f.k))); return f.np ? a[f.arg % f.np] : loc;
            case 3: { Val r = Val::n(f.k); if (to->np) r = run(*to, args(r)); Val r2 = run(*to, args(r)); return r2; }
            case 4: { Val r = run(*to, args(Val::st("deep"))); trace.push_back("emit" + m.dumpAll({r, loc})); return Val::n(f.k * 2); }
            default: { Val r = Val::null(); for (int i = 0; i < 2; ++i) r = run(*to, args(Val::n(i))); return r; }
        }
    };
    for (int at = 0; at < n; ++at) {
        F &f = fs[at];
        t += "func " + f.name + "(";
        for (int i = 0; i < f.np; ++i) t += strf("%sp%d: any", i ? ", " : "", i);
        t += "): any {\n  emit(" + q(f.name);
        for (int i = 0; i < f.np; ++i) t += strf(", p%d", i);
        t += strf(")\n  loc := strcat(\"l\", int_to_str(%lld))\n", (long long)f.k);
        std::string mine = f.np ? strf("p%d", f.arg % f.np) : "loc";
        if (f.to >= n) { t += "  return " + mine + "\n}\n"; continue; }
        F &to = fs[f.to];
        auto call = [&](const std::string &firstArg) {
            std::string r = "call_function(" + idx(to);
            for (int i = 0; i < to.np; ++i) r += ", " + (i == 0 ? firstArg : i == 1 && f.np ? std::string("p0") : i == 2 ? std::string("loc") : strf("%lld", (long long)f.k + i));
            return r + ")";
        };
        std::string k = std::to_string(f.k);
        switch (f.shape) {
            case 0: t += "  return " + call(k) + "\n"; break;
            case 1: t += "  r := " + call("loc") + "\n  emit(" + k + ", r, loc)\n  return r\n"; break;
            case 2: t += "  " + call(k) + "\n  return " + mine + "\n"; break;
            case 3: t += "  return " + call(call(k)) + "\n"; break;
            case 4: t += "  emit(" + call("strcat(\"de\", \"ep\")") + ", loc)\n  return " + k + " * 2\n"; break;
            default: t += "  r: any = null\n  for i := 0; i < 2; i += 1 { r = " + call("i") + " }\n  return r\n"; break;
        }
        t += "}\n";
    }
    t += "var := 5\n";
    int made = 0;
    for (int k = (int)g.range(1, 4); k > 0; --k) {
        F &f = fs[g.below(n)];
        std::vector<Val> a;
        std::string args;
        for (int i = 0; i < f.np; ++i) {
            if (g.coin()) { a.push_back(Val::n(g.range(-3, 300))); args += ", " + std::to_string(a.back().i); }
            else { std::string s = strf("a%d", (int)g.below(50)); a.push_back(Val::st(s)); args += ", strcat(\"\", " + q(s) + ")"; }
        }
        std::string call = "call_function(" + idx(f) + args + ")";
        Val r = run(f, a);
        trace.push_back("emit" + m.dumpAll({Val::st("top"), r, Val::n(7)}));
        t += "emit(\"top\", " + call + ", 7)\n";
        ++made;
        if (g.chance(1, 3)) {
            // nothing of that name that the program defines
            static const char *none[] = {"nope", "", "emit", "strlen", "var", "int", "F", "ff", "get_function_index", "array", "KI"};
            t += strf("emit(get_function_index(\"%s\"))\n", none[g.below(11)]);
            trace.push_back("emit" + m.dumpAll({Val::n(-1)}));
        }
        if (g.chance(1, 3)) {
            t += strf("junk(%d)\n", (int)g.range(1, 30));
        }
    }
    c.say(t);
    c.nontrivial = trace.size() >= 4;
    c.labelIf(trace.size() > 100, "over 100 calls");
    Host h;
    h.mustCompile(t);
    for (int i = 0; i < n; ++i) PBT_CHECK(Tiny_GetFunctionIndex(h.state, fs[i].name.c_str()) >= 0, "the host does not find the function %s", fs[i].name.c_str());
    Thread th(h);
    th.start();
    int mode = (int)g.below(3);
    uint64_t i = 0;
    if (mode == 0) th.run();
    else do { if (mode == 1 || i % 5 == 0) th.t->maxNumObjects = 0; ++i; } while (th.step());
    PBT_CHECK(th.error.empty(), "%s", th.error.c_str());
    compareTrace(trace, th.trace);
    th.destroy();
    th.ctx.check("thread context");
    PBT_CHECK(th.ctx.live.empty(), "%zu blocks remain", th.ctx.live.size());
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C13";
    p.title = "Calling script functions from the host is re-entrant and restores state";
    p.assumptions = {"calls are made only where the stack and the call depth have room for them", "values from the host's heap functions are made only while the thread is running (the library asserts this)"};
    Cfg cfg;
    cfg.garbage = true; cfg.hostCalls = true; cfg.items = 9; cfg.mainBudget = 220;
    Cfg cfg2;
    cfg2.garbage = true; cfg2.maxFuncs = 5; cfg2.items = 7; cfg2.mainBudget = 150;
    p.families.push_back({"anytime", "at least three calls inside the run", [=](Gen &g, Case &c) { anytime(g, c, cfg); }, 8000, 1200000});
    p.families.push_back({"generated", "at least one generated function was called by the host", [=](Gen &g, Case &c) { generated(g, c, cfg2); }, 8000, 1200000});
    p.families.push_back({"wide calls", "more than eight arguments", wideCalls, 3000, 400000});
    p.families.push_back({"by name", "at least four observations", byName, 4000, 700000});
    return run(argc, argv, p);
}
