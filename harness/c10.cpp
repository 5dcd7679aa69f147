#include <algorithm>

#include "lang.h"
using namespace pbt;
using namespace lang;

namespace {
void reach(Machine &m, const Val &v, std::set<int> &s) {
    std::vector<Val> w{v};
    while (!w.empty()) {
        Val x = w.back();
        w.pop_back();
        if (x.t != Val::Obj || !s.insert(x.o).second) continue;
        for (auto &y : m.heap[x.o].f) w.push_back(y);
        for (auto &q : m.heap[x.o].d) { w.push_back(q.first); w.push_back(q.second); }
    }
}
void natives(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg);
    Host h;
    // the last call returns nothing that could be kept as the last result
    h.mustCompile(d.text.text + "\nfunc verif_noop(): int { return 0 }\nverif_noop()\n");
    auto tp = std::make_unique<Thread>(h);
    Thread &t = *tp;
    t.start();
    int mode = (int)g.below(3);
    uint64_t stop = g.chance(1, 4) ? g.below(400) : ~0ULL, n = 0;  // abandoned in the middle, sometimes
    bool more = true;
    if (mode == 0 && stop == ~0ULL) { t.run(); more = false; }
    else while (n < stop) { if (mode == 1 || n % 7 == 0) t.t->maxNumObjects = 0; ++n; if (!(more = t.step())) break; }
    size_t reachable = 0;
    if (!more) {
        d.check(t);
        std::set<int> live;
        for (auto &v : d.m->globals) reach(*d.m, v, live);
        std::set<int64_t> ids;
        for (int o : live) if (d.m->heap[o].t == MObj::Nat) ++reachable;
        int f = Tiny_GetFunctionIndex(h.state, "verif_noop");
        for (int i = 0; i < 2; ++i) { t.t->maxNumObjects = 0; Tiny_CallFunction(t.t.get(), f, nullptr, 0); }
        compareGlobals(*d.m, t);  // nothing reachable was touched
        size_t unfreed = t.nats.size() - t.natFreed;
        PBT_CHECK(unfreed >= reachable, "%zu natives are reachable but only %zu are not finalized", reachable, unfreed);
        PBT_CHECK(unfreed <= reachable, "%zu natives are reachable but %zu are still held after a collection", reachable, unfreed);
    } else c.label("abandoned");
    c.nontrivial = t.nats.size() >= 3;
    c.labelIf(reachable > 0, "reachable at the end");
    t.destroy();
    PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    for (auto &r : t.nats) PBT_CHECK(r->freed == 1, "native %lld was finalized %d times by the end of its thread", (long long)r->id, r->freed);
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks (%zu bytes) of the thread remain after it was destroyed", t.ctx.live.size(), t.ctx.cur);
}

// A loop over a fixed live set which makes garbage of some kinds.
struct Peak { size_t bytes = 0, nats = 0, liveBytes = 0, liveNats = 0; uint64_t made = 0; };
void bounded(Gen &g, Case &c) {
    int live = (int)(g.chance(1, 4) ? g.range(50, 400) : g.range(0, 20));
    std::string head =
        "use array(\"any\") as arr\nstruct P { n: int other: P? data: any }\nlive := arr()\n"
        "func verif_noop(): int { return 0 }\n"
        "func mk(k: int): P { p := new P{k, cast(null, P?), null} q := new P{k, p, p} p.other = q return p }\n"
        "func deep(k: int): any { if (k <= 0) return nat(k) return arr(deep(k - 1), k) }\n";
    head += strf("setup := 0\nwhile (setup < %d) { arr_push(live, new P{setup, cast(null, P?), nat(setup)}) setup += 1 }\n", live);
    std::string body;
    int kinds = (int)g.range(1, 4);
    std::set<std::string> labels;
    bool rotates = false;
    for (int i = 0; i < kinds; ++i) {
        switch (g.below(12)) {
            case 0: body += "  nat(i)\n"; labels.insert("native"); break;
            case 1: body += "  s" + std::to_string(i) + " := strcat(\"garbage\", int_to_str(i))\n"; labels.insert("string"); break;
            case 2: body += "  mk(i)\n"; labels.insert("cyclic structs"); break;
            case 3: body += "  arr(1, \"x\", nat(i))\n"; labels.insert("array"); break;
            case 4: body += "  dict(\"a\", nat(i), \"b\", i)\n"; labels.insert("dict"); break;
            case 5: body += strf("  junk(%d)\n", (int)g.range(1, 8)); labels.insert("several in one call"); break;
            case 6: body += strf("  deep(%d)\n", (int)g.range(1, 4)); labels.insert("nested"); break;
            case 7: body += strf("  c%d := arr() arr_push(c%d, c%d) arr_push(c%d, nat(i))\n", i, i, i, i); labels.insert("array holding itself"); break;
            case 8: body += strf("  d%d := dict() dict_put(d%d, \"self\", d%d) dict_put(d%d, \"p\", mk(i))\n", i, i, i, i); labels.insert("dict holding itself"); break;
            case 9: body += strf("  x%d := hc(\"mk\", i)\n", i); labels.insert("host call"); break;
            case 10:
                if (live > 0) { body += strf("  arr_set(live, i %% %d, new P{i, cast(null, P?), nat(i)})\n", live); labels.insert("replaces live objects"); rotates = true; }
                else body += "  nat(i)\n";
                break;
            default: body += strf("  if (i %% 3 == 0) { tmp%d := mk(i) tmp%d.data = arr(tmp%d, substr(\"abcdef\", 1, 4)) }\n", i, i, i); labels.insert("mixed"); break;
        }
    }
    int n = (int)g.range(300, 900);
    int factor = 6;
    auto text = [&](int iters) { return head + strf("i := 0\nwhile (i < %d) {\n", iters) + body + "  i += 1\n}\n"; };
    c.say(text(n));
    for (auto &l : labels) c.label(l);
    c.label(live > 40 ? "live: many" : live ? "live: few" : "live: none");
    auto measure = [&](int iters) {
        Peak p;
        Host h;
        h.mustCompile(text(iters));
        Thread t(h);
        t.start();
        while (t.step()) p.nats = std::max(p.nats, t.nats.size() - t.natFreed);
        p.bytes = t.ctx.peak;
        int f = Tiny_GetFunctionIndex(h.state, "verif_noop");
        for (int i = 0; i < 2; ++i) { t.t->maxNumObjects = 0; Tiny_CallFunction(t.t.get(), f, nullptr, 0); }
        p.liveBytes = t.ctx.cur;
        p.liveNats = t.nats.size() - t.natFreed;
        p.made = t.nats.size();
        t.destroy();
        PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
        for (auto &r : t.nats) PBT_CHECK(r->freed == 1, "native %lld was finalized %d times", (long long)r->id, r->freed);
        PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain after the thread was destroyed", t.ctx.live.size());
        return p;
    };
    Peak a = measure(n), b = measure(n * factor);
    c.nontrivial = true;
    // the same reachable set, however long it runs
    PBT_CHECK(b.liveNats <= (size_t)live + 12, "%zu natives are held at the end although %d are reachable", b.liveNats, live);
    PBT_CHECK(b.liveBytes <= a.liveBytes + 4096, "after %d iterations %zu bytes are held at the end, after %d iterations %zu", n, a.liveBytes, n * factor, b.liveBytes);
    PBT_CHECK(b.bytes <= a.bytes + a.bytes / 4 + 16384, "peak of %zu bytes in %d iterations but %zu in %d", a.bytes, n, b.bytes, n * factor);
    size_t bound = 4 * (size_t)live + 200;
    PBT_CHECK(a.nats <= bound && b.nats <= bound, "%zu natives were held at a time although at most about %d are reachable", std::max(a.nats, b.nats), live);
    // Every live element takes about six blocks of at most some hundred bytes; garbage may multiply that by a constant.
    size_t lim = 8 * b.liveBytes + 100000;
    PBT_CHECK(b.bytes <= lim, "peak of %zu bytes while about %zu are reachable", b.bytes, b.liveBytes);
    (void)rotates;
}
// The reachable set grows and shrinks: what is held follows it down.
void shrink(Gen &g, Case &c) {
    int n = (int)g.range(200, 3000);
    int keep = (int)g.below(5);
    static const char *how[] = {"arr_clear(live)", "live = arr()", "while (arr_len(live) > %d) arr_pop(live)", "while (arr_len(live) > %d) arr_shift(live)", "arr_resize_fill(live, %d, 0)"};
    int k = (int)g.below(5);
    if (k < 2) keep = 0;
    if (k == 3 && n > 800) k = 2;
    std::string t = "use array(\"any\") as arr\nlive := arr()\nfunc verif_noop(): int { return 0 }\n";
    t += strf("i := 0\nwhile (i < %d) { arr_push(live, nat(i)) i += 1 }\n", n);
    t += strf(how[k], keep) + "\n";
    // The first loop is long enough for a collection after the shrinking, whatever the threshold was; from then on few objects are reachable.
    t += strf("hook(0)\ni = 0\nwhile (i < %d) { nat(i) i += 1 }\nhook(1)\ni = 0\nwhile (i < %d) { nat(i) i += 1 }\nhook(2)\n", 4 * n + 100, 3 * n + 500);
    c.say(t);
    c.nontrivial = true;
    Host h;
    h.mustCompile(t);
    Thread th(h);
    size_t at = 0, late = 0;
    int phase = -1;
    th.hook = [&](Thread &t, const Tiny_Value *a, int) { phase = (int)Tiny_ToInt(a[0]); if (phase == 1) at = t.nats.size() - t.natFreed; return Tiny_Null; };
    th.start();
    while (th.step()) if (phase == 2) late = std::max(late, th.nats.size() - th.natFreed);
    PBT_CHECK(late <= (size_t)(4 * keep + 200), "%zu natives were held while %d were reachable, %d having been reachable long before", late, keep, n);
    int f = Tiny_GetFunctionIndex(h.state, "verif_noop");
    for (int i = 0; i < 2; ++i) { th.t->maxNumObjects = 0; Tiny_CallFunction(th.t.get(), f, nullptr, 0); }
    size_t end = th.nats.size() - th.natFreed;
    PBT_CHECK(end >= (size_t)keep && end <= (size_t)keep + 8, "%zu natives are held although %d are reachable", end, keep);
    PBT_CHECK(at <= (size_t)(2 * n + 100), "%zu natives were held while %d were reachable, after %d had been", at, keep, n);
    th.destroy();
    for (auto &r : th.nats) PBT_CHECK(r->freed == 1, "native %lld was finalized %d times", (long long)r->id, r->freed);
}
// Natives of several kinds: any address, also null and shared ones, with and without a name, marking function or finalizer.
// Those with a marking function keep another native (a kid) of their address alive.
struct Kid { Tiny_Value v; bool freed = false, held = false; };
struct Ends { std::multiset<const void *> made, freed; std::map<const void *, std::vector<std::unique_ptr<Kid>>> kids; const Tiny_Context *ctx = nullptr; bool other = false; };
Ends *gEnds;
void endFree(Tiny_Context *ctx, void *p) { gEnds->freed.insert(p); if (ctx != gEnds->ctx) gEnds->other = true; }
void endMark(void *p) {
    for (auto &k : gEnds->kids[p]) if (!k->freed) Tiny_ProtectFromGC(k->v);
}
void kidFree(Tiny_Context *, void *p) { ((Kid *)p)->freed = true; }
const Tiny_NativeProp kKid = {"kid", nullptr, kidFree};
const Tiny_NativeProp kEnds[] = {
    {"free", nullptr, endFree}, {"both", endMark, endFree}, {"none", nullptr, nullptr}, {"mark", endMark, nullptr}, {nullptr, nullptr, endFree}};
Tiny_Value fEnd(Tiny_StateThread *t, const Tiny_Value *a, int) {
    int k = (int)Tiny_ToInt(a[1]);
    void *p = (void *)(uintptr_t)Tiny_ToInt(a[0]);
    if (k > 4) return Tiny_NewNative(t, p, nullptr);
    if (kEnds[k].finalize) gEnds->made.insert(p);
    if (kEnds[k].protectFromGC) {
        gEnds->kids[p].push_back(std::make_unique<Kid>());
        Kid *kid = gEnds->kids[p].back().get();
        kid->v = Tiny_NewNative(t, kid, &kKid);
        kid->held = Tiny_ToBool(a[2]);
    }
    return Tiny_NewNative(t, p, &kEnds[k]);
}
void finalizers(Gen &g, Case &c) {
    Ends ends;
    gEnds = &ends;
    std::string t = "use array(\"any\") as arr\nhold := arr()\nfunc verif_noop(): int { return 0 }\n";
    int n = (int)g.range(1, 40), held = 0, nulls = 0;
    std::vector<std::pair<int64_t, int>> in;
    std::multiset<const void *> keeps;
    bool clear = g.chance(1, 4);
    for (int i = 0; i < n; ++i) {
        int64_t a = g.chance(1, 3) ? 0 : (int64_t)g.range(1, 9) * 8;
        int k = (int)g.below(6);
        bool hold = g.chance(1, 3);
        std::string e = strf("end(%lld, %d, %s)", (long long)a, k, hold ? "true" : "false");
        if (!a && k < 5 && kEnds[k].finalize) ++nulls;
        if (hold) { t += "arr_push(hold, " + e + ")\n"; ++held; in.push_back({a, k}); if (k < 5 && kEnds[k].finalize) keeps.insert((void *)(uintptr_t)a); }
        else t += e + "\n";
        if (g.chance(1, 4)) t += strf("junk(%d)\n", (int)g.range(1, 60));
    }
    if (clear) { t += "hold = arr()\n"; in.clear(); keeps.clear(); }
    c.say(t);
    c.nontrivial = n >= 3;
    c.labelIf(nulls > 0, "finalizer with a null address");
    c.labelIf(!keeps.empty(), "held");
    Host h;
    Tiny_BindFunction(h.state, "end(int, int, bool): any", fEnd);
    h.mustCompile(t);
    Thread th(h);
    ends.ctx = &th.t->ctx;
    th.start();
    int mode = (int)g.below(3);
    uint64_t i = 0;
    if (mode == 0) th.run();
    else do { if (mode == 1 || i % 5 == 0) th.t->maxNumObjects = 0; ++i; } while (th.step());
    int f = Tiny_GetFunctionIndex(h.state, "verif_noop");
    for (int k = 0; k < 2; ++k) { th.t->maxNumObjects = 0; Tiny_CallFunction(th.t.get(), f, nullptr, 0); }
    PBT_CHECK(th.error.empty(), "%s", th.error.c_str());
    std::multiset<const void *> left = ends.made;
    for (auto p : ends.freed) { auto q = left.find(p); PBT_CHECK(q != left.end(), "address %p was finalized more often than objects were made for it", p); left.erase(q); }
    for (auto p : std::set<const void *>(keeps.begin(), keeps.end()))
        PBT_CHECK(left.count(p) >= keeps.count(p), "%zu objects for address %p are held but only %zu are not finalized", keeps.count(p), p, left.count(p));
    size_t kids = 0;
    for (auto &a : ends.kids) for (auto &k : a.second) if (k->held && !clear) {
        ++kids;
        PBT_CHECK(!k->freed, "a native was finalized while the marking function of a held native for address %p kept it", a.first);
    }
    c.labelIf(kids > 0, "kept by a marking function");
    PBT_CHECK(left.size() <= keeps.size() + 4, "%zu objects are held but %zu are not finalized", keeps.size(), left.size());
    th.destroy();
    PBT_CHECK(ends.freed == ends.made, "%zu finalizations for %zu objects by the end of the thread", ends.freed.size(), ends.made.size());
    for (auto &a : ends.kids) for (auto &k : a.second) PBT_CHECK(k->freed, "a native kept by a marking function was not finalized by the end of its thread");
    PBT_CHECK(!ends.other, "a finalizer was given another context than that of its thread");
    PBT_CHECK(th.ctx.live.empty(), "%zu blocks remain after the thread was destroyed", th.ctx.live.size());
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C10";
    p.title = "Unreachable objects are reclaimed once and the heap stays bounded";
    p.assumptions = {"the constant factor is taken as 8 for bytes plus 100 kB, and as 4 for objects plus 200"};
    Cfg cfg;
    cfg.garbage = true; cfg.items = 12; cfg.maxStructs = 3; cfg.hostCalls = true;
    p.families.push_back({"natives", "at least three natives were made", [=](Gen &g, Case &c) { natives(g, c, cfg); }, 8000, 1200000});
    p.families.push_back({"finalizers", "at least three natives were made", finalizers, 3000, 600000});
    p.families.push_back({"bounded", "every case (the loop runs at least 300 times)", bounded, 900, 150000});
    p.families.push_back({"shrink", "every case", shrink, 500, 80000});
    return run(argc, argv, p);
}
