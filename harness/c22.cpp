#include <algorithm>
#include "lang.h"
extern "C" {
#include "arena.h"
}
using namespace pbt;
using namespace lang;

namespace {
// A block is filled with a pattern which depends on its number; all patterns must stay.
void arena(Gen &g, Case &c, bool many) {
    Ctx cx;
    int arenas = g.chance(1, 4) ? (int)g.range(2, 3) : 1;
    std::vector<Tiny_Arena> as(arenas);
    for (auto &a : as) Tiny_InitArena(&a, cx.ctx());
    struct B { unsigned char *p; size_t n; int id; int a; };
    std::vector<B> bs;
    std::vector<char> alive(arenas, 1);
    std::vector<size_t> asked(arenas, 0);
    auto pat = [](int id, size_t i) { return (unsigned char)mix(id * 1000003ULL + i); };
    int n = (int)(many ? g.range(60, 300) : g.range(1, 40)), style = (int)g.below(6);
    bool big = false, aligned = false;
    auto checkAll = [&] {
        for (auto &b : bs)
            for (size_t i = 0; i < b.n; ++i)
                PBT_CHECK(b.p[i] == pat(b.id, i), "byte %zu of allocation %d (%zu bytes) changed", i, b.id, b.n);
    };
    for (int k = 0; k < n; ++k) {
        int a = (int)g.below(arenas);
        if (!alive[a]) continue;
        size_t size;
        switch (style == 5 ? (int)g.below(5) : style) {
            case 0: size = g.below(64); break;
            case 1: size = g.below(5000); break;
            case 2: size = ARENA_PAGE_SIZE + g.range(-40, 40); break;
            case 3: size = g.chance(1, 8) ? g.range(4097, 20000) : g.below(300); break;
            default: { static const size_t s[] = {0, 1, 2, 7, 8, 16, 24, 48, 2047, 2048, 2049, 4064, 4072, 4079, 4080, 4081, 4088, 4095, 4096, 4097, 8192}; size = s[g.below(21)]; }
        }
        size_t align = (size_t)1 << (g.chance(1, 6) ? g.below(10) : g.below(5));
        c.say(strf("%d: alloc(size %zu, align %zu)%s\n", k, size, align, arenas > 1 ? strf(" from arena %d", a).c_str() : ""));
        void *p = Tiny_ArenaAlloc(&as[a], size, align);
        PBT_CHECK(p != nullptr, "allocation %d of %zu bytes returned NULL", k, size);
        PBT_CHECK((uintptr_t)p % align == 0, "allocation %d is not aligned to %zu", k, align);
        unsigned char *q = (unsigned char *)p;
        for (auto &b : bs)
            PBT_CHECK(!(q < b.p + b.n && b.p < q + size), "allocation %d (%zu bytes) overlaps allocation %d (%zu bytes)", k, size, b.id, b.n);
        // the whole block lies in one block of the context
        if (size) {
            bool in = false;
            for (auto &l : cx.live) if ((unsigned char *)l.first <= q && q + size <= (unsigned char *)l.first + l.second) in = true;
            PBT_CHECK(in, "allocation %d of %zu bytes does not lie within the context's blocks", k, size);
        }
        for (size_t i = 0; i < size; ++i) q[i] = pat(k, i);
        bs.push_back({q, size, k, a});
        asked[a] += size + align;
        if (size > ARENA_PAGE_SIZE) big = true;
        if (align > 1) aligned = true;
        if (g.chance(1, 10)) checkAll();
        if (arenas > 1 && g.chance(1, 40)) {
            c.say(strf("destroy arena %d\n", a));
            Tiny_DestroyArena(&as[a]);
            alive[a] = 0;
            bs.erase(std::remove_if(bs.begin(), bs.end(), [&](const B &b) { return b.a == a; }), bs.end());
            cx.check("context");
        }
    }
    checkAll();
    size_t tot = 0;
    for (int a = 0; a < arenas; ++a) if (alive[a]) tot += asked[a];
    PBT_CHECK(cx.cur <= 4 * tot + (size_t)arenas * 20000, "%zu bytes are held for %zu bytes asked for", cx.cur, tot);
    c.nontrivial = n >= 2 && aligned;
    c.labelIf(big, "larger than a page");
    c.labelIf(cx.live.size() > 1, "several pages");
    c.labelIf(arenas > 1, "several arenas on one context");
    for (int a = 0; a < arenas; ++a) {
        if (!alive[a]) continue;
        Tiny_DestroyArena(&as[a]);
        bs.erase(std::remove_if(bs.begin(), bs.end(), [&](const B &b) { return b.a == a; }), bs.end());
        checkAll();
    }
    cx.check("context");
    PBT_CHECK(cx.live.empty(), "%zu blocks (%zu bytes) remain after the arenas were destroyed", cx.live.size(), cx.cur);
}
// The memory held follows what was asked for, for each pattern of sizes.
void proportional(Gen &g, Case &c) {
    Ctx cx;
    Tiny_Arena a;
    Tiny_InitArena(&a, cx.ctx());
    size_t s1 = g.range(1, 6000), s2 = g.chance(1, 3) ? s1 : g.range(1, 6000), al = (size_t)1 << g.below(5), asked = 0;
    int n = (int)g.range(100, 500);
    c.say(strf("%d allocations, alternately of %zu and %zu bytes, align %zu\n", n, s1, s2, al));
    std::vector<std::pair<char *, size_t>> v;
    for (int i = 0; i < n; ++i) {
        size_t s = i % 2 ? s2 : s1;
        char *p = (char *)Tiny_ArenaAlloc(&a, s, al);
        PBT_CHECK((uintptr_t)p % al == 0, "allocation %d is not aligned", i);
        memset(p, i, s);
        v.push_back({p, s});
        asked += s + al;
    }
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); ++i) PBT_CHECK(v[i - 1].first + v[i - 1].second <= v[i].first, "two allocations overlap");
    PBT_CHECK(cx.cur <= 4 * asked + 20000, "%zu bytes are held for %zu bytes asked for", cx.cur, asked);
    Tiny_DestroyArena(&a);
    cx.check("context");
    PBT_CHECK(cx.live.empty(), "%zu blocks remain", cx.live.size());
    c.nontrivial = asked > 2 * ARENA_PAGE_SIZE;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C22";
    p.title = "Arena allocations are aligned, disjoint and all released";
    p.assumptions = {"proportional: at most four times what was asked for plus 20 kB per arena", "alignments are powers of two up to 512"};
    p.families.push_back({"histories", "at least two allocations, one of them aligned", [](Gen &g, Case &c) { arena(g, c, false); }, 60000, 6000000});
    p.families.push_back({"long histories", "at least two allocations, one of them aligned", [](Gen &g, Case &c) { arena(g, c, true); }, 4000, 400000});
    p.families.push_back({"proportional", "more than two pages asked for", proportional, 4000, 400000});
    return run(argc, argv, p);
}
