// Where a generated program may be cut into pieces: everything before uses only what is declared before.
#pragma once
#include "lang.h"

namespace lang {
inline void callees(Expr *e, std::set<Func *> &o) { if (!e) return; if (e->fn) o.insert(e->fn); for (Expr *x : e->a) callees(x, o); }
inline void callees(Stmt *s, std::set<Func *> &o) {
    if (!s) return;
    callees(s->e, o); callees(s->lhs, o); callees(s->init, o); callees(s->step, o);
    for (Stmt *x : s->body) callees(x, o);
    for (Stmt *x : s->alt) callees(x, o);
}
inline std::vector<size_t> cutPoints(pbt::Gen &g, Program &p, int maxCuts) {
    size_t lo = 0;
    for (size_t i = 0; i < p.items.size(); ++i) if (p.items[i].t == Item::IStruct || p.items[i].t == Item::IUse) lo = i + 1;
    std::map<Func *, size_t> where;
    for (size_t i = 0; i < p.items.size(); ++i) for (Func *f : p.items[i].fns) where[f] = i;
    std::set<size_t> forward;  // places with a call across them to a function defined later
    for (size_t i = 0; i < p.items.size(); ++i) {
        std::set<Func *> o;
        callees(p.items[i].s, o);
        for (Func *f : p.items[i].fns) for (Stmt *s : f->body) callees(s, o);
        for (Func *f : o) for (size_t k = i + 1; k <= where[f]; ++k) forward.insert(k);
    }
    std::vector<size_t> cuts;
    for (size_t i = lo < 1 ? 1 : lo; i < p.items.size(); ++i)
        if (!forward.count(i) && g.chance(1, 3) && (int)cuts.size() < maxCuts) cuts.push_back(i);
    return cuts;
}
}  // namespace lang
