// Generation and printing of programs.
#include "lang.h"
using pbt::Gen;
using pbt::strf;

namespace lang {

std::string Type::name() const {
    switch (k) {
        case K::Void: return "void";
        case K::Bool: return "bool";
        case K::Int: return "int";
        case K::Float: return "float";
        case K::Str: return "str";
        case K::Any: return "any";
        case K::Nat: return "Nat";
        case K::Struct: return st->name;
        case K::Nullable: return inner->name() + "?";
        case K::Array: return arrName;
        case K::Dict: return "dict";
    }
    return "";
}

Program::Program() {}
const Type *Program::prim(K k) {
    for (auto &t : types) if (t->k == k && !t->inner && !t->st) return t.get();
    types.emplace_back(new Type{k});
    return types.back().get();
}
static const Type *with(Program &p, K k, const Type *inner) {
    for (auto &t : p.types) if (t->k == k && t->inner == inner) return t.get();
    p.types.emplace_back(new Type{k, inner});
    return p.types.back().get();
}
const Type *Program::nullable(const Type *t) { return with(*this, K::Nullable, t); }
const Type *Program::array(const Type *t) { return with(*this, K::Array, t); }
const Type *Program::any(const Type *t) { return with(*this, K::Any, t); }
const Type *Program::dict(const Type *t) { return with(*this, K::Dict, t); }
const Type *Program::strukt(Struct *s) {
    for (auto &t : types) if (t->k == K::Struct && t->st == s) return t.get();
    types.emplace_back(new Type{K::Struct, nullptr, s});
    return types.back().get();
}
Expr *Program::expr(EK k, const Type *t) {
    exprs.emplace_back(new Expr{k, t});
    return exprs.back().get();
}
Stmt *Program::stmt(SK k) {
    stmts.emplace_back(new Stmt{k});
    stmts.back()->id = (int)stmts.size();
    return stmts.back().get();
}

namespace {

enum { ANYP = 0, NOMUT = 1, PURE = 2 };

const int64_t kInts[] = {0, 1, -1, 2, -2, 3, 7, 10, -7, 100, 127, 128, -128, 254, 255, 256, 257, -255, 1000, 32767, 32768,
                         65535, 65536, 1000003, 2147483647LL, -2147483647LL - 1, 2147483648LL, 4294967295LL, 4294967296LL,
                         9007199254740993LL, -9007199254740993LL, INT64_MAX, INT64_MIN};
const double kFloats[] = {0.0, 1.0, -1.0, 0.5, 1.5, 2.0, -2.25, 0.1, 3.0, 100.0, 1e-7, 0.333333333333333, 123456789.125,
                          16777217.0, 1e15, 9007199254740992.0, 1e22, 4.9e-10, -1e9};

struct B {
    Gen &g;
    const Cfg &c;
    Program &p;
    std::vector<Var *> vis;
    Func *cur = nullptr;
    int loop = 0;
    int budget = 0;
    int nglobal = 0;
    std::vector<Func *> callable;
    std::vector<Func *> group;  // functions which may be called with less fuel
    std::vector<const Type *> pool;
    std::vector<const Type *> arrays;
    std::vector<std::string> hidden;  // names which must not be mentioned
    const Type *I, *F, *S, *Bo, *N, *V;

    B(Gen &g, const Cfg &c, Program &p) : g(g), c(c), p(p) {
        I = p.prim(K::Int); F = p.prim(K::Float); S = p.prim(K::Str); Bo = p.prim(K::Bool); N = p.prim(K::Nat); V = p.prim(K::Void);
    }

    void stat(const char *s) { p.stats[s]++; }

    Expr *mk(EK k, const Type *t, std::vector<Expr *> a = {}) {
        Expr *e = p.expr(k, t);
        e->a = std::move(a);
        return e;
    }
    Expr *lit(int64_t v) { Expr *e = mk(EK::Int, I); e->i = v; return e; }
    Expr *bin(const char *op, const Type *t, Expr *a, Expr *b) { Expr *e = mk(EK::Bin, t, {a, b}); e->s = op; return e; }
    Expr *fcall(const char *name, const Type *t, std::vector<Expr *> a) {
        Expr *e = mk(EK::FCall, t, std::move(a));
        e->s = name;
        if (!e->a.empty() && g.chance(1, 6)) e->arrow = true;
        return e;
    }
    Expr *var(Var *v) { Expr *e = mk(EK::Var, v->type); e->v = v; return e; }

    bool isHidden(const std::string &n) {
        for (auto &h : hidden) if (h == n) return true;
        return false;
    }
    template <class Fn> void eachVisible(Fn fn) {
        std::set<std::string> seen(hidden.begin(), hidden.end());
        for (size_t i = vis.size(); i-- > 0;) {
            if (!seen.insert(vis[i]->name).second) continue;
            fn(vis[i]);
        }
    }

    // ---- paths: a variable or a chain of fields of structs which cannot be null
    struct Path { Var *v; std::vector<int> f; const Type *t; };
    void paths(const std::function<bool(const Path &)> &want, std::vector<Path> &out, bool forWrite) {
        std::function<void(Path, int)> go = [&](Path q, int d) {
            if (out.size() > 60) return;
            if (want(q)) out.push_back(q);
            if (d <= 0 || q.t->k != K::Struct) return;
            for (size_t i = 0; i < q.t->st->fields.size(); ++i) {
                Path r = q;
                r.f.push_back((int)i);
                r.t = q.t->st->fields[i].type;
                go(r, d - 1);
            }
        };
        eachVisible([&](Var *v) {
            if (forWrite && (v->readonly || v->vs == VS::Const) ) {
                return;
            }
            go({v, {}, v->type}, 3);
        });
    }
    Expr *pathExpr(const Path &q) {
        Expr *e = var(q.v);
        const Type *t = q.v->type;
        for (int f : q.f) {
            Expr *d = mk(EK::Dot, t->st->fields[f].type, {e});
            d->field = f;
            t = d->type;
            e = d;
        }
        return e;
    }
    Expr *clonePath(Expr *e) {
        Expr *r = mk(e->k, e->type);
        *r = *e;
        for (auto &x : r->a) x = clonePath(x);
        return r;
    }
    Expr *path(const Type *t) {
        std::vector<Path> c;
        paths([&](const Path &q) { return q.t == t; }, c, false);
        if (c.empty()) return nullptr;
        return pathExpr(c[g.below(c.size())]);
    }

    // ---- literals
    Expr *intLit() {
        int64_t v;
        switch (g.weighted({50, 30, 12, 3, 2})) {
            case 0: v = g.range(0, 9); break;
            case 1: v = g.range(-20, 300); break;
            case 2: v = kInts[g.below(sizeof kInts / sizeof *kInts - 9)]; break;
            case 3: v = kInts[g.below(sizeof kInts / sizeof *kInts)]; break;
            default: v = (int64_t)g.bits64() >> g.below(40); break;
        }
        Expr *e = lit(v);
        if (v >= 0 && g.chance(1, 12)) e->k = EK::Hex;
        else if (v >= 32 && v < 127 && g.chance(1, 3)) e->k = EK::Char;
        return e;
    }
    Expr *floatLit() {
        Expr *e = mk(EK::Float, F);
        switch (g.weighted({5, 4, 1})) {
            case 0: e->f = kFloats[g.below(sizeof kFloats / sizeof *kFloats)]; break;
            case 1: e->f = (double)g.range(-4000, 4000) / (double)(1 << g.below(8)); break;
            default: { uint64_t b = (g.bits64() & 0x800fffffffffffffULL) | ((uint64_t)(1023 - 40 + g.below(80)) << 52); memcpy(&e->f, &b, 8); }
        }
        return e;
    }
    std::string strContent() {
        static const char *words[] = {"", "a", "b", "ab", "abc", "hello", "x y", "0", "tiny\\lang", "say \"hi\"", "tab\there", "line\nbreak",
                                      "//no comment", "%d%s", "a somewhat longer string constant, to be sure", "\xc3\xa9t\xc3\xa9"};
        if (g.chance(3, 4)) return words[g.below(sizeof words / sizeof *words)];
        std::string s;
        int n = (int)g.below(9);
        for (int i = 0; i < n; ++i) s += (char)('a' + g.below(26));
        return s;
    }
    Expr *strLit() { Expr *e = mk(EK::Str, S); e->s = strContent(); return e; }
    Expr *boolLit() { Expr *e = mk(EK::Bool, Bo); e->i = g.below(2); return e; }
    Expr *nullLit() { return mk(EK::Null, p.any(V)); }
    Expr *castTo(Expr *e, const Type *t) { return mk(EK::Cast, t, {e}); }
    Expr *nullOf(const Type *t) { return castTo(nullLit(), t); }

    Expr *leaf(const Type *t, int pu) {
        --budget;
        if (t->k != K::Bool || g.coin()) {
            if (g.chance(3, 5)) if (Expr *e = path(t)) return e;
        }
        switch (t->k) {
            case K::Bool: return boolLit();
            case K::Int: return intLit();
            case K::Float: return floatLit();
            case K::Str: return strLit();
            case K::Nat: return fcall("nat", N, {lit(g.range(0, 99))});
            case K::Any: {
                Expr *e = t->inner->k == K::Void ? nullLit() : leaf(t->inner, pu);
                return castTo(e, t);
            }
            case K::Struct: return newStruct(t, 0, pu);
            case K::Nullable: return nullOf(t);
            case K::Array: { Expr *e = fcall("", t, {}); return e; }
            case K::Dict: return fcall("dict", t, {});
            default: return nullptr;
        }
    }

    Expr *newStruct(const Type *t, int d, int pu) {
        Struct *s = t->st;
        Expr *e = mk(EK::New, t);
        size_t n = s->fields.size();
        bool named = g.chance(1, 3);
        bool reorder = named && g.coin();
        for (auto &f : s->fields) e->a.push_back(val(f.type, d - 1, reorder ? PURE : pu));
        if (named) {
            for (size_t i = 0; i < n; ++i) e->order.push_back((int)i);
            if (reorder) for (size_t i = n; i > 1; --i) std::swap(e->order[i - 1], e->order[g.below(i)]);
        }
        stat("new");
        return e;
    }

    // An expression which may be assigned to a place of type t: its own static type may be narrower.
    Expr *val(const Type *t, int d, int pu) {
        if (t->k == K::Nullable) {
            if (budget <= 0 || d < -2) return nullOf(t);
            switch (g.weighted({4, 5, 2})) {
                case 0: return nullOf(t);
                case 1: return ex(t->inner, d, pu);
                default: return ex(t, d, pu);
            }
        }
        if (t->k == K::Any && t->inner->k != K::Void && g.chance(2, 3)) return ex(t->inner, d, pu);
        return ex(t, d, pu);
    }

    const Type *scalar() {
        std::vector<const Type *> v{I, Bo};
        if (c.floats) v.push_back(F);
        if (c.strings) v.push_back(S);
        return v[g.below(v.size())];
    }
    const Type *anyType() {
        if (pool.empty() || g.chance(3, 5)) return g.chance(1, 2) ? I : scalar();
        return pool[g.below(pool.size())];
    }
    bool numeric(const Type *t) { return t->k == K::Int || t->k == K::Float; }

    Expr *ex(const Type *t, int d, int pu) {
        --budget;
        if (budget <= 0) d = 0;
        Expr *e = ex0(t, d, pu);
        if (g.chance(1, 25)) e = mk(EK::Paren, e->type, {e});
        return e;
    }

    Expr *generic(const Type *t, int d, int pu) {
        // forms available for every type
        switch (g.weighted({6, 3, pu == ANYP && c.calls ? 4 : 0, c.arrays ? 3 : 0, c.nullables ? 2 : 0, c.anys ? 2 : 0, c.dicts ? 2 : 0, c.structs ? 2 : 0})) {
            case 0: return path(t);
            case 1: {
                stat("tern");
                Expr *a = ex(Bo, d - 1, pu), *b = ex(t, d - 1, pu), *e = ex(t, d - 1, pu);
                return mk(EK::Tern, t, {a, b, e});
            }
            case 2: return userCall(t, d);
            case 3: return elementOf(t, d, pu);
            case 4: {
                if (t->k == K::Nullable || t->k == K::Any) return nullptr;
                Expr *q = path(p.nullable(t));
                if (!q) return nullptr;
                stat("unwrap");
                Expr *eq = bin(g.coin() ? "==" : "!=", Bo, q, nullLit());
                Expr *un = castTo(castTo(clonePath(q), p.any(t)), t), *other = leaf(t, pu);
                if (eq->s == "==") return mk(EK::Tern, t, {eq, other, un});
                return mk(EK::Tern, t, {eq, un, other});
            }
            case 5: {
                if (t->k == K::Any || t->k == K::Nullable) return nullptr;
                Expr *q = path(p.any(t));
                if (!q || g.chance(1, 4)) q = castTo(ex(t, d - 1, pu), p.any(t));
                stat("any");
                return castTo(q, t);
            }
            case 6: {
                if (t->k == K::Any || t->k == K::Nullable) return nullptr;
                Expr *q = path(p.dict(t));
                if (!q) return nullptr;
                stat("dictget");
                Expr *k = dictKey(), *k2 = clonePath(k);
                Expr *get;
                if (k->type->k == K::Str && g.coin()) get = mk(EK::Index, p.any(t), {clonePath(q), k2});
                else get = fcall("dict_get", p.any(t), {clonePath(q), k2});
                return mk(EK::Tern, t, {fcall("dict_exists", Bo, {q, k}), castTo(get, t), leaf(t, pu)});
            }
            default: {
                // a field of a fresh struct or of a call's result
                std::vector<std::pair<const Type *, int>> cand;
                for (auto &s : p.structs) for (size_t i = 0; i < s->fields.size(); ++i) if (s->fields[i].type == t) cand.push_back({p.strukt(s.get()), (int)i});
                if (cand.empty()) return nullptr;
                auto q = cand[g.below(cand.size())];
                Expr *b = ex(q.first, d - 1, pu);
                Expr *e = mk(EK::Dot, t, {b});
                e->field = q.second;
                stat("dot");
                return e;
            }
        }
    }
    Expr *dictKey() {
        if (g.chance(1, 4)) return lit(g.range(0, 5));
        Expr *e = strLit();
        static const char *ks[] = {"a", "b", "key", "k2", "long key with spaces"};
        e->s = ks[g.below(5)];
        return e;
    }
    std::string arrFn(const Type *t, const char *f) { return "@" + std::string(f); }  // name resolved by the printer
    Expr *arrLen(Expr *q) { return fcall("@len", I, {q}); }
    // index into q, valid because it is evaluated only while q is not empty
    Expr *safeIndex(Expr *q, int d, int pu) {
        if (pu == ANYP) pu = NOMUT;
        Expr *r = bin("&", I, ex(I, d - 1, pu), lit(1023));
        return bin("%", I, r, arrLen(clonePath(q)));
    }
    Expr *elementOf(const Type *t, int d, int pu) {
        Expr *q = path(p.array(t));
        if (!q) return nullptr;
        stat("elem");
        Expr *cond = bin(">", Bo, arrLen(q), lit(0));
        Expr *get;
        switch (g.weighted({4, 3, pu == ANYP ? 2 : 0, pu == ANYP ? 1 : 0})) {
            case 0: get = mk(EK::Index, t, {clonePath(q), safeIndex(q, d, pu)}); break;
            case 1: get = fcall("@get", t, {clonePath(q), safeIndex(q, d, pu)}); break;
            case 2: get = fcall("@pop", t, {clonePath(q)}); break;
            default: get = fcall("@shift", t, {clonePath(q)}); break;
        }
        return mk(EK::Tern, t, {cond, get, leaf(t, pu)});
    }

    std::vector<Expr *> argsFor(Func *f, int d, bool recursive) {
        std::vector<Expr *> a;
        for (size_t i = 0; i < f->params.size(); ++i) {
            if (i == 0 && f->fuel) {
                if (recursive) a.push_back(bin("-", I, var(cur->params[0]), lit(1)));
                else a.push_back(lit(g.range(0, 5)));
                continue;
            }
            a.push_back(val(f->params[i]->type, d - 1, ANYP));
        }
        return a;
    }
    Expr *callTo(Func *f, int d, bool recursive) {
        Expr *e = mk(EK::Call, f->ret);
        e->fn = f;
        e->a = argsFor(f, d, recursive);
        if (c.hostCalls && g.chance(2, 5)) {
            e->viaHost = true;
            if (f->ret->k != K::Void) {
                e->type = p.any(f->ret);
                e = castTo(e, f->ret);
            }
        } else if (!e->a.empty() && g.chance(1, 5)) {
            e->arrow = true;
        }
        stat("call");
        return e;
    }
    bool fuelVisible() {
        if (!cur || cur->params.empty()) return false;
        if (isHidden(cur->params[0]->name)) return false;
        bool ok = false;
        eachVisible([&](Var *v) { ok |= v == cur->params[0]; });
        return ok;
    }
    Expr *userCall(const Type *t, int d) {
        std::vector<Func *> cand;
        for (Func *f : callable) if (f->ret == t) cand.push_back(f);
        if (cur && cur->fuel && loop == 0 && cur->selfCalls < 2 && fuelVisible()) {
            std::vector<Func *> rec;
            for (Func *f : group) if (f->ret == t) rec.push_back(f);
            if (!rec.empty() && g.chance(2, 3)) {
                cur->selfCalls++;
                stat("recursion");
                return callTo(g.pick(rec), d, true);
            }
        }
        if (cand.empty()) return nullptr;
        return callTo(g.pick(cand), d, false);
    }

    Expr *ex0(const Type *t, int d, int pu) {
        if (d <= 0) return leaf(t, pu);
        if (g.chance(1, 6)) return leaf(t, pu);
        if (t->k == K::Any || t->k == K::Nullable || t->k == K::Nat || t->k == K::Struct || t->k == K::Array || t->k == K::Dict || g.chance(2, 7)) {
            if (g.chance(2, 3)) if (Expr *e = generic(t, d, pu)) return e;
        }
        switch (t->k) {
            case K::Int: return intEx(d, pu);
            case K::Float: return floatEx(d, pu);
            case K::Bool: return boolEx(d, pu);
            case K::Str: return strEx(d, pu);
            case K::Struct: return newStruct(t, d, pu);
            case K::Nullable: {
                // from a value of the inner type, via any
                return castTo(castTo(ex(t->inner, d - 1, pu), p.any(t->inner)), t);
            }
            case K::Array: {
                Expr *e = fcall("", t, {});
                int n = (int)g.below(5);
                for (int i = 0; i < n; ++i) e->a.push_back(ex(t->inner, d - 2, pu));
                e->arrow = false;
                stat("newarray");
                return e;
            }
            case K::Dict: {
                Expr *e = fcall("dict", t, {});
                int n = (int)g.below(4);
                for (int i = 0; i < n; ++i) { e->a.push_back(dictKey()); e->a.push_back(ex(t->inner, d - 2, pu)); }
                e->arrow = false;
                stat("newdict");
                return e;
            }
            case K::Any: return castTo(ex(t->inner->k == K::Void ? I : t->inner, d - 1, pu), t);
            default: return leaf(t, pu);
        }
    }

    Expr *ident(const char *name, const Type *t, int d, int pu) {
        if (pu == PURE || !c.trace) return ex(t, d - 1, pu);
        stat("traced");
        return fcall(name, t, {ex(t, d - 1, pu)});
    }

    // more often a call, field or element than elsewhere
    Expr *operand(const Type *t, int d, int pu) {
        if (d > 0 && g.chance(1, 3)) if (Expr *e = generic(t, d, pu)) return e;
        return ex(t, d, pu);
    }
    Expr *intEx(int d, int pu) {
        switch (g.weighted({10, 9, 7, 4, 3, 4, 4, 3, 3, 3, c.strings ? 3 : 0, c.arrays ? 2 : 0, c.nat ? 1 : 0, 3, c.floats ? 1 : 0, c.lineProbe && pu != PURE ? 6 : 0, c.inputs ? 6 : 0})) {
            case 0: return bin("+", I, ex(I, d - 1, pu), g.chance(1, 3) ? lit(g.below(3)) : ex(I, d - 1, pu));
            case 1: return bin("-", I, ex(I, d - 1, pu), g.chance(1, 3) ? lit(g.below(3)) : ex(I, d - 1, pu));
            case 2: return bin("*", I, ex(I, d - 1, pu), g.coin() ? lit(g.range(-5, 5)) : ex(I, d - 1, pu));
            case 3: {
                Expr *r;
                if (g.coin()) { r = intLit(); if (r->i == 0 || (r->i == -1)) r = lit(3); }
                else r = bin("|", I, ex(I, d - 1, pu), lit(1));
                return bin("/", I, ex(I, d - 1, pu), r);
            }
            case 4: {
                Expr *r;
                if (g.coin()) { r = intLit(); if (r->i == 0 || (r->i == -1)) r = lit(7); }
                else r = bin("|", I, ex(I, d - 1, pu), lit(1));
                return bin("%", I, ex(I, d - 1, pu), r);
            }
            case 5: return bin("&", I, ex(I, d - 1, pu), g.coin() ? lit((1 << g.below(20)) - 1) : ex(I, d - 1, pu));
            case 6: return bin("|", I, ex(I, d - 1, pu), ex(I, d - 1, pu));
            case 7: return bin("<<", I, bin("&", I, ex(I, d - 1, pu), lit(0xffff)), bin("&", I, ex(I, d - 1, pu), lit(15)));
            case 8: return bin(">>", I, ex(I, d - 1, pu), g.coin() ? lit(g.below(12)) : bin("&", I, ex(I, d - 1, pu), lit(31)));
            case 9: { Expr *e = mk(EK::Un, I, {operand(I, d - 1, pu)}); e->s = "-"; return e; }
            case 10: {
                if (g.coin()) return fcall("strlen", I, {ex(S, d - 1, pu)});
                if (g.coin()) return fcall("strchr", I, {ex(S, d - 1, pu), g.coin() ? lit('a' + g.below(6)) : intLitChar()});
                Expr *q = path(S);
                if (!q) return fcall("strlen", I, {ex(S, d - 1, pu)});
                // a character of a variable which holds a string
                Expr *cond = bin(">", Bo, fcall("strlen", I, {q}), lit(0));
                Expr *idx = bin("%", I, bin("&", I, ex(I, d - 2, pu == ANYP ? NOMUT : pu), lit(1023)), fcall("strlen", I, {clonePath(q)}));
                Expr *get = g.coin() ? fcall("stridx", I, {clonePath(q), idx}) : mk(EK::Index, I, {clonePath(q), idx});
                stat("stridx");
                return mk(EK::Tern, I, {cond, get, lit(g.range(0, 9))});
            }
            case 11: {
                std::vector<Path> cnd;
                paths([&](const Path &q) { return q.t->k == K::Array; }, cnd, false);
                if (cnd.empty()) return ident("ti", I, d, pu);
                return arrLen(pathExpr(g.pick(cnd)));
            }
            case 12: return fcall("nat_id", I, {ex(N, d - 1, pu)});
            case 13: return ident("ti", I, d, pu);
            case 14: return fcall("int", I, {bin("/", F, ex(F, d - 1, pu), floatLitBig())});
            case 15: stat("here"); return fcall("here", I, {});
            default: return fcall("inp", I, {lit(g.below(6))});
        }
    }
    Expr *intLitChar() { Expr *e = lit(32 + g.below(95)); e->k = EK::Char; return e; }
    Expr *floatLitBig() { Expr *e = mk(EK::Float, F); e->f = (double)g.range(2, 1000); return e; }
    Expr *num(int d, int pu, bool &isF) {
        isF = c.floats && g.coin();
        return isF ? ex(F, d, pu) : ex(I, d, pu);
    }
    Expr *floatEx(int d, int pu) {
        static const char *ops[] = {"+", "-", "*", "/"};
        switch (g.weighted({10, 2, 2, 2})) {
            case 0: {
                const char *op = ops[g.weighted({4, 4, 3, 2})];
                bool a = true, b = true;
                Expr *x, *y;
                if (g.coin()) { x = ex(F, d - 1, pu); y = num(d - 1, pu, b); }
                else { x = num(d - 1, pu, a); y = ex(F, d - 1, pu); }
                // one in a while +-1 next to a float, which has its own instructions for ints
                if (g.chance(1, 5) && (op[0] == '+' || op[0] == '-')) y = a ? lit(1) : y;
                return bin(op, F, x, y);
            }
            case 1: { Expr *e = mk(EK::Un, F, {operand(F, d - 1, pu)}); e->s = "-"; return e; }
            case 2: return fcall("float", F, {ex(I, d - 1, pu)});
            default: return ident("tf", F, d, pu);
        }
    }
    const Type *eqType() {
        switch (g.weighted({4, 3, 2, 2, 3})) {
            case 0: return I;
            case 1: return c.strings ? S : I;
            case 2: return c.floats ? F : Bo;
            case 3: return Bo;
            default: return pool.empty() ? I : pool[g.below(pool.size())];
        }
    }
    Expr *boolEx(int d, int pu) {
        static const char *rel[] = {"<", ">", "<=", ">="};
        switch (g.weighted({9, 5, 4, 4, 3, 2, 1})) {
            case 0: {
                bool a, b;
                Expr *x = num(d - 1, pu, a), *y = num(d - 1, pu, b);
                return bin(rel[g.below(4)], Bo, x, y);
            }
            case 1: {
                const Type *t = eqType(), *u = g.chance(1, 6) ? eqType() : t;
                stat("eq");
                return bin(g.coin() ? "==" : "!=", Bo, ex(t, d - 1, pu), ex(u, d - 1, pu));
            }
            case 2: return bin("&&", Bo, ex(Bo, d - 1, pu), ex(Bo, d - 1, pu));
            case 3: return bin("||", Bo, ex(Bo, d - 1, pu), ex(Bo, d - 1, pu));
            case 4: { Expr *e = mk(EK::Un, Bo, {operand(Bo, d - 1, pu)}); e->s = "!"; return e; }
            case 5: return ident("tb", Bo, d, pu);
            default: return boolLit();
        }
    }
    Expr *strEx(int d, int pu) {
        switch (g.weighted({6, 2, 2, 2})) {
            case 0: {
                int n = 2 + (int)g.below(3);
                std::vector<Expr *> a;
                for (int i = 0; i < n; ++i) a.push_back(ex(S, d - 1, pu));
                return fcall("strcat", S, a);
            }
            case 1: return fcall("int_to_str", S, {ex(I, d - 1, pu)});
            case 2: {
                Expr *q = path(S);
                if (!q) return strLit();
                // prefix or suffix of a string
                Expr *i = bin("%", I, bin("&", I, ex(I, d - 2, pu == ANYP ? NOMUT : pu), lit(1023)), bin("+", I, fcall("strlen", I, {clonePath(q)}), lit(1)));
                stat("substr");
                if (g.coin()) return fcall("substr", S, {q, lit(0), i});
                return fcall("substr", S, {q, i, g.coin() ? lit(-1) : fcall("strlen", I, {clonePath(q)})});
            }
            default: return ident("ts", S, d, pu);
        }
    }

    // ---- statements
    std::string newName(bool global) {
        static const char *ln[] = {"a", "b", "x", "y", "tmp", "val", "as", "i2", "n_", "sum", "str1", "Q"};
        static const char *gn[] = {"g", "glob", "total", "cnt", "v_", "Name", "intx", "if_", "newer"};
        if (global) {
            std::string n = gn[g.below(sizeof gn / sizeof *gn)];
            return n + std::to_string(nglobal++);
        }
        for (int k = 0; k < 40; ++k) {
            std::string n;
            if (c.shadow && g.chance(1, 4) && !p.globals.empty()) n = p.globals[g.below(p.globals.size())]->name;
            else n = ln[g.below(sizeof ln / sizeof *ln)];
            if (k > 20) n += std::to_string(k);
            bool clash = false;
            for (Var *v : vis) if (v->vs == VS::Local && v->name == n) clash = true;
            if (cur && cur->fuel && !cur->params.empty() && n == cur->params[0]->name) clash = true;
            if (!clash) return n;
        }
        return "zz" + std::to_string(nglobal++);
    }
    Var *newVar(const Type *t, const std::string &name) {
        p.vars.emplace_back(new Var);
        Var *v = p.vars.back().get();
        v->name = name;
        v->type = t;
        if (cur) {
            v->vs = VS::Local;
            v->slot = cur->nslots++;
        } else {
            v->vs = VS::Global;
            v->slot = (int)p.globals.size();
            p.globals.push_back(v);
        }
        return v;
    }
    // The declaration hides outer variables of that name in its own initialiser.
    Stmt *decl(const Type *t, int d, bool readonly = false, Expr *init = nullptr) {
        std::string name = newName(!cur);
        Stmt *s = p.stmt(SK::Decl);
        hidden.push_back(name);
        bool typed = t->k == K::Any || t->k == K::Nullable ? true : g.chance(1, 3);
        if (!init) {
            if (typed) init = val(t, d, ANYP);
            else init = ex(t, d, ANYP);
        }
        if ((t->k == K::Nullable || t->k == K::Any) && init->type == t && g.coin()) typed = false;
        hidden.pop_back();
        s->typed = typed;
        s->e = init;
        s->v = newVar(t, name);
        s->v->readonly = readonly;
        vis.push_back(s->v);
        return s;
    }

    bool isLocalRoot(const Path &q) { return q.v->vs == VS::Local || q.v->vs == VS::Arg; }

    Stmt *assign(int d) {
        Stmt *s = p.stmt(SK::Assign);
        s->op = "=";
        if (c.arrays && g.chance(1, 5)) {
            std::vector<Path> cnd;
            paths([&](const Path &q) { return q.t->k == K::Array; }, cnd, false);
            if (!cnd.empty()) {
                Path q = g.pick(cnd);
                const Type *et = q.t->inner;
                Expr *arr = pathExpr(q);
                Expr *idx = safeIndex(arr, d, NOMUT);
                if (numeric(et) && g.chance(2, 5)) {
                    idx = safeIndex(arr, d, PURE);
                    compound(s, et, d, NOMUT);
                } else {
                    s->e = val(et, d, NOMUT);
                }
                s->lhs = mk(EK::Index, et, {arr, idx});
                stat("indexassign");
                Stmt *w = p.stmt(SK::If);
                w->e = bin(">", Bo, arrLen(pathExpr(q)), lit(0));
                w->body = {s};
                w->bare = g.coin();
                return w;
            }
        }
        if (c.dicts && g.chance(1, 10)) {
            std::vector<Path> cnd;
            paths([&](const Path &q) { return q.t->k == K::Dict; }, cnd, false);
            if (!cnd.empty()) {
                Path q = g.pick(cnd);
                Expr *k = strLit();
                static const char *ks[] = {"a", "b", "key", "k2", "long key with spaces"};
                k->s = ks[g.below(5)];
                s->lhs = mk(EK::Index, p.any(q.t->inner), {pathExpr(q), k});
                s->e = val(q.t->inner, d, NOMUT);
                stat("dictassign");
                return s;
            }
        }
        std::vector<Path> cnd;
        paths([&](const Path &q) { return true; }, cnd, true);
        if (cnd.empty()) return nullptr;
        Path q = g.pick(cnd);
        if (g.chance(1, 3)) {  // prefer fields
            std::vector<Path> f;
            for (auto &x : cnd) if (!x.f.empty()) f.push_back(x);
            if (!f.empty()) q = g.pick(f);
        }
        int pu = ANYP;
        if (!q.f.empty() && !(isLocalRoot(q) && q.f.size() == 1)) pu = NOMUT;
        if (!q.f.empty()) stat("fieldassign");
        s->lhs = pathExpr(q);
        if (numeric(q.t) && g.chance(2, 5)) {
            compound(s, q.t, d, pu);
            return s;
        }
        s->e = val(q.t, d, pu);
        return s;
    }
    // compound assignment; the operator's type must be the place's type
    void compound(Stmt *s, const Type *t, int d, int pu) {
        stat("compound");
        if (t->k == K::Int) {
            static const char *ops[] = {"+=", "-=", "*=", "&=", "|=", "/=", "%="};
            s->op = ops[g.weighted({5, 4, 2, 2, 2, 1, 1})];
            if (s->op == "/=" || s->op == "%=") { Expr *r = intLit(); if (r->i == 0 || r->i == -1) r = lit(3); s->e = r; }
            else if (s->op == "*=") s->e = lit(g.range(-3, 3));
            else s->e = g.chance(1, 3) ? lit(1) : ex(I, d, pu);
        } else {
            static const char *ops[] = {"+=", "-=", "*=", "/="};
            s->op = ops[g.below(4)];
            s->e = ex(F, d, pu);
        }
    }

    Stmt *exprStmt(Expr *e) { Stmt *s = p.stmt(SK::Expr); s->e = e; return s; }

    Stmt *emitStmt(int d) {
        int n = (int)g.weighted({6, 4, 2, 1}) ;
        std::vector<Expr *> a;
        for (int i = 0; i <= n; ++i) a.push_back(ex(anyType(), d, ANYP));
        Expr *e = fcall("emit", V, a);
        return exprStmt(e);
    }
    Stmt *arrayStmt(int d) {
        std::vector<Path> cnd;
        paths([&](const Path &q) { return q.t->k == K::Array; }, cnd, false);
        if (cnd.empty()) return nullptr;
        Path q = g.pick(cnd);
        const Type *et = q.t->inner;
        Expr *arr = pathExpr(q);
        auto guarded = [&](Expr *e) {
            Stmt *w = p.stmt(SK::If);
            w->e = bin(">", Bo, arrLen(pathExpr(q)), lit(0));
            w->body = {exprStmt(e)};
            w->bare = g.coin();
            return w;
        };
        stat("arrayop");
        switch (g.weighted({8, 2, 2, 1, 1, 2, 2, 2})) {
            case 0: return exprStmt(fcall("@push", V, {arr, val(et, d, NOMUT)}));
            case 1: return guarded(fcall("@pop", et, {arr}));
            case 2: return guarded(fcall("@shift", et, {arr}));
            case 3: return exprStmt(fcall("@clear", V, {arr}));
            case 4: return exprStmt(fcall("@resize_fill", V, {arr, bin("&", I, ex(I, d - 1, NOMUT), lit(7)), val(et, d, NOMUT)}));
            case 5: return guarded(fcall("@insert", V, {arr, safeIndex(arr, d, NOMUT), val(et, d, NOMUT)}));
            case 6: return guarded(fcall("@remove", V, {arr, safeIndex(arr, d, NOMUT)}));
            default:
                if (et->k == K::Int) return exprStmt(fcall("@sort", V, {arr}));
                return guarded(fcall("@set", V, {arr, safeIndex(arr, d, NOMUT), val(et, d, NOMUT)}));
        }
    }
    Stmt *dictStmt(int d) {
        std::vector<Path> cnd;
        paths([&](const Path &q) { return q.t->k == K::Dict; }, cnd, false);
        if (cnd.empty()) return nullptr;
        Path q = g.pick(cnd);
        stat("dictop");
        switch (g.weighted({6, 2, 1})) {
            case 0: return exprStmt(fcall("dict_put", V, {pathExpr(q), dictKey(), val(q.t->inner, d, NOMUT)}));
            case 1: return exprStmt(fcall("dict_remove", V, {pathExpr(q), dictKey()}));
            default: return exprStmt(fcall("dict_clear", V, {pathExpr(q)}));
        }
    }
    Stmt *callStmt(int d) {
        std::vector<Func *> cand = callable;
        if (cand.empty()) return nullptr;
        Func *f = g.pick(cand);
        Expr *e = callTo(f, d, false);
        if (e->k == EK::Cast) e = e->a[0];
        return exprStmt(e);
    }

    void block(std::vector<Stmt *> &out, int n, int nest) {
        size_t mark = vis.size();
        for (int i = 0; i < n; ++i) stmt(out, nest);
        vis.resize(mark);
    }

    // one statement which may stand without braces
    void bareStmt(std::vector<Stmt *> &out, int nest) {
        size_t n = out.size();
        int d = c.depth - 1;
        Stmt *s = nullptr;
        switch (g.weighted({4, 4, 2, nest > 0 ? 1 : 0})) {
            case 0: if (c.trace) s = emitStmt(d); break;
            case 1: s = assign(d); break;
            case 2: s = callStmt(d); break;
            default: { Stmt *w = p.stmt(SK::If); w->e = ex(Bo, d, ANYP); bareStmt(w->body, nest - 1); w->bare = true;
                       if (g.coin()) { w->hasAlt = true; bareStmt(w->alt, nest - 1); } s = w; }
        }
        if (!s) s = emitStmt(d);
        out.push_back(s);
        (void)n;
    }

    Stmt *ifStmt(int nest) {
        Stmt *s = p.stmt(SK::If);
        s->e = ex(Bo, c.depth, ANYP);
        stat("if");
        if (g.chance(1, 3)) {
            s->bare = true;
            bareStmt(s->body, nest - 1);
            if (g.coin()) { s->hasAlt = true; bareStmt(s->alt, nest - 1); }
            return s;
        }
        block(s->body, (int)g.range(0, c.blockLen), nest - 1);
        if (g.coin()) {
            s->hasAlt = true;
            if (nest > 0 && g.chance(1, 3)) s->alt.push_back(ifStmt(nest - 1));
            else block(s->alt, (int)g.range(0, c.blockLen), nest - 1);
        }
        return s;
    }
    void loopBody(std::vector<Stmt *> &body, int nest, bool &bare) {
        ++loop;
        if (g.chance(1, 6)) {
            bare = true;
            bareStmt(body, nest - 1);
        } else {
            block(body, (int)g.range(1, c.blockLen), nest - 1);
        }
        --loop;
    }
    Expr *boundExpr(int d) {
        if (g.chance(1, 2)) return lit(g.range(0, 4));
        if (c.trace && g.chance(1, 2)) return fcall("ti", I, {lit(g.range(0, 4))});
        return bin("&", I, ex(I, d - 1, NOMUT), lit(3));
    }
    Stmt *dupAssign(Stmt *x) {
        Stmt *y = p.stmt(SK::Assign);
        y->lhs = var(x->lhs->v);
        y->op = x->op;
        y->e = clonePath(x->e);
        return y;
    }
    void forStmt(std::vector<Stmt *> &out, int nest) {
        stat("for");
        size_t mark = vis.size();
        Stmt *s = p.stmt(SK::For);
        bool down = g.chance(1, 4);
        int64_t stride = g.chance(1, 5) ? 2 : 1;
        Var *i;
        if (g.chance(1, 5)) {
            // the counter is declared before the loop
            Stmt *dcl = decl(I, 1, true);
            out.push_back(dcl);
            mark = vis.size();
            i = dcl->v;
            s->init = p.stmt(SK::Assign);
            s->init->lhs = var(i);
            s->init->op = "=";
            s->init->e = down ? lit(g.range(0, 4)) : lit(0);
        } else {
            s->init = decl(I, 1, true, down ? lit(g.range(0, 4)) : lit(g.below(2)));
            i = s->init->v;
        }
        if (down) s->e = bin(g.coin() ? ">" : ">=", Bo, var(i), c.trace && g.chance(1, 3) ? fcall("ti", I, {lit(0)}) : lit(0));
        else s->e = bin(g.chance(1, 4) ? "<=" : "<", Bo, var(i), boundExpr(c.depth - 1));
        if (g.chance(1, 6)) s->e = bin("&&", Bo, s->e, ex(Bo, 1, NOMUT));
        s->step = p.stmt(SK::Assign);
        s->step->lhs = var(i);
        Expr *inc = c.trace && g.chance(1, 6) ? fcall("ti", I, {lit(stride)}) : lit(stride);
        if (g.coin()) { s->step->op = down ? "-=" : "+="; s->step->e = inc; }
        else { s->step->op = "="; s->step->e = bin(down ? "-" : "+", I, var(i), inc); }
        // any statement can stand in these places
        auto wrapped = [&](Stmt *x) -> Stmt * {
            if (!g.chance(1, 5)) return x;
            Stmt *w = p.stmt(g.chance(1, 4) ? SK::If : SK::Block);
            if (w->k == SK::If) {
                w->e = ex(Bo, 1, NOMUT);
                w->body = {x};
                w->hasAlt = true;
                w->alt.push_back(dupAssign(x));
                w->bare = g.coin();
            } else {
                if (g.chance(1, 3)) bareStmt(w->body, 0);
                w->body.push_back(x);
                if (g.chance(1, 3)) bareStmt(w->body, 0);
            }
            stat("compound step");
            return w;
        };
        if (s->init->k == SK::Assign) s->init = wrapped(s->init);
        s->step = wrapped(s->step);
        loopBody(s->body, nest, s->bare);
        vis.resize(mark);
        out.push_back(s);
    }
    void whileStmt(std::vector<Stmt *> &out, int nest) {
        stat("while");
        Stmt *dcl = decl(I, 1, true, lit(0));
        out.push_back(dcl);
        Stmt *s = p.stmt(SK::While);
        s->e = bin("<", Bo, var(dcl->v), boundExpr(c.depth - 1));
        if (g.chance(1, 4)) s->e = bin("&&", Bo, s->e, ex(Bo, 1, NOMUT));
        Stmt *inc = p.stmt(SK::Assign);
        inc->lhs = var(dcl->v);
        inc->op = "+=";
        inc->e = lit(1);
        size_t mark = vis.size();
        s->body.push_back(inc);
        ++loop;
        block(s->body, (int)g.range(0, c.blockLen), nest - 1);
        --loop;
        vis.resize(mark);
        out.push_back(s);
    }

    void stmt(std::vector<Stmt *> &out, int nest) {
        int d = c.depth;
        if (budget <= 0) { d = 0; nest = 0; }
        --budget;
        Stmt *s = nullptr;
        bool canDecl = cur ? cur->nslots < 11 : p.globals.size() < 60;
        bool lp = c.loops && nest > 0 && loop < 2 && canDecl;
        switch (g.weighted({c.trace ? 10 : 0, 9, canDecl ? 6 : 0, nest > 0 ? 5 : 0, lp ? 3 : 0, lp ? 2 : 0, nest > 0 ? 1 : 0, loop > 0 ? 3 : 0, cur ? 2 : 0, c.calls ? 4 : 0,
                            c.arrays ? 3 : 0, c.dicts ? 2 : 0, c.garbage ? 4 : 0})) {
            case 0: s = emitStmt(d); break;
            case 1: s = assign(d); break;
            case 2: s = decl(anyType(), d); break;
            case 3: s = ifStmt(nest); break;
            case 4: forStmt(out, nest); return;
            case 5: whileStmt(out, nest); return;
            case 6: s = p.stmt(SK::Block); block(s->body, (int)g.range(0, c.blockLen), nest - 1); break;
            case 7: {
                s = p.stmt(g.coin() ? SK::Break : SK::Continue);
                stat(s->k == SK::Break ? "break" : "continue");
                if (g.chance(3, 4)) {
                    Stmt *w = p.stmt(SK::If);
                    w->e = ex(Bo, d, ANYP);
                    if (g.coin()) { w->bare = true; w->body = {s}; }
                    else { if (c.trace && g.coin()) { w->body.push_back(emitStmt(1)); } w->body.push_back(s); }
                    s = w;
                }
                break;
            }
            case 8: {
                Stmt *r = ret(d);
                stat("return");
                Stmt *w = p.stmt(SK::If);
                w->e = ex(Bo, d, ANYP);
                w->body = {r};
                w->bare = g.coin();
                s = w;
                break;
            }
            case 9: s = callStmt(d); break;
            case 10: s = arrayStmt(d); break;
            case 11: s = dictStmt(d); break;
            default: s = exprStmt(fcall("junk", V, {lit(g.range(0, 6))})); break;
        }
        if (!s) s = c.trace ? emitStmt(d) : nullptr;
        if (s) out.push_back(s);
    }
    Stmt *ret(int d) {
        Stmt *r = p.stmt(SK::Return);
        if (cur->ret->k != K::Void) r->e = val(cur->ret, d, ANYP);
        return r;
    }

    // ---- top level
    void makeStructs() {
        static const char *fn[] = {"x", "y", "name", "next", "kids", "val", "z", "as", "data", "w1"};
        int n = c.structs ? (int)g.range(1, c.maxStructs) : 0;
        std::vector<Struct *> all;
        for (int i = 0; i < n; ++i) {
            p.structs.emplace_back(new Struct{strf("%s%d", g.coin() ? "S" : "Node", i), {}, i});
            all.push_back(p.structs.back().get());
        }
        if (c.arrays) {
            int m = (int)g.range(1, 3);
            for (int i = 0; i < m; ++i) {
                const Type *et = nullptr;
                switch (g.weighted({5, 2, 2, 1, n ? 3 : 0, c.nat ? 1 : 0})) {
                    case 0: et = I; break;
                    case 1: et = c.strings ? S : I; break;
                    case 2: et = c.floats ? F : I; break;
                    case 3: et = Bo; break;
                    case 4: et = p.strukt(g.pick(all)); break;
                    default: et = N; break;
                }
                const Type *t = p.array(et);
                if (!t->arrName.empty()) continue;
                const_cast<Type *>(t)->arrName = strf("%s_%s", g.coin() ? "arr" : "list", et->name().c_str());
                arrays.push_back(t);
            }
        }
        for (int i = 0; i < n; ++i) {
            int nf = (int)g.range(1, 5);
            for (int j = 0; j < nf; ++j) {
                const Type *t;
                switch (g.weighted({5, 3, c.floats ? 2 : 0, c.strings ? 3 : 0, c.nullables ? 4 : 0, i > 0 ? 2 : 0, arrays.empty() ? 0 : 2, c.anys ? 1 : 0, c.nat ? 1 : 0, c.dicts ? 1 : 0})) {
                    case 0: t = I; break;
                    case 1: t = Bo; break;
                    case 2: t = F; break;
                    case 3: t = S; break;
                    case 4: t = p.nullable(g.chance(4, 5) ? p.strukt(g.pick(all)) : scalar()); break;
                    case 5: t = p.strukt(all[g.below(i)]); break;
                    case 6: t = g.pick(arrays); break;
                    case 7: t = p.any(scalar()); break;
                    case 8: t = N; break;
                    default: t = p.dict(scalar()); break;
                }
                all[i]->fields.push_back({strf("%s%s", fn[(j + i * 3) % 10], j >= 10 ? std::to_string(j).c_str() : ""), t});
            }
        }
        for (Struct *s : all) {
            pool.push_back(p.strukt(s));
            if (c.nullables) pool.push_back(p.nullable(p.strukt(s)));
        }
        for (const Type *t : arrays) pool.push_back(t);
        if (c.nullables && g.coin()) pool.push_back(p.nullable(scalar()));
        if (c.anys) pool.push_back(p.any(g.coin() && !all.empty() ? p.strukt(g.pick(all)) : scalar()));
        if (c.nat) pool.push_back(N);
        if (c.dicts) pool.push_back(p.dict(g.coin() && !all.empty() ? p.strukt(g.pick(all)) : scalar()));
    }
    void item(Item::T t, Struct *st, Func *f, Stmt *s, const Type *arr) {
        Item i;
        i.t = t;
        i.st = st;
        if (f) i.fns = {f};
        i.s = s;
        i.arr = arr;
        p.items.push_back(i);
    }
    void hostConst(const char *name, const Type *t, Expr *init) {
        p.vars.emplace_back(new Var);
        Var *v = p.vars.back().get();
        v->name = name;
        v->type = t;
        v->vs = VS::Const;
        v->fixedName = true;
        v->init = init;
        vis.push_back(v);
    }
    Func *newFunc(bool fuel) {
        static const char *fnn[] = {"f", "calc", "do_it", "Get", "step_", "_"};
        p.funcs.emplace_back(new Func);
        Func *f = p.funcs.back().get();
        f->index = (int)p.funcs.size() - 1;
        f->name = strf("%s%d", fnn[g.below(5)], f->index);
        f->fuel = fuel;
        static const char *pn[] = {"p", "q", "r", "arg", "x"};
        int n = (int)g.weighted({2, 3, 3, 2, 1});
        if (fuel) addParam(f, "fuel", I, true);
        for (int i = 0; i < n; ++i) addParam(f, strf("%s%d", pn[i % 5], i), anyType(), false);
        f->ret = g.chance(1, 5) ? V : anyType();
        return f;
    }
    void addParam(Func *f, const std::string &name, const Type *t, bool ro) {
        p.vars.emplace_back(new Var);
        Var *v = p.vars.back().get();
        v->name = name;
        v->type = t;
        v->vs = VS::Arg;
        v->slot = f->nslots++;
        v->readonly = ro;
        f->params.push_back(v);
    }
    void body(Func *f, int b) {
        size_t mark = vis.size();
        int saveLoop = loop, saveBudget = budget;
        Func *saveCur = cur;
        cur = f;
        loop = 0;
        budget = b;
        for (Var *v : f->params) {
            if (c.shadow && !v->readonly && g.chance(1, 8) && !p.globals.empty()) {
                std::string n = p.globals[g.below(p.globals.size())]->name;
                bool clash = false;
                for (Var *w : f->params) clash |= w->name == n;
                if (!clash) v->name = n;
            }
            vis.push_back(v);
        }
        if (f->fuel) {
            Stmt *w = p.stmt(SK::If);
            w->e = bin("<=", Bo, var(f->params[0]), lit(0));
            Stmt *r = p.stmt(SK::Return);
            if (f->ret->k != K::Void) r->e = leaf(f->ret, ANYP);
            w->body = {r};
            w->bare = g.coin();
            f->body.push_back(w);
        }
        int n = (int)g.range(1, 6);
        for (int i = 0; i < n; ++i) stmt(f->body, c.nest - 1);
        if (f->ret->k != K::Void) f->body.push_back(ret(c.depth));
        vis.resize(mark);
        cur = saveCur;
        loop = saveLoop;
        budget = saveBudget;
    }
    void makeFuncs(std::vector<Func *> &out) {
        int n = c.calls ? (int)g.range(0, c.maxFuncs) : 0;
        while ((int)out.size() < n) {
            if (g.chance(1, 3)) {
                int k = 1 + (int)g.below(2);
                group.clear();
                for (int i = 0; i < k; ++i) group.push_back(newFunc(true));
                std::vector<Func *> gr = group;
                for (Func *f : gr) { body(f, c.funcBudget); out.push_back(f); f->early = true; }
                group.clear();
                for (Func *f : gr) callable.push_back(f);
            } else {
                Func *f = newFunc(false);
                body(f, c.funcBudget);
                f->early = true;
                out.push_back(f);
                callable.push_back(f);
            }
        }
    }

    void run() {
        if (c.consts) {
            Expr *e;
            e = lit(70000); hostConst("KI", I, e);
            if (c.floats) { e = mk(EK::Float, F); e->f = 0.1; hostConst("KF", F, e); }
            e = mk(EK::Bool, Bo); e->i = 1; hostConst("KB", Bo, e);
            if (c.strings) { e = mk(EK::Str, S); e->s = "host string"; hostConst("KS", S, e); }
        }
        makeStructs();
        for (const Type *t : arrays) item(Item::IUse, nullptr, nullptr, nullptr, t);
        for (auto &s : p.structs) item(Item::IStruct, s.get(), nullptr, nullptr, nullptr);
        if (c.consts) {
            int n = (int)g.below(3);
            for (int i = 0; i < n; ++i) {
                Stmt *s = p.stmt(SK::Const);
                p.vars.emplace_back(new Var);
                Var *v = p.vars.back().get();
                v->name = strf("CONST_%d", i);
                v->vs = VS::Const;
                const Type *t = scalar();
                v->type = t;
                Expr *e = t == I ? intLit() : t == F ? floatLit() : t == Bo ? boolLit() : strLit();
                if (e->k == EK::Int && e->i < 0) e = lit(e->i == INT64_MIN ? 5 : -e->i);
                if (e->k == EK::Float && std::signbit(e->f)) e->f = -e->f;
                v->init = e;
                s->v = v;
                vis.push_back(v);
                item(Item::IStmt, nullptr, nullptr, s, nullptr);
            }
        }
        budget = 60;
        {
            bool savedCalls = !callable.empty();
            (void)savedCalls;
            int n = (int)g.range(1, c.maxGlobals);
            for (int i = 0; i < n; ++i) item(Item::IStmt, nullptr, nullptr, decl(anyType(), 2), nullptr);
        }
        p.prologueItems = p.items.size();
        std::vector<Func *> early;
        makeFuncs(early);
        if (c.defBeforeUse) for (Func *f : early) item(Item::IFunc, nullptr, f, nullptr, nullptr);
        budget = c.mainBudget;
        int lateLeft = 2;
        for (int i = 0; i < c.items; ++i) {
            if (c.calls && lateLeft > 0 && g.chance(1, 8)) {
                --lateLeft;
                Func *f = newFunc(false);
                body(f, c.funcBudget);
                item(Item::IFunc, nullptr, f, nullptr, nullptr);
                callable.push_back(f);
                stat("latefunc");
                continue;
            }
            std::vector<Stmt *> out;
            stmt(out, c.nest);
            for (Stmt *s : out) item(Item::IStmt, nullptr, nullptr, s, nullptr);
        }
        if (!c.defBeforeUse) {
            for (Func *f : early) {
                Item it;
                it.t = Item::IFunc;
                it.fns = {f};
                size_t at = p.prologueItems + g.below(p.items.size() - p.prologueItems + 1);
                p.items.insert(p.items.begin() + at, it);
            }
            // struct definitions may come after their uses
            if (g.chance(1, 3)) {
                for (size_t i = 0; i < p.items.size(); ++i) {
                    if (p.items[i].t == Item::IStruct && g.coin()) {
                        Item it = p.items[i];
                        p.items.erase(p.items.begin() + i);
                        p.items.push_back(it);
                        break;
                    }
                }
            }
        }
        confuse();
    }
    // Renames some things so that their names are easily confused: one is the beginning of another, or
    // differs from it in one letter or in the case of a letter.  Every new name is unique in the program.
    void confuse() {
        if (!g.chance(1, 2)) return;
        stat("confusable");
        static const char *res[] = {"null", "true", "false", "if", "func", "foreign", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use", "foreach",
            "as", "any", "int", "str", "bool", "float", "void", "dict", "file", "i64", "emit", "ti", "tf", "tb", "ts", "nat", "nat_id", "Nat", "here", "junk", "inp", "hook", "hc", "hs", "array",
            "json", "delegate", "fopen", "fclose", "fread", "fwrite", "fseek", "fsize", "input", "printf", "strlen", "stridx", "sget", "strchr", "strcat", "substr", "ston", "ntos", "stoi",
            "time", "srand", "rand", "floor", "ceil", "sleep", "exit", "KI", "KF", "KB", "KS", "fuel"};
        std::set<std::string> used(std::begin(res), std::end(res));
        std::vector<std::string *> top, all, fld;
        for (auto &v : p.vars) if (!v->fixedName) { (v->vs == VS::Global || v->vs == VS::Const ? top : all).push_back(&v->name); used.insert(v->name); }
        for (auto &f : p.funcs) { top.push_back(&f->name); used.insert(f->name); }
        for (auto &t : p.structs) { top.push_back(&t->name); used.insert(t->name); for (auto &f : t->fields) { fld.push_back(&f.name); used.insert(f.name); } }
        for (const Type *t : arrays) { top.push_back(const_cast<std::string *>(&t->arrName)); used.insert(t->arrName); }
        all.insert(all.end(), fld.begin(), fld.end());
        all.insert(all.end(), top.begin(), top.end());
        int n = (int)g.below(top.size() + 4);
        std::string stem;  // a long beginning which several names share
        if (g.chance(1, 4)) {
            static const int lens[] = {7, 15, 16, 23, 31, 32, 47, 63, 64, 90};
            int len = lens[g.below(10)];
            stem += (char)('a' + g.below(26));
            while ((int)stem.size() < len) stem += "abz_09KQ"[g.below(8)];
        }
        for (int i = 0; i < n; ++i) {
            std::vector<std::string *> &from = g.coin() ? top : all, &to = g.chance(2, 3) ? top : all;
            if (from.empty() || to.empty()) continue;
            if (!stem.empty() && g.coin()) {
                std::string t = stem + (char)('a' + g.below(26));
                if (used.insert(t).second) *g.pick(!fld.empty() && g.coin() ? fld : to) = t;
                continue;
            }
            std::string s = *g.pick(from);
            std::string *d = g.pick(to);
            if (to == all && !fld.empty() && g.coin()) d = g.pick(fld), s = *g.pick(fld);
            switch (g.below(5)) {
                case 0: s += (char)('a' + g.below(26)); break;
                case 1: s += (char)('0' + g.below(10)); break;
                case 2: s.pop_back(); break;
                case 3: s.erase(0, 1); break;
                default: for (size_t k = g.below(s.size()); k < s.size(); ++k) if (isalpha((unsigned char)s[k])) { s[k] ^= 32; break; } break;
            }
            if (s.size() > 1 && (s[0] | 32) == 'z' && (s[1] | 32) == 'q') continue;  // kept for the mistakes put in
            if (s.empty() || !isalpha((unsigned char)s[0]) || !used.insert(s).second) continue;
            *d = s;
        }
    }
};

// ---------------------------------------------------------------- printing
bool wordc(char c) { return isalnum((unsigned char)c) || c == '_'; }
bool opc(char c) { return strchr("+-*/%&|<>=!:.", c) != nullptr; }

struct Out {
    Program &p;
    Gen *g;
    std::string s;
    int line = 1;
    int indent = 0;
    bool pendNl = false, glue = false;

    Out(Program &p, Gen *g) : p(p), g(g) {}
    void put(const std::string &t) {
        for (char ch : t) if (ch == '\n') ++line;
        s += t;
    }
    void sep(char next) {
        char prev = s.empty() ? ' ' : s.back();
        bool need = !s.empty() && ((wordc(prev) && wordc(next)) || (opc(prev) && opc(next)) || (isdigit((unsigned char)prev) && next == '.') || (prev == '.' && isdigit((unsigned char)next)));
        if (!g) {
            if (pendNl) { if (!s.empty()) put("\n"); put(std::string(indent * 2, ' ')); }
            else if (!s.empty() && (need || !glue)) put(" ");
            pendNl = glue = false;
            return;
        }
        pendNl = glue = false;
        if (!need && g->chance(1, 3)) return;
        int n = 1 + (int)g->weighted({8, 2, 1});
        for (int i = 0; i < n; ++i) {
            switch (g->weighted({8, 2, 4, 1, 2, 1})) {
                case 0: put(" "); break;
                case 1: put("\t"); break;
                case 2: put("\n"); break;
                case 3: put("\r\n"); break;
                case 4: {
                    static const char *cm[] = {"// note\n", "//\n", "// x = 1 \"quoted\" 'c' { ( [\n", "////// a := b // c\n", "//\t\r\n"};
                    put(i == 0 ? " " : "");
                    put(cm[g->below(5)]);
                    break;
                }
                default: put("\f\v"); break;
            }
        }
    }
    void tok(const std::string &t) {
        sep(t[0]);
        for (Stmt *x : starting) x->line = line;
        starting.clear();
        put(t);
    }
    void tight(const std::string &t) { glue = true; tok(t); }  // no blank before it in the plain layout
    void nl() { pendNl = true; }

    std::string str(const std::string &v) {
        std::string r = "\"";
        for (char ch : v) {
            switch (ch) {
                case '"': r += "\\\""; break;
                case '\\': r += "\\\\"; break;
                case '\n': if (g && g->chance(1, 4)) r += '\n'; else r += "\\n"; break;
                case '\t': if (g && g->chance(1, 4)) r += '\t'; else r += "\\t"; break;
                case '\r': r += "\\r"; break;
                case '\b': r += "\\b"; break;
                default: r += ch;
            }
        }
        return r + "\"";
    }
    static int prec(const std::string &op) {
        if (op == "*" || op == "/" || op == "%" || op == "&" || op == "|") return 5;
        if (op == "<<" || op == ">>" || op == "+" || op == "-") return 4;
        if (op == "&&" || op == "||") return 2;
        return 3;
    }
    static bool primary(const Expr *e) {
        switch (e->k) {
            case EK::Bin: case EK::Un: case EK::Tern: return false;
            case EK::Int: return e->i >= 0 || e->i == INT64_MIN;
            case EK::Float: return !std::signbit(e->f);
            default: return true;
        }
    }
    static const Expr *first(const Expr *e) {
        for (;;) {
            if (e->k == EK::Bin) e = e->a[0];
            else if (e->k == EK::Dot || e->k == EK::Index || ((e->k == EK::FCall || e->k == EK::Call) && e->arrow && !e->a.empty() && !e->viaHost)) {
                if (!primary(e->a[0])) return nullptr;  // needs parentheses
                e = e->a[0];
            } else return e;
        }
    }
    static bool startsWithParen(const Expr *e) {
        const Expr *f = first(e);
        return !f || f->k == EK::Paren;
    }
    void paren(const Expr *e) { tok("("); glue = true; ex(e); tight(")"); }
    void operand(const Expr *e, int minPrec) {
        if (e->k == EK::Tern || (e->k == EK::Bin && prec(e->s) < minPrec)) paren(e);
        else ex(e);
    }
    void base(const Expr *e) { if (primary(e)) ex(e); else paren(e); }
    void args(const std::vector<Expr *> &a, size_t from) {
        tight("(");
        glue = true;
        for (size_t i = from; i < a.size(); ++i) {
            if (i > from) { tight(","); }
            ex(a[i]);
        }
        tight(")");
    }
    std::string fname(const Expr *e) {
        if (e->k == EK::Call) return e->fn->name;
        if (e->s.empty()) return e->type->arrName;
        if (e->s[0] == '@') return e->a[0]->type->arrName + "_" + e->s.substr(1);
        return e->s;
    }
    void call(const Expr *e, bool stmtPos) {
        if (e->viaHost) {
            tok("hc");
            tight("(");
            glue = true;
            tok("\"" + e->fn->name + "\"");
            for (Expr *x : e->a) { tight(","); ex(x); }
            tight(")");
            return;
        }
        if (e->arrow && !e->a.empty() && !(stmtPos && startsWithParen(e))) {
            base(e->a[0]);
            tight("->");
            tight(fname(e));
            args(e->a, 1);
            return;
        }
        tok(fname(e));
        args(e->a, 0);
    }
    void num(const std::string &t, bool neg) {
        if (neg) { tok("-"); glue = true; }
        tok(t);
    }
    void ex(const Expr *e) {
        if (e->raw) { tok(e->s); return; }
        switch (e->k) {
            case EK::Int:
                if (e->i == INT64_MIN) tok("0x8000000000000000");
                else num(std::to_string(e->i < 0 ? -e->i : e->i), e->i < 0);
                break;
            case EK::Hex: tok(strf(e->i % 2 ? "0x%llx" : "0x%llX", (unsigned long long)e->i)); break;
            case EK::Char: {
                std::string b = "'";
                char ch = (char)e->i;
                if (ch == '\'' || ch == '\\' ) b += '\\';
                b += ch;
                tok(b + "'");
                break;
            }
            case EK::Float: num(floatText(std::fabs(e->f)), std::signbit(e->f)); break;
            case EK::Str: tok(str(e->s)); break;
            case EK::Bool: tok(e->i ? "true" : "false"); break;
            case EK::Null: tok("null"); break;
            case EK::Var: tok(e->v->name); break;
            case EK::Bin: {
                int q = prec(e->s);
                operand(e->a[0], q);
                tok(e->s);
                operand(e->a[1], q + 1);
                break;
            }
            case EK::Un: tok(e->s); glue = true; if (e->a[0]->k == EK::Bin || e->a[0]->k == EK::Tern) paren(e->a[0]); else ex(e->a[0]); break;
            case EK::Tern:
                tok("if");
                paren(e->a[0]);
                if (primary(e->a[1]) && !startsWithParen(e->a[1])) ex(e->a[1]); else paren(e->a[1]);
                tok("else");
                ex(e->a[2]);
                break;
            case EK::Call: case EK::FCall: call(e, false); break;
            case EK::New: {
                tok("new");
                tok(e->type->st->name);
                tight("{");
                glue = true;
                for (size_t k = 0; k < e->a.size(); ++k) {
                    if (k) tight(",");
                    int i = e->order.empty() ? (int)k : e->order[k];
                    if (!e->order.empty()) { tok("."); tight(e->type->st->fields[i].name); tok("="); }
                    ex(e->a[i]);
                }
                tight("}");
                break;
            }
            case EK::Dot: base(e->a[0]); tight("."); tight(e->a[0]->type->st->fields[e->field].name); break;
            case EK::Index: base(e->a[0]); tight("["); glue = true; ex(e->a[1]); tight("]"); break;
            case EK::Cast: tok("cast"); tight("("); glue = true; ex(e->a[0]); tight(","); type(e->type); tight(")"); break;
            case EK::Paren: paren(e->a[0]); break;
        }
    }
    void type(const Type *t) {
        if (t->k == K::Nullable) { tok(t->inner->name()); tight("?"); }
        else tok(t->name());
    }
    void stmts(std::vector<Stmt *> &b) { for (Stmt *s : b) { nl(); stmt(s); } }
    void braces(std::vector<Stmt *> &b) {
        tok("{");
        ++indent;
        stmts(b);
        --indent;
        nl();
        tok("}");
    }
    std::vector<Stmt *> starting;  // statements whose first token comes next
    void mark(Stmt *s) { starting.push_back(s); }
    void stmt(Stmt *s) {
        switch (s->k) {
            case SK::Expr: mark(s); call(s->e, true); s->endLine = line; break;
            case SK::Decl:
                mark(s);
                tok(s->v->name);
                if (s->typed) { tight(":"); type(s->v->type); tok("="); }
                else tok(":=");
                ex(s->e);
                s->endLine = line;
                break;
            case SK::Const: mark(s); tok(s->v->name); tok("::"); ex(s->v->init); s->endLine = line; break;
            case SK::Assign: mark(s); ex(s->lhs); tok(s->op); ex(s->e); s->endLine = line; break;
            case SK::If: ifs(s); break;
            case SK::While:
                mark(s);
                tok("while");
                ex(s->e);
                s->endLine = line;
                if (s->bare && s->body.size() == 1) { ++indent; nl(); stmt(s->body[0]); --indent; }
                else braces(s->body);
                break;
            case SK::For:
                mark(s);
                tok("for");
                stmt(s->init);
                tight(";");
                ex(s->e);
                tight(";");
                stmt(s->step);
                s->endLine = line;
                if (s->bare && s->body.size() == 1) { ++indent; nl(); stmt(s->body[0]); --indent; }
                else braces(s->body);
                break;
            case SK::Block: mark(s); braces(s->body); s->endLine = line; break;
            case SK::Break: mark(s); tok("break"); s->endLine = line; break;
            case SK::Continue: mark(s); tok("continue"); s->endLine = line; break;
            case SK::Return:
                mark(s);
                tok("return");
                if (s->e) ex(s->e); else tight(";");
                s->endLine = line;
                break;
            case SK::Raw: mark(s); if (!s->raw.empty()) tok(s->raw); s->endLine = line; break;
        }
    }
    void ifs(Stmt *s) {
        mark(s);
        tok("if");
        ex(s->e);
        s->endLine = line;
        // an if without else in front of an else needs braces
        bool dangling = s->hasAlt && s->body.size() == 1 && endsOpen(s->body[0]);
        if (s->bare && s->body.size() == 1 && !dangling) { ++indent; nl(); stmt(s->body[0]); --indent; nl(); }
        else braces(s->body);
        if (s->hasAlt) {
            tok("else");
            if (s->alt.size() == 1 && (s->bare || s->alt[0]->k == SK::If)) stmt(s->alt[0]);
            else braces(s->alt);
        }
    }
    static bool endsOpen(Stmt *s) {
        if (s->k == SK::If) return true;
        if (s->k == SK::For || s->k == SK::While) return true;
        return false;
    }
    void func(Func *f) {
        tok("func");
        tok(f->name);
        tight("(");
        glue = true;
        for (size_t i = 0; i < f->params.size(); ++i) {
            if (i) tight(",");
            tok(f->params[i]->name);
            tight(":");
            type(f->params[i]->type);
        }
        tight(")");
        if (f->ret->k != K::Void || f->index % 3 == 0) { tight(":"); type(f->ret); }
        braces(f->body);
    }
};

}  // namespace

void generate(Gen &g, const Cfg &c, Program &p) { B(g, c, p).run(); }

Printed print(Program &p, const Layout &l) {
    Out o(p, l.g);
    Printed r;
    for (auto &it : p.items) {
        o.nl();
        // keep the separator in front of the item in the previous piece
        if (l.g) { if (!o.s.empty()) o.put(l.g->coin() ? "\n" : " "); }
        else if (!o.s.empty()) { o.put("\n"); o.pendNl = false; o.glue = true; }
        r.itemStart.push_back(o.s.size());
        switch (it.t) {
            case Item::IStruct:
                o.tok("struct");
                o.tok(it.st->name);
                o.tok("{");
                ++o.indent;
                for (auto &f : it.st->fields) { o.nl(); o.tok(f.name); o.tight(":"); o.type(f.type); }
                --o.indent;
                o.nl();
                o.tok("}");
                break;
            case Item::IFunc: for (Func *f : it.fns) o.func(f); break;
            case Item::IStmt: o.stmt(it.s); break;
            case Item::IUse:
                o.tok("use");
                o.tok("array");
                o.tight("(");
                o.tight("\"" + it.arr->inner->name() + "\"");
                o.tight(")");
                o.tok("as");
                o.tok(it.arr->arrName);
                break;
        }
    }
    if (!l.g) o.put("\n");
    else o.put(l.g->coin() ? "" : "\n// end");
    r.text = o.s;
    return r;
}

std::string exprText(const Program &p, const Expr *e) {
    Out o(const_cast<Program &>(p), nullptr);
    o.glue = true;
    o.ex(e);
    return o.s;
}

}  // namespace lang
