// Plants one mistake (a type or name error) in a valid generated program.
#pragma once
#include <algorithm>
#include "lang.h"

namespace lang {

struct Mistake {
    std::string kind;      // what was planted
    Stmt *at = nullptr;    // the statement which contains it
    bool line = true;      // whether the line of the error is that of the statement
    std::string says;      // a name the message must contain
};

inline bool assignable(const Type *src, const Type *dst) {
    if (src->k == K::Void) return false;
    if (dst->k == K::Any) return true;
    if (src->k == K::Any) return false;
    if (dst->k == K::Nullable && src->k != K::Nullable) return assignable(src, dst->inner);
    return src->name() == dst->name();
}

class Planter {
    pbt::Gen &g;
    Program &p;
    struct Site { std::string kind; Stmt *at; std::function<void()> apply; bool line = true; std::string says; };
    std::vector<Site> sites;
    std::vector<std::string> kinds;
    Func *fn = nullptr;       // the function being walked
    int fresh = 0;
    struct ListCtx { std::vector<Stmt *> *list; Func *fn; int loops; int depth; };
    std::vector<ListCtx> lists;

    void site(const char *kind, Stmt *at, std::function<void()> f, const std::string &says = std::string()) { sites.push_back({kind, at, f, true, says}); }
    Expr *raw(const std::string &s, const Type *t = nullptr) {
        Expr *e = p.expr(EK::Int, t ? t : p.prim(K::Int));
        e->raw = true;
        e->s = s;
        return e;
    }
    // Text of an expression which must not stand where a value of type t is required.
    std::string wrong(const Type *t) {
        std::vector<std::string> v;
        auto add = [&](const Type *u, const std::string &s) { if (!assignable(u, t)) v.push_back(s); };
        add(p.prim(K::Int), "7");
        add(p.prim(K::Float), "2.5");
        add(p.prim(K::Bool), "true");
        add(p.prim(K::Str), "\"w\"");
        add(p.prim(K::Void), "junk(1)");
        add(p.prim(K::Nat), "nat(1)");
        if (t->k != K::Any) v.push_back("null"), v.push_back("cast(5, any)");
        for (auto &u : p.types) {
            if (u->k == K::Array || u->k == K::Any || u->k == K::Void) continue;
            if (u->k == K::Nullable && u->inner->k == K::Array) continue;
            if (!assignable(u.get(), t)) v.push_back("cast(null, " + u->name() + ")");
        }
        if (t->k != K::Nullable && t->k != K::Void && t->k != K::Any && t->k != K::Array) v.push_back("cast(null, " + t->name() + "?)");
        return v[g.below(v.size())];
    }
    std::string notNumber() {
        static const char *v[] = {"true", "\"w\"", "null", "junk(1)", "nat(1)", "cast(null, int?)", "cast(null, float?)", "(1 < 2)", "cast(1, any)", "dict()"};
        return v[g.below(10)];
    }
    std::string notInt() { return g.chance(1, 3) ? "2.5" : notNumber(); }
    std::string notBool() {
        static const char *v[] = {"1", "0", "2.5", "\"w\"", "null", "junk(1)", "nat(1)", "cast(null, bool?)", "cast(true, any)", "dict()"};
        return v[g.below(10)];
    }
    static void dropEmptyArrow(Expr *e) { if (e->a.empty()) e->arrow = false; }

    void expr(Expr *&slot, Stmt *s, bool stmtPos = false) {
        Expr *e = slot;
        if (e->raw) return;
        Expr **ps = &slot;
        auto sub = [&](const char *kind, size_t i, std::string (Planter::*w)()) {
            site(kind, s, [=] { e->a[i] = raw((this->*w)()); });
        };
        switch (e->k) {
            case EK::Call: {
                if (e->viaHost) break;
                for (size_t i = 0; i < e->a.size(); ++i) {
                    const Type *t = e->fn->params[i]->type;
                    site("argument type", s, [=] { e->a[i] = raw(wrong(t)); });
                }
                if (!e->a.empty()) site("too few arguments", s, [=] { e->a.pop_back(); dropEmptyArrow(e); }, e->fn->name);
                site("too many arguments", s, [=] { e->a.push_back(raw(g.coin() ? "5" : "null")); }, e->fn->name);
                if (stmtPos) site("undeclared function", s, [=] { s->k = SK::Raw; s->raw = "zqundef(1)"; }, "zqundef");
                break;
            }
            case EK::FCall: {
                static const std::map<std::string, std::vector<K>> sig = {
                    {"ti", {K::Int}}, {"tf", {K::Float}}, {"tb", {K::Bool}}, {"ts", {K::Str}}, {"nat", {K::Int}}, {"nat_id", {K::Nat}}, {"here", {}}, {"junk", {K::Int}}, {"inp", {K::Int}}};
                auto it = sig.find(e->s);
                if (it != sig.end() && it->second.size() == e->a.size()) {
                    for (size_t i = 0; i < e->a.size(); ++i) {
                        const Type *t = p.prim(it->second[i]);
                        site("foreign argument type", s, [=] { e->a[i] = raw(wrong(t)); });
                    }
                    if (!e->a.empty()) site("too few foreign arguments", s, [=] { e->a.pop_back(); dropEmptyArrow(e); }, e->s);
                    site("too many foreign arguments", s, [=] { e->a.push_back(raw("5")); }, e->s);
                }
                if (e->s == "@push" && e->a.size() == 2) {
                    const Type *t = e->a[0]->type->inner;
                    site("array element type", s, [=] { e->a[1] = raw(wrong(t)); });
                }
                break;
            }
            case EK::Bin:
                if (e->s == "&&" || e->s == "||") { sub("operand of && or ||", 0, &Planter::notBool); sub("operand of && or ||", 1, &Planter::notBool); }
                else if (e->s == "==" || e->s == "!=") {
                    site("comparison with void", s, [=] { e->a[g.below(2)] = raw("junk(1)"); });
                } else if (e->s == "%" || e->s == "&" || e->s == "|" || e->s == "<<" || e->s == ">>") { sub("operand of int operator", 0, &Planter::notInt); sub("operand of int operator", 1, &Planter::notInt); }
                else { sub("operand of number operator", 0, &Planter::notNumber); sub("operand of number operator", 1, &Planter::notNumber); }
                break;
            case EK::Un:
                if (e->s == "!") sub("operand of !", 0, &Planter::notBool);
                else sub("operand of -", 0, &Planter::notNumber);
                break;
            case EK::Tern:
                sub("condition of if expression", 0, &Planter::notBool);
                {
                    const Type *t = e->type;
                    site("branches of if expression", s, [=] { e->a[1 + g.below(2)] = raw(t->k == K::Str ? "7" : "\"w\""); });
                }
                break;
            case EK::New: {
                Struct *st = e->type->st;
                for (size_t i = 0; i < e->a.size(); ++i) {
                    const Type *t = st->fields[i].type;
                    site("field type", s, [=] { e->a[i] = raw(wrong(t)); });
                }
                if (e->order.empty()) {
                    if (!e->a.empty()) site("missing field", s, [=] { e->a.pop_back(); });
                    site("too many fields", s, [=] { e->a.push_back(raw("5")); });
                } else {
                    // named: left out, twice, unknown, or not all of them named
                    site("named fields", s, [=] {
                        size_t n = e->order.size(), bad = g.below(n);
                        int how = (int)g.below(5);
                        std::string r = "new " + st->name + "{";
                        std::vector<std::string> parts;
                        for (size_t k = 0; k < n; ++k) {
                            int f = e->order[k];
                            std::string v = exprText(p, e->a[f]);
                            if (k == bad && how == 0) continue;
                            if (k == bad && how == 1) { parts.push_back("." + st->fields[f].name + " = " + v); }
                            if (k == bad && how == 2) { parts.push_back(".zqnone = " + v); continue; }
                            if (k == bad && how == 3 && n > 1) { parts.push_back(v); continue; }
                            parts.push_back("." + st->fields[f].name + " = " + v);
                        }
                        if (how == 4 || (how == 3 && n == 1)) parts.push_back(".zqnone = 1");
                        for (size_t k = 0; k < parts.size(); ++k) r += (k ? ", " : "") + parts[k];
                        *ps = raw(r + "}", e->type);
                    });
                }
                site("unknown struct", s, [=] { *ps = raw("new Zqundef{}", e->type); }, "Zqundef");
                break;
            }
            case EK::Dot:
                site("unknown field", s, [=] {
                    std::string t = exprText(p, e);
                    *ps = raw(t.substr(0, t.rfind('.')) + ".zqnone", e->type);
                }, "zqnone");
                site("field of a value without fields", s, [=] {
                    static const char *v[] = {"KI", "KS", "null", "nat(1)", "cast(5, any)"};
                    std::string f = "." + e->a[0]->type->st->fields[e->field].name, o = v[g.below(5)];
                    if (g.chance(1, 3)) o = "cast(null, " + e->a[0]->type->name() + "?)";
                    *ps = raw(o + f, e->type);
                });
                break;
            case EK::Index:
                site("index of a value without elements", s, [=] { e->a[0] = raw("KI"); });
                if (e->a[0]->type->k == K::Array) {
                    const Type *t = p.prim(K::Int);
                    site("index type", s, [=] { e->a[1] = raw(wrong(t)); });
                }
                break;
            case EK::Cast:
                if (e->type->k != K::Any) site("cast", s, [=] { e->a[0] = raw(g.coin() ? "5" : "\"w\""); });
                break;
            case EK::Var: site("undeclared variable", s, [=] { *ps = raw("zqundef", e->type); }, "zqundef"); break;
            default: break;
        }
        if (!stmtPos && e->k != EK::Var && slot == e && s->k != SK::Assign) {
            site("undeclared function", s, [=] { *ps = raw("zqundef(1)", e->type); }, "zqundef");
        }
        for (Expr *&x : e->a) expr(x, s);
    }
    void stmt(Stmt *s, int loops, int depth) {
        switch (s->k) {
            case SK::Expr: expr(s->e, s, true); break;
            case SK::Decl: {
                if (s->typed) { const Type *t = s->v->type; site("initial value", s, [=] { s->e = raw(wrong(t)); }); }
                else site("void initial value", s, [=] { s->e = raw("junk(1)"); });
                expr(s->e, s);
                break;
            }
            case SK::Assign: {
                const Type *t = s->lhs->type;
                site(s->op == "=" ? "assigned value" : "compound assigned value", s, [=] { s->e = raw(wrong(t)); });
                if (s->op == "=" && t->k != K::Int && t->k != K::Float)
                    site("compound assignment to a value which is no number", s, [=] { static const char *o[] = {"+=", "-=", "*=", "/=", "%=", "|=", "&="}; s->op = o[g.below(7)]; });
                if (t->k == K::Float)
                    site("int-only compound assignment", s, [=] { static const char *o[] = {"%=", "|=", "&="}; s->op = o[g.below(3)]; });
                if (t->k == K::Int || t->k == K::Float || t->k == K::Str)
                    site("assignment to a constant", s, [=] { s->lhs = raw(t->k == K::Int ? "KI" : t->k == K::Float ? "KF" : "KS", t); });
                expr(s->lhs, s);
                expr(s->e, s);
                break;
            }
            case SK::If:
                site("condition", s, [=] { s->e = raw(notBool()); });
                expr(s->e, s);
                list(s->body, loops, depth + 1);
                if (s->hasAlt) list(s->alt, loops, depth + 1, s->alt.size() == 1 && s->alt[0]->k == SK::If);
                break;
            case SK::While:
                site("condition", s, [=] { s->e = raw(notBool()); });
                expr(s->e, s);
                list(s->body, loops + 1, depth + 1);
                break;
            case SK::For:
                site("condition", s, [=] { s->e = raw(notBool()); });
                expr(s->e, s);
                stmt(s->init, loops, depth + 1);
                stmt(s->step, loops, depth + 1);
                list(s->body, loops + 1, depth + 1);
                break;
            case SK::Block: list(s->body, loops, depth + 1); break;
            case SK::Return: {
                const Type *t = fn->ret;
                if (s->e) {
                    site("returned value", s, [=] { s->e = raw(wrong(t)); });
                    site("return without value", s, [=] { s->e = nullptr; });
                    expr(s->e, s);
                } else site("return with value", s, [=] { s->e = raw(g.coin() ? "5" : "junk(1)"); });
                break;
            }
            default: break;
        }
    }
    void list(std::vector<Stmt *> &l, int loops, int depth, bool noInsert = false) {
        if (!noInsert) lists.push_back({&l, fn, loops, depth});
        for (Stmt *s : l) stmt(s, loops, depth);
    }
    Stmt *rawStmt(const std::string &t) { Stmt *s = p.stmt(SK::Raw); s->raw = t; return s; }
    static void names(std::vector<Stmt *> &l, std::vector<Var *> &out) {
        for (Stmt *s : l) collect(s, out);
    }
    static void collect(Stmt *s, std::vector<Var *> &out) {
        if (s->k == SK::Decl) out.push_back(s->v);
        if (s->init) collect(s->init, out);
        names(s->body, out);
        names(s->alt, out);
    }

public:
    Planter(pbt::Gen &g, Program &p) : g(g), p(p) {
        for (auto &it : p.items) {
            if (it.t == Item::IStmt) { fn = nullptr; stmt(it.s, 0, 0); }
            for (Func *f : it.fns) { fn = f; list(f->body, 0, 0); }
        }
    }
    // Replaces something which is there.
    Mistake replace() {
        std::vector<std::string> ks;
        for (auto &s : sites) if (std::find(ks.begin(), ks.end(), s.kind) == ks.end()) ks.push_back(s.kind);
        if (ks.empty()) throw pbt::Discard{};
        std::string k = ks[g.below(ks.size())];
        std::vector<Site *> of;
        for (auto &s : sites) if (s.kind == k) of.push_back(&s);
        Site *s = of[g.below(of.size())];
        s->apply();
        return {k, s->at, s->line, s->says};
    }
    // Adds a statement, or two of which the second is wrong.
    Mistake insert() {
        // where: at the top level or in a list of statements
        bool top = lists.empty() || g.chance(1, 3);
        std::vector<Stmt *> in;
        std::string kind;
        bool inFunc = false;
        ListCtx *lc = nullptr;
        if (!top) { lc = &lists[g.below(lists.size())]; inFunc = lc->fn != nullptr; }
        std::vector<std::pair<std::string, std::string>> opts;  // setup, mistake
        auto o = [&](const char *a, const char *b) { opts.push_back({a, b}); };
        o("", "KI = 3"); o("", "KI += 1"); o("", "KS = \"x\""); o("", "zqundef = 3"); o("", "zqundef += 3"); o("", "zqundef(3)"); o("", "emit(1, zqundef)");
        o("", "zq := zqundef"); o("", "zq := zqundef()"); o("", "zq: Zqnope = 5"); o("", "zq: int = new Zqnope{}"); o("", "if 1 { }"); o("", "while \"x\" { }");
        o("", "for zq := 0; 1; zq += 1 { }"); o("", "if null { }"); o("", "zq: int? = 2.5"); o("", "zq: str = null"); o("", "zq := junk(1)"); o("", "zq: any = junk(1)");
        o("zq := true", "zq += true"); o("zq := \"a\"", "zq += \"b\""); o("zq := 1.5", "zq %= 2.0"); o("zq := 1.5", "zq |= 1.5"); o("zq := 1.5", "zq &= 1"); o("zq := 1", "zq = 1.5");
        o("zq := 1", "zq += 1.5"); o("zq := 1.5", "zq = 1"); o("zq := 1", "zq()"); o("zq := 1", "zq := 2"); o("zq := 1", "zq: int = 2"); o("zq: int = 1", "zq: float = 2.5"); o("zq := 1", "zq.x = 1"); o("zq := 1", "zq[0] = 1");
        o("zq: int? = 3", "emit(zq + 1)"); o("zq: int? = 3", "zqi: int = zq"); o("zq: any = 1", "zqi: int = zq"); o("zq: any = true", "if zq { }"); o("zq: any = 1", "zq += 1"); o("zq: any = 1", "emit(-zq)");
        o("zq: bool? = true", "while zq { }"); o("zq := cast(3, any)", "ti(zq)"); o("zq: str? = \"a\"", "ts(zq)"); o("zq := nat(1)", "emit(nat_id(zq) + zq)"); o("zq := 'a'", "zq = \"a\""); o("zq := 1 < 2", "emit(zq < true)");
        o("", "emit(\"a\" + \"b\")"); o("", "emit(\"a\" < \"b\")"); o("", "emit(true == junk(1))"); o("", "emit(1 << 2.0)"); o("", "emit(1.5 % 2.0)"); o("", "emit(!1)"); o("", "emit(-true)"); o("", "emit(cast(1, float))"); o("", "emit(cast(1.5, int))");
        o("", "emit(if 1 2 else 3)"); o("", "emit(if true 2 else 3.5)"); o("", "emit(KI.x)"); o("", "emit(KI[0])"); o("", "emit(dict(1))->zqundef()"); o("", "ti()"); o("", "ti(1, 2)"); o("", "tf(1)"); o("", "ti(1.0)"); o("", "ts('a')"); o("", "here(1)");
        if (!lc || lc->loops == 0) { o("", "break"); o("", "continue"); o("", "if true { break }"); o("", "if false { emit(1) } else { continue }"); }
        if (!inFunc) { o("", "return;"); o("", "return 3"); o("", "if true { return; }"); }
        if (!lc) {
            o("zq :: 5", "zq = 6"); o("zq :: 5", "zq += 1"); o("zq :: 5", "zq :: 6"); o("zq :: 5", "zq := 6"); o("zq := 1", "zq :: 6"); o("zq :: 1.5", "emit(zq % 2)"); o("", "KI :: 5"); o("", "KI := 5"); o("", "KS: str = \"a\"");
            o("", "func zqf(a: int, a: int) { }"); o("", "func zqf(a: Zqnope) { }"); o("", "func zqf(): Zqnope { return cast(null, Zqnope) }"); o("", "func zqf(): int { return true }"); o("", "func zqf() { zqa := 1 zqa := 2 }"); o("", "func zqf(): int { return; }");
            o("", "struct Zqs { a: int a: float }"); o("", "struct Zqs { a: Zqnope }"); o("", "struct Zqs { a: Zqnope? }"); o("struct Zqs { a: int }", "struct Zqs { a: int }"); o("struct Zqs { a: int }", "new Zqs{1}.b = 2"); o("struct Zqs { a: int }", "zq := new Zqs{}"); o("struct Zqs { a: int }", "zq := new Zqs{1, 2}");
            o("struct Zqs { a: int b: int }", "zq := new Zqs{.a = 1}"); o("struct Zqs { a: int b: int }", "zq := new Zqs{.a = 1, .a = 2}"); o("struct Zqs { a: int b: int }", "zq := new Zqs{.b = 1, .c = 2}"); o("struct Zqs { a: int }", "zq: Zqs = cast(null, Zqs?)"); o("struct Zqs { a: int }", "emit(cast(null, Zqs?).a)");
            o("", "func zqf() { break }"); o("", "func zqf() { zqf(1) }"); o("", "func zqf(a: int) { zqf() }"); o("", "func zqf(a: int): int { return zqf(\"x\") }"); o("", "func zqf() { return 5 }"); o("", "func zqf() { emit(zqg) } func zqg() { zql := 1 }"); o("func zqf() { zql := 1 }", "emit(zql)"); o("func zqf(zqp: int) { }", "emit(zqp)");
            o("func zqf() { if true { zql := 1 } }", "func zqg() { emit(zql) }"); o("", "func zqf() { if true { zql := 1 } emit(zql) }"); o("", "func zqf() { for zql := 0; zql < 2; zql += 1 { } emit(zql) }"); o("", "func zqf() { emit(zql) zql := 1 }"); o("", "func zqf() { while true { zql := 1 break } zql = 2 }"); o("", "func zqf() { { zql := 1 } emit(zql) }");
            o("func zqf(a: int, b: str) { }", "zqf(\"x\", 1)"); o("func zqf(): int { return 1 }", "zq: float = zqf()"); o("func zqf() { }", "zq := zqf()"); o("func zqf() { }", "emit(1 == zqf())");
            if (!p.structs.empty()) {
                std::string n = p.structs[g.below(p.structs.size())]->name;
                opts.push_back({"", "struct " + n + " { zqa: int }"});
                opts.push_back({"", "zq: " + n + " = null"});
                opts.push_back({"", "zq: " + n + " = 5"});
                opts.push_back({"", "emit(cast(null, " + n + ").zqnone)"});
            }
        }
        if (lc && lc->fn) { o("", "func zqf() { }"); o("", "struct Zqs { a: int }"); }
        auto &q = opts[g.below(opts.size())];
        if (!q.first.empty()) in.push_back(rawStmt(q.first));
        Stmt *bad = rawStmt(q.second);
        if (lc) {
            size_t at = g.below(lc->list->size() + 1);
            size_t at2 = q.first.empty() ? at : at + g.below(lc->list->size() - at + 1);
            lc->list->insert(lc->list->begin() + at2, bad);
            if (!q.first.empty()) lc->list->insert(lc->list->begin() + at, in[0]);
        } else {
            auto item = [&](Stmt *s, size_t at) { Item it; it.t = Item::IStmt; it.s = s; p.items.insert(p.items.begin() + at, it); };
            size_t at = g.below(p.items.size() + 1);
            if (q.second.compare(0, 7, "struct ") == 0 && q.second.find("{ zqa") != std::string::npos) at = p.items.size();  // the second definition is the mistake
            size_t at2 = q.first.empty() ? at : at + g.below(p.items.size() - at + 1);
            item(bad, at2);
            if (!q.first.empty()) item(in[0], at);
        }
        return {"inserted: " + (q.first.empty() ? "" : q.first + " ... ") + q.second, bad, true};
    }
    // Uses a local outside its scope, or declares one again.  Needs a program without shadowing.
    Mistake scope() {
        struct Cand { ListCtx *lc; size_t i; int how; Var *v; };
        std::vector<Cand> cs;
        for (auto &lc : lists) {
            for (size_t i = 0; i < lc.list->size(); ++i) {
                Stmt *s = (*lc.list)[i];
                if (s->k == SK::Decl && lc.fn) {
                    cs.push_back({&lc, i, 0, s->v});  // again in the same block
                    cs.push_back({&lc, i, 1, s->v});  // used before it
                    cs.push_back({&lc, i, 2, s->v});  // used in another function or at the top level
                }
                if (lc.fn) {  // inner declarations used after the statement which contains them
                    std::vector<Var *> in;
                    if (s->k != SK::Decl) collect(s, in);
                    for (Var *v : in) cs.push_back({&lc, i, 3, v});
                }
            }
        }
        if (cs.empty()) throw pbt::Discard{};
        Cand c = cs[g.below(cs.size())];
        const std::string &n = c.v->name;
        static const char *kinds[] = {"declared twice in a block", "used before its declaration", "local of another function", "used outside its block"};
        // another variable of this name would make the use valid
        int same = 0;
        for (auto &v : p.vars) same += v->name == n;
        if (c.how && same > 1) throw pbt::Discard{};
        std::string use = g.coin() ? "emit(" + n + ")" : n + " = " + (c.v->type->k == K::Int ? "1" : n);
        auto &l = *c.lc->list;
        Stmt *bad = nullptr;
        switch (c.how) {
            case 0: {
                static const char *v[] = {" := 5", ": int = 5", ": str = \"a\"", " := true"};
                bad = rawStmt(n + v[g.below(4)]);
                l.insert(l.begin() + c.i + 1 + g.below(l.size() - c.i), bad);
                break;
            }
            case 1: bad = rawStmt(use); l.insert(l.begin() + g.below(c.i + 1), bad); break;
            case 3: bad = rawStmt(use); l.insert(l.begin() + c.i + 1 + g.below(l.size() - c.i), bad); break;
            default: {
                bad = rawStmt(use);
                std::vector<ListCtx *> other;
                for (auto &x : lists) if (x.fn != c.lc->fn) other.push_back(&x);
                if (!other.empty() && g.coin()) { auto &m = *other[g.below(other.size())]->list; m.insert(m.begin() + g.below(m.size() + 1), bad); }
                else { Item it; it.t = Item::IStmt; it.s = bad; p.items.insert(p.items.begin() + g.below(p.items.size() + 1), it); }
                break;
            }
        }
        return {kinds[c.how], bad, true, n};
    }
};

}  // namespace lang
