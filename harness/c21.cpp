#include "cuts.h"
#include "vals.h"
using namespace pbt;
using namespace lang;

namespace {
struct Place { std::string file; int first = 0, last = 0; };  // file "(none)": compiled without a name
std::string shown(const Place &p) { return p.first == p.last ? strf("%s:%d", p.file.c_str(), p.first) : strf("%s:%d-%d", p.file.c_str(), p.first, p.last); }
bool in(const Place &p, const std::string &file, int line) { return file == p.file && line >= p.first && line <= p.last; }
std::pair<std::string, int> ask(const Tiny_StateThread *t) {
    const char *f = (const char *)1;
    int line = -77;
    Tiny_GetExecutingFileLine(t, &f, &line);
    const char *f2 = (const char *)1;
    int line2 = -77;
    Tiny_GetExecutingFileLine(t, &f2, nullptr);
    Tiny_GetExecutingFileLine(t, nullptr, &line2);
    PBT_CHECK(f == f2 && line == line2, "asking for only one of file and line gives another answer");
    return {f ? f : "(none)", line};
}
void nothing(const Tiny_StateThread *t, const char *when) {
    auto q = ask(t);
    PBT_CHECK(q.first == "(none)" && q.second == 0, "%s, %s:%d is reported", when, q.first.c_str(), q.second);
}

void marks(Stmt *s, std::map<Stmt *, int> &unit, int u) {
    if (!s) return;
    unit[s] = u;
    marks(s->init, unit, u); marks(s->step, unit, u);
    for (Stmt *x : s->body) marks(x, unit, u);
    for (Stmt *x : s->alt) marks(x, unit, u);
}
// Whole programs which ask for the line in all kinds of expressions.
void generated(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 10; cfg.mainBudget = 250; cfg.funcBudget = 80;
    cfg.lineProbe = true;
    bool units = g.coin();
    cfg.defBeforeUse = units;
    cfg.hostCalls = g.coin();
    generate(g, cfg, p);
    Layout l;
    if (g.chance(2, 3)) l.g = &g;
    Printed pr = print(p, l);
    Host h;
    std::vector<size_t> at = units ? cutPoints(g, p, 5) : std::vector<size_t>();
    at.push_back(p.items.size());
    static const char *names[] = {"prog", "a b.tiny", "x", "prog2"};
    std::map<Stmt *, int> unit;
    std::vector<std::string> name;
    std::vector<int> before;
    size_t from = 0;
    for (size_t u = 0; u < at.size(); ++u) {
        size_t b0 = pr.itemStart[from], b1 = at[u] < p.items.size() ? pr.itemStart[at[u]] : pr.text.size();
        const char *nm = g.chance(1, 10) ? nullptr : names[g.below(4)];
        name.push_back(nm ? nm : "(none)");
        before.push_back((int)std::count(pr.text.begin(), pr.text.begin() + b0, '\n'));
        for (size_t i = from; i < at[u]; ++i) {
            marks(p.items[i].s, unit, (int)u);
            for (Func *f : p.items[i].fns) for (Stmt *s : f->body) marks(s, unit, (int)u);
        }
        std::string piece = pr.text.substr(b0, b1 - b0);
        c.say("// unit " + name.back() + "\n" + piece + "\n");
        h.mustCompile(piece, nm);
        from = at[u];
    }
    Machine m(p);
    m.run();
    Thread t(h);
    t.start();
    t.run();
    compareTrace(m.trace, t.trace);
    PBT_CHECK(m.hereStmts.size() == t.hereLines.size(), "here() was called %zu times instead of %zu", t.hereLines.size(), m.hereStmts.size());
    for (size_t i = 0; i < m.hereStmts.size(); ++i) {
        Stmt *s = m.hereStmts[i];
        auto it = unit.find(s);
        PBT_CHECK(it != unit.end(), "the statement is not part of a unit");
        Place w{name[it->second], s->line - before[it->second], s->endLine - before[it->second]};
        std::string f = t.hereLines[i].first == "(null)" ? "(none)" : t.hereLines[i].first;
        PBT_CHECK(in(w, f, t.hereLines[i].second), "call %zu of here() reports %s:%d instead of %s", i, f.c_str(), t.hereLines[i].second, shown(w).c_str());
    }
    nothing(t.t.get(), "after the end");
    t.destroy();
    c.nontrivial = m.hereStmts.size() >= 3;
    c.labelIf(at.size() > 1, "several units");
}

// Programs made of statements which are recognised by what they do.
struct Leaf { Place at; };
struct W {
    Gen &g;
    std::string s;
    int line = 1;
    std::string file;
    std::vector<Place> &leaf;      // by number
    std::vector<std::string> &funcs;
    std::map<std::string, int> &counter;  // global -> leaf
    int depth = 0, budget, gap = 0;
    bool inFunc = false;

    void put(const std::string &t) { for (char ch : t) line += ch == '\n'; s += t; }
    void ws(bool must) {
        if (!must && g.chance(2, 3)) return;
        switch (g.below(7)) {
            case 0: case 1: case 2: put(" "); break;
            case 3: put("\n"); break;
            case 4: put("\t\n \n"); break;
            case 5: put(" // a \"note\n"); break;
            default: put("\r\n"); break;
        }
    }
    void tok(const std::string &t, bool apart = false) { ws(apart); put(t); }
    // expressions which ask: each is the number of the statement it is in
    void expr(int k, int d) {
        switch (d <= 0 ? g.below(2) : g.below(7)) {
            case 0: tok(std::to_string(g.below(100)), true); break;
            case 6: tok("scripted", true); tok("("); tok(std::to_string(k)); tok(","); tok("get_executing_line"); tok("("); tok(")"); tok(")"); break;
            case 1: tok("probe", true); tok("("); tok(std::to_string(k)); tok(")"); break;
            case 2: expr(k, d - 1); tok(g.coin() ? "+" : "-"); expr(k, d - 1); break;
            case 3: tok("("); expr(k, d - 1); tok(")"); break;
            case 4: tok("len", true); tok("("); text(); tok(")"); break;
            default:
                if (funcs.empty()) { tok("probe", true); tok("("); tok(std::to_string(k)); tok(")"); break; }
                tok(funcs[g.below(funcs.size())], true);
                tok("(");
                expr(k, d - 1);
                tok(")");
                break;
        }
    }
    void text() {
        static const char *t[] = {"\"plain\"", "\"two\nlines\"", "\"\\\n\"", "\"\\n\"", "\"a\n\nb\\\nc // no note\n\"", "\"\""};
        tok(t[g.below(6)]);
    }
    int open() { leaf.push_back({file, 0, 0}); return (int)leaf.size() - 1; }
    void begin(int k, const std::string &t) { ws(true); leaf[k].first = line; put(t); }
    void end(int k) { leaf[k].last = line; }
    void block() {
        tok("{");
        int n = (int)g.below(4);
        ++depth;
        for (int i = 0; i < n && budget > 0; ++i) stmt();
        --depth;
        tok("}");
    }
    void stmt() {
        --budget;
        if (g.chance(1, 5)) put(std::string(g.below(4), '\n'));
        int k = open();
        switch (g.below(depth >= 3 ? 6 : 9)) {
            case 0: begin(k, "emit"); tok("("); tok(std::to_string(k)); tok(","); expr(k, 2); tok(")"); end(k); break;
            case 1: {
                std::string n = strf("c%d", k);
                counter[n] = k;
                begin(k, n);
                if (g.coin()) { tok("+="); tok("1"); }
                else { tok("="); tok(n); tok("+"); tok("1"); }
                end(k);
                break;
            }
            case 2: {
                std::string n = strf("v%d", k);
                if (inFunc || depth) { begin(k, "emit"); tok("("); tok(std::to_string(k)); tok(","); tok(strf("'%s'", g.coin() ? "\n" : g.coin() ? "\\\n" : "a")); tok(")"); end(k); break; }
                counter[n] = k;
                begin(k, n);
                if (g.coin()) { tok(":"); tok("int"); tok("="); } else tok(":=");
                expr(k, 2);
                end(k);
                break;
            }
            case 3:
                begin(k, "probe"); tok("("); tok(std::to_string(k)); tok(")"); end(k);
                break;
            case 4:
                if (funcs.empty()) { begin(k, "probe"); tok("("); tok(std::to_string(k)); tok(")"); end(k); break; }
                begin(k, "twice"); tok("("); tok("\"" + funcs[g.below(funcs.size())] + "\""); tok(","); tok(std::to_string(k)); tok(")"); end(k);
                break;
            case 5:
                if (funcs.empty()) { begin(k, "emit"); tok("("); tok(std::to_string(k)); tok(")"); end(k); break; }
                begin(k, funcs[g.below(funcs.size())]); tok("("); expr(k, 1); tok(")"); end(k);
                break;
            case 6: {
                begin(k, "if");
                tok("ask", true); tok("("); tok(std::to_string(k)); tok(","); expr(k, 1); tok(")");
                end(k);
                block();
                if (g.coin()) { tok("else"); block(); }
                break;
            }
            case 7:
                begin(k, "while");
                tok("again", true); tok("("); tok(std::to_string(k)); tok(")");
                end(k);
                block();
                break;
            default: {
                std::string n = strf("i%d", k);
                begin(k, "for");
                tok(n, true); tok(":="); tok("probe"); tok("("); tok(std::to_string(k)); tok(")"); tok(";");
                tok("again"); tok("("); tok(std::to_string(k)); tok(")"); tok(";");
                tok(n); tok("+="); tok("probe"); tok("("); tok(std::to_string(k)); tok(")");
                end(k);
                block();
                break;
            }
        }
    }
    void func(const std::string &name) {
        tok("func", true); put(" "); tok(name); tok("("); tok("p"); tok(":"); tok("int"); tok(")"); tok(":"); tok("int");
        inFunc = true;
        tok("{");
        depth = 1;
        int n = (int)g.below(5);
        for (int i = 0; i < n; ++i) stmt();
        int k = open();
        begin(k, "return");
        put(" ");
        expr(k, 1);
        end(k);
        tok("}");
        depth = 0;
        inFunc = false;
    }
};
struct Probes {
    std::vector<Place> leaf;
    uint64_t asked = 0, nested = 0;
    std::map<int, int> rounds;
};
Probes *gP;
void here(Tiny_StateThread *t, int64_t k) {
    auto q = ask(t);
    ++gP->asked;
    const Place &w = gP->leaf[k];
    if (!in(w, q.first, q.second) && Thread::of(t).error.empty())
        Thread::of(t).error = strf("inside statement %lld, %s:%d is reported instead of %s", (long long)k, q.first.c_str(), q.second, shown(w).c_str());
}
Tiny_Value fProbe(Tiny_StateThread *t, const Tiny_Value *a, int) { int64_t k = Tiny_ToInt(a[0]); here(t, k); return Tiny_NewInt(1); }
// what a script asked itself
Tiny_Value fScripted(Tiny_StateThread *t, const Tiny_Value *a, int) {
    const Place &w = gP->leaf[Tiny_ToInt(a[0])];
    ++gP->asked;
    if (Thread::of(t).error.empty() && (a[1].type != TINY_VAL_INT || !in(w, w.file, (int)a[1].i)))
        Thread::of(t).error = strf("inside statement %lld, get_executing_line() gives %lld instead of %s", (long long)a[0].i, (long long)a[1].i, shown(w).c_str());
    return Tiny_NewInt(1);
}
Tiny_Value fAsk(Tiny_StateThread *t, const Tiny_Value *a, int) { int64_t k = Tiny_ToInt(a[0]); here(t, k); return Tiny_NewBool((++gP->rounds[(int)k] & 1) != 0); }
Tiny_Value fAgain(Tiny_StateThread *t, const Tiny_Value *a, int) {
    int64_t k = Tiny_ToInt(a[0]);
    here(t, k);
    if (gP->asked > 3000) return Tiny_NewBool(false);
    return Tiny_NewBool(++gP->rounds[(int)k] % 3 != 0);
}
Tiny_Value fTwice(Tiny_StateThread *t, const Tiny_Value *a, int) {
    int64_t k = Tiny_ToInt(a[1]);
    here(t, k);
    if (gP->asked > 3000) return Tiny_Null;
    int f = Tiny_GetFunctionIndex(t->state, Tiny_ToString(a[0]));
    ++gP->nested;
    Tiny_Value v[1] = {Tiny_NewInt(3)};
    for (int i = 0; i < 2; ++i) { Tiny_CallFunction(t, f, v, 1); here(t, k); }
    return Tiny_Null;
}
void effects(Gen &g, Case &c) {
    Probes pr;
    gP = &pr;
    std::vector<std::string> funcs;
    std::map<std::string, int> counter;
    Host h;
    Tiny_BindFunction(h.state, "probe(int): int", fProbe);
    Tiny_BindFunction(h.state, "scripted(int, any): int", fScripted);
    Tiny_BindFunction(h.state, "ask(int, int): bool", fAsk);
    Tiny_BindFunction(h.state, "again(int): bool", fAgain);
    Tiny_BindFunction(h.state, "twice(str, int): void", fTwice);
    int units = (int)g.range(1, 5);
    static const char *names[] = {"prog", "lib.tiny", "x", "prog2"};
    std::map<std::string, int> lines;
    Tiny_BindFunction(h.state, "len(str): int", [](Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_NewInt(1); });
    for (int u = 0; u < units; ++u) {
        const char *nm = g.chance(1, 8) ? nullptr : names[g.below(4)];
        std::string file = nm ? nm : "(none)";
        if (g.chance(1, 4)) {  // a failing compile in between leaves nothing behind
            static const char *bad[] = {"emit(1)\n\nemit(2)\nbreak\n", "x := 1\n\ny := \"a\" + 1\n", "func q() { emit(1)\n\n", "\n\n\nemit(\"s", "use array(\"Nope\")\n"};
            Tiny_CompileResult r = h.compile(bad[g.below(5)], names[g.below(4)]);
            PBT_CHECK(r.type != TINY_COMPILE_SUCCESS, "a faulty piece compiles");
        }
        W w{g, "", 1, file, pr.leaf, funcs, counter};
        w.budget = (int)g.range(4, 25);
        std::map<std::string, int> mine;
        size_t c0 = counter.size();
        (void)c0;
        int items = (int)g.range(1, 6);
        std::map<std::string, int> before = counter;
        for (int i = 0; i < items; ++i) {
            if (g.chance(1, 3)) {
                std::string f = strf("f%d_%d", u, i);
                w.func(f);
                funcs.push_back(f);
            } else w.stmt();
        }
        // the counters are declared in a piece of their own
        std::string decl;
        for (auto &q : counter) if (!before.count(q.first) && q.first[0] == 'c') decl += q.first + " := 0 ";
        if (!decl.empty()) { h.mustCompile(decl, "counters"); }
        c.say("// " + decl + "\n// unit " + file + "\n" + w.s + "\n");
        h.mustCompile(w.s, nm);
        lines[file] = std::max(lines[file], w.line);
    }
    lines["counters"] = 1;
    Thread t(h);
    nothing(t.t.get(), "before the start");
    t.start();
    std::vector<std::pair<int, int>> globs;  // index, leaf
    std::vector<Tiny_Value> old;
    for (auto &q : counter) {
        int i = Tiny_GetGlobalIndex(h.state, q.first.c_str());
        PBT_CHECK(i >= 0, "no global %s", q.first.c_str());
        globs.push_back({i, q.second});
        old.push_back(Tiny_GetGlobal(t.t.get(), i));
    }
    uint64_t steps = 0, changes = 0, emits = 0;
    bool more = true;
    while (more) {
        std::pair<std::string, int> q{"", 0};
        bool look = ++steps < 6000;
        if (look && t.t->pc >= 0) {
            q = ask(t.t.get());
            auto it = lines.find(q.first);
            PBT_CHECK(it != lines.end() && q.second >= 1 && q.second <= it->second, "between two cycles %s:%d is reported, which does not exist", q.first.c_str(), q.second);
        }
        size_t tr = t.trace.size();
        uint64_t nested = pr.nested;
        more = t.step();
        if (!t.error.empty()) fail(t.error);
        if (!look) { if (steps > 200000) break; continue; }
        size_t changed = 0, which = 0;
        for (size_t i = 0; i < globs.size(); ++i) {
            Tiny_Value v = Tiny_GetGlobal(t.t.get(), globs[i].first);
            if (v.type != old[i].type || (v.type == TINY_VAL_INT && v.i != old[i].i)) { ++changed; which = i; old[i] = v; }
        }
        if (nested != pr.nested) continue;
        if (changed == 1) {
            ++changes;
            const Place &w = pr.leaf[globs[which].second];
            bool decl = q.first == "counters" && old[which].i == 0;
            PBT_CHECK(decl || in(w, q.first, q.second), "while statement %d, at %s, assigns its variable, %s:%d is reported", globs[which].second, shown(w).c_str(), q.first.c_str(), q.second);
        }
        if (changed == 0 && t.trace.size() == tr + 1 && t.trace.back().compare(0, 5, "emit ") == 0) {
            ++emits;
            int k = atoi(t.trace.back().c_str() + 5);
            const Place &w = pr.leaf[k];
            PBT_CHECK(in(w, q.first, q.second), "while statement %d, at %s, calls emit, %s:%d is reported", k, shown(w).c_str(), q.first.c_str(), q.second);
        }
    }
    nothing(t.t.get(), "after the end");
    // a function called by the host on a thread which is at its end or was never started
    if (!funcs.empty()) {
        Tiny_Value v[1] = {Tiny_NewInt(1)};
        t.t->pc = -1;
        Tiny_CallFunction(t.t.get(), Tiny_GetFunctionIndex(h.state, g.pick(funcs).c_str()), v, 1);
        if (!t.error.empty()) fail(t.error);
        nothing(t.t.get(), "after a call by the host");
        Thread t2(h);
        Tiny_CallFunction(t2.t.get(), Tiny_GetFunctionIndex(h.state, g.pick(funcs).c_str()), v, 1);
        if (!t2.error.empty()) fail(t2.error);
        nothing(t2.t.get(), "after a call on a thread which was not started");
        t2.destroy();
    }
    t.destroy();
    c.nontrivial = pr.asked >= 4 && changes + emits >= 2;
    c.labelIf(units > 1, "several units");
    c.labelIf(pr.asked > 50, "asked more than 50 times");
}
// Nothing compiled, or nothing to run.
void unknown(Gen &g, Case &c) {
    Host h(g.coin());
    static const char *empty[] = {"", " ", "\n\n// nothing\n", "struct S { x: int }\n", "K :: 3\n"};
    int n = (int)g.below(3);
    std::string all;
    for (int i = 0; i < n; ++i) { const char *s = empty[g.below(i == 0 ? 5 : 3)]; all += strf("// unit\n%s", s); h.mustCompile(s, g.coin() ? "e" : nullptr); }
    c.say(all + "\n");
    Thread t(h);
    nothing(t.t.get(), "before the start");
    if (n) {
        t.start();
        while (t.step()) ;
        nothing(t.t.get(), "after the end");
    }
    t.destroy();
    c.nontrivial = true;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C21";
    p.title = "The reported executing file and line are those of the running statement";
    p.assumptions = {"a statement written over several lines may be reported at any of its own lines; conditions and headers belong to the line of their statement"};
    p.families.push_back({"generated", "the line was asked for at least three times", generated, 6000, 800000});
    p.families.push_back({"effects", "the line was asked for at least four times inside calls and twice between cycles", effects, 6000, 800000});
    p.families.push_back({"unknown", "every case", unknown, 1500, 40000});
    return run(argc, argv, p);
}
