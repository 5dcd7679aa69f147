#include <algorithm>
#include <functional>
#include "fuzztext.h"
#include "mistakes.h"
using namespace pbt;
using namespace lang;

namespace {
enum Mode { Replace, Insert, Scope };

int lineAt(const std::string &s, size_t pos) {
    int n = 1;
    for (size_t i = 0; i < pos && i < s.size(); ++i) n += s[i] == '\n';
    return n;
}

// A message about a name says it: the whole name stands in the message itself, not only in the lines shown around it.
bool says(const char *msg, const std::string &name) {
    const char *e = strstr(msg, "ERROR ");
    std::string m = e ? e : msg;
    auto in = [](char ch) { return isalnum((unsigned char)ch) || ch == '_'; };
    for (size_t i = m.find(name); i != std::string::npos; i = m.find(name, i + 1))
        if ((i == 0 || !in(m[i - 1])) && (i + name.size() >= m.size() || !in(m[i + name.size()]))) return true;
    return false;
}
void planted(Gen &g, Case &c, Mode mode) {
    Program p;
    Cfg cfg;
    cfg.items = 7; cfg.mainBudget = 130; cfg.funcBudget = 50;
    if (mode == Scope) cfg.shadow = false;
    generate(g, cfg, p);
    Planter pl(g, p);
    Mistake m = mode == Replace ? pl.replace() : mode == Insert ? pl.insert() : pl.scope();
    Layout l;
    if (g.chance(1, 4)) l.g = &g;
    Printed t = print(p, l);
    c.say(t.text + "\n// mistake: " + m.kind + strf(", lines %d to %d\n", m.at->line, m.at->endLine));
    c.label(mode == Insert ? "inserted" : m.kind);
    c.labelIf(l.g, "free layout");
    c.nontrivial = true;
    Host h;
    Tiny_CompileResult r = h.compile(t.text, "the/unit.tiny");
    PBT_CHECK(r.type == TINY_COMPILE_ERROR, "a program with a mistake is accepted: %s", m.kind.c_str());
    int line = lineAt(t.text, r.error.pos);
    PBT_CHECK(!m.line || (line >= m.at->line && line <= m.at->endLine), "the mistake (%s) is on lines %d to %d but reported on line %d: %s", m.kind.c_str(), m.at->line, m.at->endLine, line, r.error.msg);
    std::string where = strf("the/unit.tiny(%d)", line);
    PBT_CHECK(strstr(r.error.msg, where.c_str()), "the message does not say %s: %s", where.c_str(), r.error.msg);
    PBT_CHECK(m.says.empty() || says(r.error.msg, m.says), "the message (%s) does not name %s: %s", m.kind.c_str(), m.says.c_str(), r.error.msg);
    h.stateCtx.check("state context");
}
// A bracket too many or too few, a keyword in the place of a name, an operator without an operand.
void syntax(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 6; cfg.mainBudget = 100; cfg.funcBudget = 40;
    generate(g, cfg, p);
    Layout l;
    if (g.chance(1, 4)) l.g = &g;
    std::vector<std::string> t = roughTokens(print(p, l).text);
    std::vector<size_t> br, id, bin;
    static const std::string brs = "(){}[]";
    static const std::vector<std::string> ops = {"*", "/", "%", "+", "&", "|", "<", ">", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", ":=", "="};
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i].size() == 1 && brs.find(t[i][0]) != std::string::npos) br.push_back(i);
        else if (isalpha((unsigned char)t[i][0])) id.push_back(i);
        else if (std::find(ops.begin(), ops.end(), t[i]) != ops.end()) bin.push_back(i);
    }
    std::string kind;
    switch (g.below(5)) {
        case 4: {
            // something which is no name where only a name can stand, even if it reads the same
            std::vector<size_t> at;
            for (size_t i = 0; i < t.size(); ++i) {
                if (!isalpha((unsigned char)t[i][0]) && t[i][0] != '_') continue;
                size_t b = i;
                while (b > 0 && (isspace((unsigned char)t[b - 1][0]) || t[b - 1].compare(0, 2, "//") == 0)) --b;
                if (b == 0) continue;
                const std::string &p = t[b - 1];
                if (p == "new" || p == "struct" || p == "func" || p == "." || p == "use" || p == ":" || p == "->") at.push_back(i);
            }
            if (at.empty()) throw Discard{};
            size_t i = g.pick(at);
            std::vector<std::string> with = {"\"" + t[i] + "\"", "'" + t[i].substr(0, 1) + "'", "7", "0.5", "if", "func", "null", "true", "(" + t[i] + ")", "\"\""};
            const std::string &w = with[g.coin() ? 0 : g.below(with.size())];
            kind = "name " + t[i] + " replaced by " + w;
            t[i] = w;
            break;
        }
        case 0: { size_t i = g.pick(br); kind = "without bracket " + t[i]; t[i] = " "; break; }
        case 1: { std::string b(1, brs[g.below(6)]); kind = "with an additional " + b; t.insert(t.begin() + g.pick(br) + g.below(2), " " + b + " "); break; }
        case 2: {
            if (bin.empty()) throw Discard{};
            static const char *two[] = {"* *", "/ *", "+ *", "== ==", "&& ||", "< %", ", +", "+ )", "( +", ". 3", ":= :=", "= ="};
            const char *w = two[g.below(12)];
            size_t i = g.pick(bin);
            kind = "operator " + t[i] + " replaced by " + w;
            t[i] = std::string(" ") + w + " ";
            break;
        }
        default: {
            std::vector<size_t> decl;
            for (size_t i = 0; i + 2 < t.size(); ++i) if (isalpha((unsigned char)t[i][0]) && (t[i + 1] == ":=" || t[i + 2] == ":=")) decl.push_back(i);
            if (decl.empty()) throw Discard{};
            static const char *kw[] = {"if", "func", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use", "null", "true", "false", "5", "2.5", "\"s\"", "'c'", "int int"};
            const char *w = kw[g.below(20)];
            size_t i = g.pick(decl);
            kind = "name " + t[i] + " replaced by " + w;
            t[i] = w;
            break;
        }
    }
    std::string text;
    for (auto &x : t) text += x;
    c.say(text + "\n// mistake: " + kind + "\n");
    c.label(kind.substr(0, kind.find(' ')));
    c.nontrivial = true;
    Host h;
    Tiny_CompileResult r = h.compile(text, "the/unit.tiny");
    PBT_CHECK(r.type == TINY_COMPILE_ERROR, "a malformed program is accepted: %s", kind.c_str());
    PBT_CHECK(strstr(r.error.msg, strf("the/unit.tiny(%d)", lineAt(text, r.error.pos)).c_str()), "the message and the position disagree: %s", r.error.msg);
    h.stateCtx.check("state context");
}
// A chain of operators which has no type as grouped, but would have one if grouped in another way.
void grouped(Gen &g, Case &c) {
    enum Ty { I, F, B, S, Bad };
    static const char *ops[] = {"*", "/", "%", "&", "|", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"};
    static const int level[] = {5, 5, 5, 5, 5, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 2, 2};
    auto join = [](int o, int a, int b) -> int {
        if (a == Bad || b == Bad) return Bad;
        bool n = (a == I || a == F) && (b == I || b == F), i = a == I && b == I;
        if (o == 13 || o == 14) return B;
        if (o >= 15) return a == B && b == B ? B : Bad;
        if (o >= 9) return n ? B : Bad;
        if (o == 2 || o == 3 || o == 4 || o == 7 || o == 8) return i ? I : Bad;
        return n ? i ? I : F : Bad;
    };
    std::vector<int> tys, os;
    std::string other;
    for (int tries = 0;; ++tries) {
        if (tries == 200) throw Discard{};
        tys.clear();
        os.clear();
        int n = (int)g.range(2, 5);
        // operators of few levels at a time
        int a = (int)g.below(17), b = (int)g.below(17);
        for (int i = 0; i <= n; ++i) { tys.push_back((int)g.weighted({5, 2, 4, 1})); if (i) os.push_back(g.coin() ? g.coin() ? a : b : (int)g.below(17)); }
        std::vector<int> lv(level, level + 17);
        bool rightAssoc = false;
        std::function<int(size_t &, int)> climb = [&](size_t &at, int min) -> int {
            int l = tys[at];
            while (at < os.size() && lv[os[at]] >= min) {
                int o = os[at];
                ++at;
                int r = climb(at, lv[o] + (rightAssoc ? 0 : 1));
                l = join(o, l, r);
            }
            return l;
        };
        size_t at = 0;
        if (climb(at, 0) != Bad) continue;
        // the same levels in another order, or one operator moved to another level, or grouping from the right
        bool found = false;
        for (int alt = 0; alt < 12 && !found; ++alt) {
            lv.assign(level, level + 17);
            rightAssoc = false;
            switch (g.below(4)) {
                case 0: { int k = (int)g.range(2, 5), m = (int)g.range(2, 5); for (auto &x : lv) x = x == k ? m : x == m ? k : x; other = "two levels exchanged"; break; }
                case 1: lv[os[g.below(os.size())]] = (int)g.range(1, 6); other = "one operator at another level"; break;
                case 2: { int k = os[g.below(os.size())]; for (int i = 0; i < 17; ++i) if (i / 2 == k / 2) lv[i] = (int)g.range(1, 6); other = "a few operators at another level"; break; }
                default: rightAssoc = true; other = "from the right";
            }
            at = 0;
            found = climb(at, 0) != Bad;
        }
        if (found) break;
        if (tries > 60 && g.chance(1, 60)) { other = "none"; break; }
    }
    static const char *lits[4][3] = {{"3", "ki", "gi"}, {"1.5", "kf", "gf"}, {"true", "kb", "gb"}, {"\"s\"", "ks", "gs"}};
    std::string ex;
    for (size_t i = 0; i < tys.size(); ++i) { if (i) ex += strf(" %s ", ops[os[i - 1]]); ex += lits[tys[i]][g.below(3)]; }
    std::string head = "ki :: 1\nkf :: 0.5\nkb :: true\nks :: \"k\"\ngi := 2\ngf := 2.5\ngb := false\ngs := \"g\"\n", text;
    switch (g.below(5)) {
        case 0: text = "emit(" + ex + ")\n"; break;
        case 1: text = "r := " + ex + "\n"; break;
        case 2: text = "func f(): any {\n  return " + ex + "\n}\n"; break;
        case 3: text = "r: any = null\nr = " + ex + "\n"; break;
        default: text = "emit((" + ex + ") == 1)\n"; break;
    }
    c.say(head + text);
    c.label("otherwise typed: " + other);
    c.nontrivial = other != "none";
    Host h;
    Tiny_CompileResult r = h.compile(head + text, "the/unit.tiny");
    PBT_CHECK(r.type == TINY_COMPILE_ERROR, "%s is accepted", ex.c_str());
    int line = lineAt(head + text, r.error.pos), first = 9, last = 9 + (int)std::count(text.begin(), text.end() - 1, '\n');
    PBT_CHECK(line >= first && line <= last, "the mistake is on lines %d to %d but reported on line %d: %s", first, last, line, r.error.msg);
    PBT_CHECK(strstr(r.error.msg, strf("the/unit.tiny(%d)", line).c_str()), "the message and the position disagree: %s", r.error.msg);
    h.stateCtx.check("state context");
}
// A value of one type given to a place of another, and calls with too few or too many arguments, over random signatures.
void matrix(Gen &g, Case &c) {
    Host h;
    // names of types which share a long beginning
    std::string stem = g.chance(1, 3) ? std::string(1 + g.below(70), 's') : std::string();
    bool huge = g.chance(1, 12);  // a message may not have room for these
    if (huge) stem = std::string((size_t)g.range(230, 700), 's');
    std::string A = stem + "Sa", B = stem + "Sb", Q = stem + "Qa", R = stem + "Qb";
    std::vector<std::string> ty = {"int", "float", "bool", "str", "any", A, B, Q, R, "IA", "FA", "dict", "int?", "str?", "float?", A + "?", B + "?", Q + "?", R + "?", "IA?", "dict?"};
    const int nt = (int)ty.size(), Any = 4, Void = nt;
    auto may = [&](int src, int dst) { return src != Void && (dst == Any || (src != Any && (src == dst || ty[src] + "?" == ty[dst]))); };
    std::string prog = "use array(\"int\") as IA\nuse array(\"float\") as FA\nstruct " + A + " { a: int b: int }\nstruct " + B + " { a: int b: int }\n";
    Tiny_RegisterType(h.state, Q.c_str());
    Tiny_RegisterType(h.state, R.c_str());
    auto none = [](Tiny_StateThread *, const Tiny_Value *, int) { return Tiny_Null; };
    Tiny_BindFunction(h.state, ("mkq(): " + Q).c_str(), none);
    Tiny_BindFunction(h.state, ("mkr(): " + R).c_str(), none);
    Tiny_BindFunction(h.state, "nothing(): void", none);
    // an expression of each type
    std::vector<std::vector<std::string>> ex = {{"3", "gi", "'c'", "KI"}, {"1.5", "gf", "KF"}, {"true", "gb", "(1 < 2)"}, {"\"s\"", "gs", "KS"}, {"null", "ga", "cast(1, any)"}, {"g" + A, "new " + A + "{1, 2}"}, {"g" + B, "new " + B + "{.b = 1, .a = 2}"},
                                                {"g" + Q, "mkq()"}, {"g" + R, "mkr()"}, {"IA()", "gia"}, {"FA()", "gfa"}, {"dict()", "gd"}};
    for (int i = 12; i < nt; ++i) ex.push_back({"cast(null, " + ty[i] + ")", strf("gn%d", i)});
    ex.push_back({"nothing()"});
    prog += "gi := 1\ngf := 1.5\ngb := true\ngs := \"t\"\nga: any = 1\ng" + A + " := new " + A + "{1, 2}\ng" + B + " := new " + B + "{1, 2}\ng" + Q + " := mkq()\ng" + R + " := mkr()\ngia := IA()\ngfa := FA()\ngd := dict()\n";
    for (int i = 12; i < nt; ++i) prog += strf("gn%d: ", i) + ty[i] + " = cast(null, " + ty[i] + ")\n";
    auto val = [&](int t) { return ex[t][g.below(ex[t].size())]; };
    auto good = [&](int dst) { std::vector<int> o; for (int i = 0; i < nt; ++i) if (may(i, dst)) o.push_back(i); return g.coin() ? dst : o[g.below(o.size())]; };
    int src, dst;
    for (int tries = 0;; ++tries) {
        dst = (int)g.below(nt);
        src = (int)g.below(nt + 1);
        // the near ones more often
        if (g.coin()) {
            static const int near[][2] = {{0, 1}, {1, 0}, {5, 6}, {6, 5}, {7, 8}, {8, 7}, {9, 10}, {10, 9}, {12, 0}, {15, 5}, {16, 5}, {15, 6}, {15, 16}, {16, 15}, {17, 18}, {18, 17}, {5, 16}, {6, 15}, {7, 18}, {8, 17}, {0, 14}, {1, 12}, {4, 0}, {4, 5}, {4, 12}, {4, 15}, {12, 14}, {17, 7}, {19, 9}, {20, 11}, {12, 13}, {11, 9}};
            auto &q = near[g.below(sizeof near / sizeof *near)];
            src = q[0];
            dst = q[1];
        }
        if (!may(src, dst)) break;
        if (tries > 100) throw Discard{};
    }
    std::string what = (src == Void ? "void" : ty[src]) + " given to " + ty[dst];
    std::string kind, pre, bad, fine, name;
    int bodyLine = 0;
    // a signature of n parameters where parameter at has type dst
    auto types = [&](int n, int at) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(i == at ? dst : (int)g.below(nt)); return r; };
    auto args = [&](const std::vector<int> &ps, int at) { std::vector<std::string> r; for (size_t i = 0; i < ps.size(); ++i) r.push_back(val((int)i == at ? src : good(ps[i]))); return r; };
    auto call = [&](const std::string &f, const std::vector<std::string> &a) {
        bool arrow = !a.empty() && g.chance(1, 4) && (isalpha((unsigned char)a[0][0]));
        std::string r = arrow ? a[0] + "->" + f + "(" : f + "(";
        for (size_t i = arrow; i < a.size(); ++i) r += (i > (size_t)arrow ? ", " : "") + a[i];
        return r + ")";
    };
    auto used = [&](const std::string &e, bool isVoid) { return isVoid ? e : g.coin() ? "emit(" + e + ")" : "zr := " + e; };
    switch (g.below(12)) {
        case 9: {
            kind = "cast";
            // only from any or to any
            if (src == Any || dst == Any || src == Void) throw Discard{};
            bad = used("cast(" + val(src) + ", " + ty[dst] + ")", false);
            fine = used(g.coin() ? "cast(cast(" + val(src) + ", any), " + ty[dst] + ")" : "cast(" + val(dst) + ", any)", false);
            break;
        }
        case 10: {
            kind = "if expression";
            if (src == dst) throw Discard{};
            bool other = g.coin();
            auto tern = [&](const std::string &a, const std::string &b) { return (g.chance(1, 4) ? "if (gi == 1) " : "if (gb) ") + (g.coin() ? "(" + a + ")" : a) + " else " + (g.coin() ? "(" + b + ")" : b); };
            bad = used(other ? tern(val(dst), val(src)) : tern(val(src), val(dst)), false);
            fine = used(tern(val(dst), val(dst)), false);
            what = (src == Void ? "void" : ty[src]) + " beside " + ty[dst];
            break;
        }
        case 11: {
            kind = "condition";
            dst = 2;
            if (src == 2) throw Discard{};
            what = (src == Void ? "void" : ty[src]) + " for a bool";
            static const char *cs[] = {"if @ { gi += 1 }", "while @ gi += 1", "for gi = 0; @; gi += 1 { }", "emit(if @ 1 else 2)", "emit(!(@))", "emit(gb && (@))", "emit((@) || gb)", "if !gb { } else if @ { }", "if gb || (1 < 2 && (@)) gi = 2"};
            std::string f = cs[g.below(9)];
            auto put = [&](const std::string &v) { std::string q = f; return q.replace(q.find('@'), 1, v); };
            bad = put(val(src));
            fine = put(val(2));
            break;
        }
        case 0: case 1: case 2: {
            // calls: 0 of a script function, 1 of a foreign one, 2 of a foreign one with fixed parameters before the others
            int how = (int)g.below(3), n = (int)(g.chance(1, 6) ? g.range(7, 30) : g.range(1, 6)), at = (int)g.below(n);
            std::vector<int> ps = types(n, at);
            bool isVoid = g.coin();
            if (how == 0) {
                pre = "func callee(";
                for (int i = 0; i < n; ++i) pre += strf("%sp%d: ", i ? ", " : "", i) + ty[ps[i]];
                pre += isVoid ? "): void { }\n" : "): int { return 1 }\n";
            } else {
                std::string sig = "callee(";
                for (int i = 0; i < n; ++i) sig += (i ? ", " : "") + ty[ps[i]];
                sig += how == 2 ? ", ...)" : ")";
                sig += isVoid ? ": void" : ": int";
                Tiny_BindFunction(h.state, sig.c_str(), none);
                pre = "// " + sig + "\n";
            }
            int wrongness = (int)g.below(4);
            std::vector<std::string> a = args(ps, -1), b = a;
            if (wrongness == 0) { b.pop_back(); if (g.coin()) while (!b.empty() && g.coin()) b.pop_back(); what = "too few arguments"; name = "callee"; }
            else if (wrongness == 1 && how != 2) { do b.push_back(val((int)g.below(nt))); while (g.chance(1, 4)); what = "too many arguments"; name = "callee"; }
            else b[at] = val(src);
            if (how == 2) for (int k = (int)g.below(3); k > 0 && b.size() >= a.size(); --k) b.push_back(val((int)g.below(nt)));
            static const char *nm[] = {"script call", "foreign call", "variadic call"};
            kind = nm[how];
            bad = used(call("callee", b), isVoid);
            fine = used(call("callee", a), isVoid);
            break;
        }
        case 3: kind = "declaration"; bad = "zr: " + ty[dst] + " = " + val(src); fine = "zr: " + ty[dst] + " = " + val(good(dst)); break;
        case 4: kind = "assignment"; pre = "zr: " + ty[dst] + " = " + val(good(dst)) + "\n"; bad = "zr = " + val(src); fine = "zr = " + val(good(dst)); break;
        case 5: kind = "return"; bad = "func callee(): " + ty[dst] + " { return " + val(src) + " }"; fine = "func callee(): " + ty[dst] + " { return " + val(good(dst)) + " }"; break;
        case 6: {
            int n = (int)(g.chance(1, 5) ? g.range(7, 40) : g.range(1, 6)), at = (int)g.below(n);
            std::vector<int> ps = types(n, at);
            pre = "struct Zs {";
            for (int i = 0; i < n; ++i) pre += strf(" f%d: ", i) + ty[ps[i]];
            pre += " }\n";
            std::vector<size_t> order;
            for (int i = 0; i < n; ++i) order.push_back(i);
            bool named = g.coin();
            if (named) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
            auto make = [&](const std::vector<std::string> &a) { std::string r = "zs := new Zs{"; for (size_t i = 0; i < order.size(); ++i) r += (i ? ", " : "") + (named ? strf(".f%zu = ", order[i]) : std::string()) + a[order[i]]; return r + "}"; };
            fine = make(args(ps, -1));
            if (g.coin()) { kind = "field of a construction"; bad = make(args(ps, at)); }
            else { kind = "field assignment"; pre += fine + "\n"; bad = strf("zs.f%d = ", at) + val(src); fine = strf("zs.f%d = ", at) + val(good(dst)); }
            break;
        }
        default: {
            // what [] calls: the place of type dst is the index of the one or the index or value of the other
            kind = "index";
            int place = (int)g.below(3), gi = place == 0 ? dst : Any, si = place == 1 ? dst : Any, sv = place == 2 ? dst : (int)g.below(nt);
            bool numeric = sv == 0 || sv == 1;
            bool compound = place == 1 && numeric && g.coin();
            int gr = compound ? sv : Any;
            // a read which the getter's type allows and a write which only the setter's types forbid
            bool fg = g.coin(), fs = g.coin();
            int arity = (int)g.below(10);  // sometimes the mistake is in the number of parameters
            std::string get = "Zs_get_index", set = "Zs_set_index";
            int gn = 2, sn = 3;
            if (arity == 0) { if (place == 0) gn = g.coin() ? 1 : 3; else sn = g.coin() ? 2 : 4; what = "an index function with another number of parameters"; }
            if (arity == 1) { if (place == 0) gn = 0; else sn = 0; what = "no index function"; }
            pre = "struct Zs { v: int }\n";
            auto def = [&](const std::string &f, bool foreign, int n, const std::string &i, const std::string &v, const std::string &ret, const std::string &body) -> std::string {
                if (n == 0) return "";
                std::vector<std::string> t = {"Zs", i, v, "int"};
                std::string r;
                for (int k = 0; k < n; ++k) r += (k ? ", " : "") + (foreign ? std::string() : strf("q%d: ", k)) + t[k];
                if (!foreign) return "func " + f + "(" + r + "): " + ret + " {" + body + "}\n";
                std::string sig = f + "(" + r + "): " + ret;
                Tiny_BindFunction(h.state, sig.c_str(), none);
                return "// " + sig + "\n";
            };
            pre += def(get, fg, gn, ty[gi], "int", ty[gr], " return " + ex[gr][0] + " ");
            pre += def(set, fs, sn, ty[si], ty[sv], "void", "");
            pre += "zs := new Zs{1}\n";
            std::string gIdx = val(arity < 2 ? good(gi) : place == 0 ? src : good(gi));
            if (place == 0) { bad = used("zs[" + gIdx + "]", false); if (arity >= 2) fine = used("zs[" + val(good(gi)) + "]", false); break; }
            std::string idx = val(arity >= 2 && place == 1 ? src == Void ? 3 : src : good(si)), v = val(arity >= 2 && place == 2 ? src : compound ? sv : good(sv));
            if (place == 1 && arity >= 2 && src == Void) { what = ty[3] + " given to " + ty[dst]; if (may(3, dst)) throw Discard{}; }
            if (place == 2 && arity >= 2 && src == Void) throw Discard{};
            std::string op = compound ? g.coin() ? "] += " : "] -= " : "] = ";
            bad = "zs[" + idx + op + v;
            if (arity >= 2) fine = "zs[" + val(good(si)) + op + val(compound ? sv : good(sv));
            break;
        }
    }
    int style = (int)g.below(3);
    bool isFunc = bad.compare(0, 5, "func ") == 0;
    auto whole = [&](const std::string &st) {
        std::string r = prog + pre;
        if (isFunc || style == 0) return r + st + "\n";
        if (style == 1) return r + "func part(): void {\n  " + st + "\n}\n";
        return r + "if (gb) {\n  " + st + "\n}\n";
    };
    std::string text = whole(bad);
    bodyLine = (int)std::count(text.begin(), text.begin() + text.rfind(bad), '\n') + 1;
    c.say(text + "// mistake: " + kind + ", " + what + "\n");
    c.label(kind);
    c.labelIf(!stem.empty(), "long names");
    c.nontrivial = true;
    Tiny_CompileResult r = h.compile(text, "the/unit.tiny");
    PBT_CHECK(r.type == TINY_COMPILE_ERROR, "accepted: %s (%s, %s)", bad.c_str(), kind.c_str(), what.c_str());
    int line = lineAt(text, r.error.pos);
    PBT_CHECK(line == bodyLine, "the mistake (%s, %s) is on line %d but reported on line %d: %s", kind.c_str(), what.c_str(), bodyLine, line, r.error.msg);
    PBT_CHECK(huge || strstr(r.error.msg, strf("the/unit.tiny(%d)", line).c_str()), "the message and the position disagree: %s", r.error.msg);
    PBT_CHECK(huge || name.empty() || says(r.error.msg, name), "the message (%s, %s) does not name %s: %s", kind.c_str(), what.c_str(), name.c_str(), r.error.msg);
    // without the mistake the same text is fine
    if (!fine.empty()) {
        r = h.compile(whole(fine), "the/unit.tiny");
        PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "rejected although right: %s: %s", fine.c_str(), r.error.msg);
    }
    h.stateCtx.check("state context");
}
// A name given twice where names must differ, among many, and declarations in the bodies of statements without braces.
void twice(Gen &g, Case &c) {
    std::string stem = g.chance(1, 3) ? std::string((size_t)g.range(1, 80), 'z') : std::string();
    int n = (int)(g.chance(1, 4) ? g.range(9, 60) : g.range(1, 8));
    std::vector<std::string> nm;
    for (int i = 0; i < n; ++i) nm.push_back(stem + "n" + std::to_string(g.coin() ? i : i * 11 + 100));
    // names repeat only where the mistake is
    std::sort(nm.begin(), nm.end());
    nm.erase(std::unique(nm.begin(), nm.end()), nm.end());
    n = (int)nm.size();
    for (int i = n; i > 1; --i) std::swap(nm[i - 1], nm[g.below(i)]);
    int a = (int)g.below(n), at = (int)g.range(a + 1, n);  // name a comes again as number `at`
    std::vector<std::string> all = nm;
    all.insert(all.begin() + at, nm[a]);
    static const char *ts[] = {"int", "float", "str", "any", "bool"};
    static const char *vs[] = {"1", "1.5", "\"s\"", "cast(1, any)", "true"};
    auto t = [&] { return g.below(5); };
    std::string text, kind;
    int first = 0, last = 0;   // lines of the mistake
    auto lines = [&] { return (int)std::count(text.begin(), text.end(), '\n') + 1; };
    auto item = [&](int i, const std::string &s) { text += "  "; if (i == at) first = last = lines(); text += s + "\n"; };
    switch (g.below(9)) {
        case 7: {
            // a name which is a type already
            kind = "struct named as another type";
            static const char *b[] = {"void", "bool", "int", "float", "str", "any", "Nat", "dict", "array"};
            size_t k = g.below(9);
            std::string tn = b[k];
            if (k == 8) { text += "func zf(a: int): str { return \"x\" }\nuse delegate(\"zf\") as zfd\n"; tn = "delegate_int_str"; }
            for (int i = 0; i <= n; ++i) if (i == at || i < at) item(i, "struct " + (i == at ? tn : "Zs" + std::to_string(i)) + " {" + (g.coin() ? " a: int" : " a: int b: str c: any") + " }");
            nm[a] = tn;
            if (k == 8) { first = 2; nm[a] = "delegate"; }  // the names are taken in this order or in the other
            break;
        }
        case 0:
            kind = "field";
            text = "struct Zs {\n";
            for (int i = 0; i <= n; ++i) item(i, all[i] + ": " + ts[t()]);
            text += "}\n";
            break;
        case 1:
            kind = "parameter";
            text = "func zf(\n";
            for (int i = 0; i <= n; ++i) item(i, all[i] + ": " + ts[t()] + (i < n ? "," : ""));
            last = lines();
            text += "): void { }\n";
            break;
        case 2:
            kind = "local";
            text = "func zf(): void {\n";
            for (int i = 0; i <= n; ++i) { size_t k = t(); item(i, all[i] + (g.coin() ? std::string(": ") + ts[k] + " = " : std::string(" := ")) + vs[k]); }
            text += "}\n";
            break;
        case 3: case 4: {
            kind = "global or constant";
            for (int i = 0; i <= n; ++i) { size_t k = t(); item(i, all[i] + (k != 3 && g.chance(1, 3) ? std::string(" :: ") : g.coin() ? std::string(": ") + ts[k] + " = " : std::string(" := ")) + vs[k]); }
            break;
        }
        case 5: {
            kind = "named field of a construction";
            text = "struct Zs {\n";
            for (int i = 0; i < n; ++i) text += "  " + nm[i] + ": int\n";
            text += "}\nx := new Zs{\n";
            first = lines() - 1;
            bool more = g.coin();  // in the place of another one, or in addition to all
            int miss = n > 1 ? (a + 1 + (int)g.below(n - 1)) % n : 0;
            bool sep = false;
            for (int i = 0; i <= n; ++i) {
                if (!more && n > 1 && i != at && all[i] == nm[miss]) continue;
                text += std::string(sep ? ",\n" : "") + "  ." + all[i] + " = " + std::to_string(i);
                sep = true;
            }
            text += "\n}\n";
            last = lines();
            break;
        }
        case 6: {
            kind = "struct";
            for (int i = 0; i <= n; ++i) item(i, "struct " + all[i] + " {" + (g.coin() ? " a: int" : " a: int b: str c: any") + " }");
            break;
        }
        default: {
            // the body of a statement is a scope of its own even without braces
            kind = "body without braces";
            static const char *w[] = {"if true %s := 1", "if false { } else %s := 1", "while false %s := 1", "for i := 0; i < 2; i += 1 %s := 1", "if true if true %s := 1", "for %s := 0; false; %s += 1 { }", "if true { } else if true %s := 1", "while false if true %s := 1", "if true while false %s := 1", "{ { } %s := 1 }"};
            std::string use = g.coin() ? "emit(" + nm[a] + ")" : nm[a] + " = 2", st = w[g.below(10)];
            for (size_t p; (p = st.find("%s")) != std::string::npos;) st.replace(p, 2, nm[a]);
            text = "func zf(): void {\n";
            for (int i = 0; i < n; ++i) if (i != a) text += "  " + nm[i] + " := 1\n";
            text += "  " + st + "\n";
            first = last = lines();
            text += "  " + use + "\n}\n";
        }
    }
    std::string name = kind[0] == 'n' ? "" : nm[a];  // where a field is named twice another may be missing, and either be reported
    c.say(text + strf("// mistake on lines %d to %d: %s\n", first, last, kind.c_str()));
    c.label("twice: " + kind);
    c.nontrivial = true;
    Host h;
    Tiny_CompileResult r = h.compile(text, "the/unit.tiny");
    PBT_CHECK(r.type == TINY_COMPILE_ERROR, "accepted: %s", kind.c_str());
    int line = lineAt(text, r.error.pos);
    PBT_CHECK(line >= first && line <= last, "the mistake (%s) is on lines %d to %d but reported on line %d: %s", kind.c_str(), first, last, line, r.error.msg);
    PBT_CHECK(strstr(r.error.msg, strf("the/unit.tiny(%d)", line).c_str()), "the message and the position disagree: %s", r.error.msg);
    PBT_CHECK(name.empty() || says(r.error.msg, name), "the message (%s) does not name %s: %s", kind.c_str(), name.c_str(), r.error.msg);
    h.stateCtx.check("state context");
}
// One break or continue somewhere in nested statements: right within the body of a loop, wrong everywhere else.
void loops(Gen &g, Case &c) {
    std::string text = "gb := false\ngi := 0\n";
    auto lines = [&] { return (int)std::count(text.begin(), text.end(), '\n') + 1; };
    int depth = 0, inLoop = 0, at = 0;
    bool right = false;
    const char *what = g.coin() ? "break" : "continue";
    std::string shape;
    auto filler = [&] {
        static const char *f[] = {"gi += 1\n", "emit(gi)\n", "while gb { break }\n", "while gb { if gb continue }\n", "if gb { emit(1) } else emit(2)\n", "for gi = 0; gi < 2; gi += 1 { continue }\n", "for gi = 0; gi < 2; gi += 1 while gb break\n"};
        text += f[g.below(7)];
    };
    std::function<void(bool)> stmt;
    // a list within braces, one statement of which leads to the jump
    auto block = [&] {
        text += "{\n";
        int n = (int)g.below(3), k = (int)g.below(n + 1);
        for (int i = 0; i <= n; ++i) { if (i == k) stmt(true); else filler(); }
        text += "}\n";
    };
    auto body = [&] { if (g.chance(1, 3)) { shape += '1'; stmt(false); } else block(); };
    stmt = [&](bool any) {
        ++depth;
        switch (depth > 6 ? 0 : g.weighted({3, 3, 2, 3, 3, 2, 1, 1})) {
            case 0: at = lines(); text += std::string(what) + "\n"; right = inLoop > 0; break;
            case 1: shape += 'w'; text += "while gb "; ++inLoop; body(); --inLoop; break;
            case 2: shape += 'f'; text += "for gi = 0; gi < 2; gi += 1 "; ++inLoop; body(); --inLoop; break;
            case 3: shape += 'i'; text += "if gb "; body(); if (any && g.coin()) text += "else { gi += 1 }\n"; break;
            case 4: shape += 'e'; text += g.coin() ? "if gb { emit(1) } else " : "if gb emit(1) else "; body(); break;
            case 5: shape += 'b'; block(); break;
            // what is before and after the body of a for is not in the loop
            case 6: {
                if (inLoop) { --depth; stmt(any); return; }
                shape += 'n';
                text += "for ";
                stmt(false);
                text += "; gb; gi += 1 { emit(3) }\n";
                break;
            }
            default: {
                if (inLoop) { --depth; stmt(any); return; }
                shape += 's';
                text += "for gi = 0; gb; ";
                stmt(false);
                text += " { emit(4) }\n";
                break;
            }
        }
    };
    for (int k = (int)g.below(3); k > 0; --k) filler();
    if (g.chance(1, 3)) { shape += 'F'; text += g.coin() ? "func part() " : "func part(a: int, b: str): void "; body(); }
    else stmt(true);
    for (int k = (int)g.below(3); k > 0; --k) filler();
    c.say(text + strf("// %s on line %d is %s\n", what, at, right ? "right" : "a mistake"));
    c.label(std::string(what) + (right ? " in a loop" : " outside a loop"));
    for (char ch : std::string("F1wfiebns")) if (shape.find(ch) != std::string::npos) c.label(strf("shape %c", ch));
    c.nontrivial = shape.size() > 1;
    Host h;
    Tiny_CompileResult r = h.compile(text, "the/unit.tiny");
    if (right) {
        PBT_CHECK(r.type == TINY_COMPILE_SUCCESS, "rejected although right: %s", r.error.msg);
        h.stateCtx.check("state context");
        return;
    }
    PBT_CHECK(r.type == TINY_COMPILE_ERROR, "a %s outside a loop is accepted", what);
    int line = lineAt(text, r.error.pos);
    PBT_CHECK(line == at, "the %s is on line %d but reported on line %d: %s", what, at, line, r.error.msg);
    h.stateCtx.check("state context");
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C05";
    p.title = "Ill-typed or ill-formed programs are rejected at compile time";
    const char *rule = "every case: the program without the mistake is valid by construction";
    p.families.push_back({"replaced", rule, [](Gen &g, Case &c) { planted(g, c, Replace); }, 12000, 3000000});
    p.families.push_back({"inserted", rule, [](Gen &g, Case &c) { planted(g, c, Insert); }, 10000, 2000000});
    p.families.push_back({"scope", rule, [](Gen &g, Case &c) { planted(g, c, Scope); }, 4000, 800000});
    p.families.push_back({"syntax", rule, syntax, 6000, 1000000});
    p.families.push_back({"grouped", "grouped in another way the chain would have a type", grouped, 4000, 600000});
    p.families.push_back({"matrix", rule, matrix, 8000, 1500000});
    p.families.push_back({"loops", "the jump is within two statements or more", loops, 4000, 600000});
    p.families.push_back({"twice", rule, twice, 5000, 900000});
    return run(argc, argv, p);
}
