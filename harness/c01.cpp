#include "lang.h"
using namespace pbt;
using namespace lang;

// ---- an expression tree with its own evaluator and printer, independent of the language generator
namespace {
enum T { INT, FLT, BOO, STR };
struct V { T t = INT; int64_t i = 0; double f = 0; std::string s; };
struct N {
    enum { Leaf, Bin, Un, Tern } k = Leaf;
    std::string op;
    V v;  // value of a leaf
    std::vector<std::unique_ptr<N>> a;
    T t = INT;
    int form = 0;
    std::string text;  // of a leaf, in the rendering at hand
    bool traced = false;
};
using P = std::unique_ptr<N>;
const int64_t kI[] = {0, 1, 2, 3, -1, 5, 10, -2, 7, 100, 127, 128, -128, -129, 255, 256, 257, 32767, 32768, -32768, 65535, 65536, 1000000, 2147483647LL, 2147483648LL,
                      -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 9007199254740992LL, 9007199254740993LL, -9007199254740993LL, INT64_MAX, INT64_MAX - 1, INT64_MIN + 1, INT64_MIN};
const double kF[] = {0, 1, 0.5, 2, -1, 1.5, -0.5, 3.25, 0.1, 100, 1e10, -1e10, 16777217, 9007199254740993.0, 1e-5, 1e18, 123456.789, 0.30000000000000004, 1e100, 4.9e-324};
const char *kS[] = {"", "a", "b", "ab", "aa", "abc", "x y", "10", "a somewhat longer string", "\\", "\"", "A"};

std::string vtext(const V &v) {
    switch (v.t) {
        case INT: return v.i == INT64_MIN ? "0x8000000000000000" : std::to_string(v.i);
        case FLT: return (std::signbit(v.f) ? "-" : "") + floatText(std::fabs(v.f));
        case BOO: return v.i ? "true" : "false";
        default: {
            std::string r = "\"";
            for (char c : v.s) { if (c == '"' || c == '\\') r += '\\'; r += c; }
            return r + "\"";
        }
    }
}
std::string dumpV(const V &v) {
    switch (v.t) {
        case INT: return std::to_string(v.i);
        case FLT: return "f" + fmtFloat(v.f);
        case BOO: return v.i ? "true" : "false";
        default: return quote(v.s);
    }
}
V rndV(Gen &g, T t) {
    V v;
    v.t = t;
    switch (t) {
        case INT: v.i = g.chance(1, 5) ? (int64_t)g.bits64() >> g.below(63) : g.chance(1, 4) ? g.range(-9, 9) : kI[g.below(sizeof kI / sizeof *kI)]; break;
        case FLT: {
            if (g.chance(1, 4)) { uint64_t b = (g.bits64() & 0x800fffffffffffffULL) | ((uint64_t)(1023 - 40 + g.below(80)) << 52); memcpy(&v.f, &b, 8); }
            else v.f = kF[g.below(sizeof kF / sizeof *kF)] * (g.chance(1, 5) ? -1 : 1);
            break;
        }
        case BOO: v.i = g.below(2); break;
        case STR: v.s = kS[g.below(sizeof kS / sizeof *kS)]; break;
    }
    return v;
}
bool isArith(const std::string &o) { return o == "+" || o == "-" || o == "*" || o == "/"; }
bool isIntOp(const std::string &o) { return o == "%" || o == "&" || o == "|" || o == "<<" || o == ">>"; }
bool isRel(const std::string &o) { return o == "<" || o == ">" || o == "<=" || o == ">="; }
bool isEq(const std::string &o) { return o == "==" || o == "!="; }
bool isLog(const std::string &o) { return o == "&&" || o == "||"; }
int prec(const std::string &o) {
    if (o == "*" || o == "/" || o == "%" || o == "&" || o == "|") return 5;
    if (o == "+" || o == "-" || o == "<<" || o == ">>") return 4;
    if (isLog(o)) return 2;
    return 3;
}
double num(const V &v) { return v.t == INT ? (double)v.i : v.f; }
bool same(const V &a, const V &b) {
    if (a.t != b.t) return false;
    if (a.t == STR) return a.s == b.s;
    if (a.t == FLT) return a.f == b.f;
    return a.i == b.i;
}
V apply(const std::string &o, const V &a, const V &b) {
    V r;
    if (isEq(o)) { r.t = BOO; r.i = same(a, b) == (o == "=="); return r; }
    if (isRel(o)) {
        r.t = BOO;
        if (a.t == INT && b.t == INT) r.i = o == "<" ? a.i < b.i : o == ">" ? a.i > b.i : o == "<=" ? a.i <= b.i : a.i >= b.i;
        else { double x = num(a), y = num(b); r.i = o == "<" ? x < y : o == ">" ? x > y : o == "<=" ? x <= y : x >= y; }
        return r;
    }
    if (a.t == INT && b.t == INT) {
        r.t = INT;
        bool of = false;
        if (o == "+") of = __builtin_add_overflow(a.i, b.i, &r.i);
        else if (o == "-") of = __builtin_sub_overflow(a.i, b.i, &r.i);
        else if (o == "*") of = __builtin_mul_overflow(a.i, b.i, &r.i);
        else if (o == "/" || o == "%") {
            if (b.i == 0 || (a.i == INT64_MIN && b.i == -1)) throw Discard{};
            r.i = o == "/" ? a.i / b.i : a.i % b.i;
        } else if (o == "&") r.i = a.i & b.i;
        else if (o == "|") r.i = a.i | b.i;
        else if (o == "<<") { if (a.i < 0 || b.i < 0 || b.i > 62 || (b.i && (a.i >> (63 - b.i)))) throw Discard{}; r.i = a.i << b.i; }
        else { if (b.i < 0 || b.i > 63) throw Discard{}; r.i = a.i >> b.i; }
        if (of) throw Discard{};
        return r;
    }
    r.t = FLT;
    double x = num(a), y = num(b);
    r.f = o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : x / y;
    return r;
}
const char *traceName(T t) { return t == INT ? "ti" : t == FLT ? "tf" : t == BOO ? "tb" : "ts"; }
const char *tname(T t) { return t == INT ? "int" : t == FLT ? "float" : t == BOO ? "bool" : "str"; }

V eval(const N &n, std::vector<std::string> *tr) {
    switch (n.k) {
        case N::Leaf:
            if (n.traced && tr) tr->push_back(strf("%s %s", traceName(n.t), dumpV(n.v).c_str()));
            return n.v;
        case N::Un: {
            V v = eval(*n.a[0], tr);
            if (n.op == "!") v.i = !v.i;
            else if (v.t == INT) { if (v.i == INT64_MIN) throw Discard{}; v.i = -v.i; }
            else v.f = -v.f;
            return v;
        }
        case N::Tern: return eval(*n.a[eval(*n.a[0], tr).i ? 1 : 2], tr);
        default: {
            V a = eval(*n.a[0], tr);
            if (isLog(n.op)) { if ((n.op == "&&") != (bool)a.i) return a; return eval(*n.a[1], tr); }
            V b = eval(*n.a[1], tr);
            return apply(n.op, a, b);
        }
    }
}
P leaf(Gen &g, T t) { P n(new N); n->t = t; n->v = rndV(g, t); return n; }
// Builds a tree together with its value, so that operations without a defined value are avoided.
P tree(Gen &g, T t, int d, V &out) {
    if (d <= 0 || g.chance(1, 7)) { P n = leaf(g, t); out = n->v; return n; }
    for (int tries = 0; tries < 6; ++tries) {
        P n(new N);
        n->t = t;
        if (g.chance(1, 9)) {
            n->k = N::Tern;
            V c, x, y;
            n->a.push_back(tree(g, BOO, d - 1, c));
            n->a.push_back(tree(g, t, d - 1, x));
            n->a.push_back(tree(g, t, d - 1, y));
            out = c.i ? x : y;
            return n;
        }
        V x, y;
        if (t == STR) break;
        if (g.chance(1, 8)) {
            n->k = N::Un;
            n->op = t == BOO ? "!" : "-";
            n->a.push_back(tree(g, t, d - 1, x));
            if (t == INT && x.i == INT64_MIN) continue;
            out = x;
            if (t == FLT) out.f = -out.f; else out.i = t == BOO ? !x.i : -x.i;
            return n;
        }
        n->k = N::Bin;
        T ta = t, tb = t;
        if (t == INT) {
            static const char *ops[] = {"+", "-", "*", "/", "%", "&", "|", "<<", ">>"};
            n->op = ops[g.below(9)];
        } else if (t == FLT) {
            static const char *ops[] = {"+", "-", "*", "/"};
            n->op = ops[g.below(4)];
            switch (g.below(3)) { case 1: ta = INT; break; case 2: tb = INT; break; }
        } else {
            switch (g.below(3)) {
                case 0: n->op = g.coin() ? "&&" : "||"; break;
                case 1: {
                    static const char *ops[] = {"<", ">", "<=", ">="};
                    n->op = ops[g.below(4)];
                    ta = g.coin() ? INT : FLT;
                    tb = g.coin() ? INT : FLT;
                    break;
                }
                default: {
                    n->op = g.coin() ? "==" : "!=";
                    static const T ts[] = {INT, FLT, BOO, STR};
                    ta = tb = ts[g.below(4)];
                }
            }
        }
        n->a.push_back(tree(g, ta, d - 1, x));
        if (isEq(n->op) && std::isfinite(x.f) && g.chance(1, 3)) { P l(new N); l->t = tb; l->v = x; y = x; n->a.push_back(std::move(l)); }
        else if (isRel(n->op) && ta == tb && ta == INT && g.chance(1, 3)) {
            P l(new N); l->t = INT; l->v = x; if (x.i < INT64_MAX && g.coin()) l->v.i++; y = l->v; n->a.push_back(std::move(l));
        }
        else if (isRel(n->op) && ta == INT && tb == FLT && g.chance(1, 2)) {
            // the same number, or one nearby, on the other side
            P l(new N); l->t = FLT; l->v.t = FLT; l->v.f = (double)x.i; if (g.coin()) l->v.f = std::nextafter(l->v.f, g.coin() ? 1e300 : -1e300); y = l->v; n->a.push_back(std::move(l));
        }
        else if (isRel(n->op) && ta == FLT && tb == INT && std::fabs(x.f) < 9e18 && g.chance(1, 2)) {
            P l(new N); l->t = INT; l->v.t = INT; l->v.i = (int64_t)x.f + (int64_t)g.range(-1, 1); y = l->v; n->a.push_back(std::move(l));
        }
        else if ((n->op == "<<" || n->op == ">>") && g.chance(5, 6)) { P l(new N); l->t = INT; l->v.i = g.range(0, n->op == "<<" ? 20 : 63); y = l->v; n->a.push_back(std::move(l)); }
        else n->a.push_back(tree(g, tb, d - 1, y));
        if (isLog(n->op)) { out = (n->op == "&&") != (bool)x.i ? x : y; return n; }
        try { out = apply(n->op, x, y); } catch (Discard &) { continue; }
        return n;
    }
    P n = leaf(g, t);
    out = n->v;
    return n;
}
void leaves(N &n, std::vector<N *> &v) { if (n.k == N::Leaf) v.push_back(&n); for (auto &c : n.a) leaves(*c, v); }
int count(const N &n) { int r = n.k != N::Leaf; for (auto &c : n.a) r += count(*c); return r; }

void print(Gen &g, const N &n, std::string &o, int minPrec, bool right) {
    bool extra = g.chance(1, 15);
    bool need = n.k == N::Tern || (n.k == N::Bin && prec(n.op) < minPrec + (right ? 1 : 0));
    if (minPrec == 0) need = false;
    if (need || extra) o += "(";
    switch (n.k) {
        case N::Leaf: o += n.text; break;
        case N::Un: {
            o += n.op;
            const N &c = *n.a[0];
            bool par = c.k != N::Leaf;
            if (par) { o += "("; print(g, c, o, 0, false); o += ")"; }
            else { if (!c.text.empty() && c.text[0] == '-') o += "(" + c.text + ")"; else o += c.text; }
            break;
        }
        case N::Bin:
            print(g, *n.a[0], o, prec(n.op), false);
            o += " " + n.op + " ";
            print(g, *n.a[1], o, prec(n.op), true);
            break;
        case N::Tern:
            o += "if (";
            print(g, *n.a[0], o, 0, false);
            o += ") (";
            print(g, *n.a[1], o, 0, false);
            o += ") else ";
            // the rest of the expression belongs to the else part
            o += "(";
            print(g, *n.a[2], o, 0, false);
            o += ")";
            break;
    }
    if (need || extra) o += ")";
}

// The same tree written several times, each leaf in a freshly chosen form.
void forms(Gen &g, Case &c) {
    static const T ts[] = {INT, INT, FLT, BOO, BOO, STR};
    T t = ts[g.below(6)];
    V want;
    P n = tree(g, t, (int)g.range(1, 4), want);
    std::vector<N *> ls;
    leaves(*n, ls);
    if (ls.size() > 40) throw Discard{};
    c.nontrivial = count(*n) >= 1;
    std::string head, body;
    std::vector<std::string> wantTrace;
    std::set<int> used;
    head += "struct Box { vi: int vf: float vb: bool vs: str }\n"
            "func idi(x: int): int { return x }\nfunc idf(x: float): float { return x }\nfunc idb(x: bool): bool { return x }\nfunc ids(x: str): str { return x }\n";
    int serial = 0;
    int k = (int)g.range(2, 4);
    for (int r = 0; r < k; ++r) {
        bool inFunc = g.coin();
        std::vector<std::string> params, args;
        std::string locals;
        for (N *l : ls) {
            l->traced = false;
            std::string lit = vtext(l->v);
            std::string name = strf("n%d", serial++);
            l->form = (int)g.below(11);
            bool neg = lit[0] == '-';
            if (l->form == 1 && neg) l->form = 2;
            if ((l->form == 3 || l->form == 4) && !inFunc) l->form = 2;
            if (l->form == 8 && l->v.t == INT && l->v.i < 0) l->form = 0;
            used.insert(l->form);
            switch (l->form) {
                default: l->text = lit; break;
                case 1: head += name + " :: " + lit + "\n"; l->text = name; break;
                case 2: head += name + " := " + lit + "\n"; l->text = name; break;
                case 3: params.push_back(name + ": " + tname(l->t)); args.push_back(lit); l->text = name; break;
                case 4: locals += "  " + name + (g.coin() ? strf(": %s = ", tname(l->t)) : " := ") + lit + "\n"; l->text = name; break;
                case 5: l->traced = true; l->text = strf("%s(%s)", traceName(l->t), lit.c_str()); break;
                case 6: l->text = strf("id%c(%s)", tname(l->t)[0], lit.c_str()); break;
                case 7: {
                    V d[4];
                    d[0].t = INT; d[1].t = FLT; d[2].t = BOO; d[3].t = STR;
                    d[l->t] = l->v;
                    head += name + " := new Box{" + vtext(d[0]) + ", " + vtext(d[1]) + ", " + vtext(d[2]) + ", " + vtext(d[3]) + "}\n";
                    static const char *fn[] = {"vi", "vf", "vb", "vs"};
                    l->text = name + "." + fn[l->t];
                    break;
                }
                case 8:
                    if (l->v.t == INT) l->text = l->v.i >= 32 && l->v.i < 127 && l->v.i != '\'' && l->v.i != '\\' && g.coin() ? strf("'%c'", (char)l->v.i) : strf("0x%llx", (unsigned long long)l->v.i);
                    else l->text = "(" + lit + ")";
                    break;
                case 9: l->text = "(if (true) (" + lit + ") else " + vtext(rndV(g, l->t)) + ")"; break;
                case 10: l->text = strf("cast(cast(%s, any), %s)", lit.c_str(), tname(l->t)); break;
            }
        }
        std::string ex;
        print(g, *n, ex, 0, false);
        if (params.size() > 30) throw Discard{};
        eval(*n, &wantTrace);
        wantTrace.push_back("emit " + dumpV(want));
        int use = (int)g.below(want.t == BOO ? 5 : 3);
        auto stmts = [&](const std::string &ind) -> std::string {
            std::string x = strf("res%d", serial++);
            switch (use) {
                case 0: return ind + "emit(" + ex + ")\n";
                case 1: return ind + x + " := " + ex + "\n" + ind + "emit(" + x + ")\n";
                case 2: return ind + x + ": " + tname(want.t) + " = " + vtext(rndV(g, want.t)) + "\n" + ind + x + " = " + ex + "\n" + ind + "emit(" + x + ")\n";
                case 3: return ind + "if (" + ex + ") { emit(true) } else { emit(false) }\n";
                default: {
                    // as a loop condition
                    return ind + x + " := false\n" + ind + "while (" + ex + ") { " + x + " = true break }\n" + ind + "emit(" + x + ")\n";
                }
            }
        };
        if (inFunc) {
            std::string f = strf("f%d", serial++), ps, as;
            for (auto &p : params) ps += (ps.empty() ? "" : ", ") + p;
            for (auto &p : args) as += (as.empty() ? "" : ", ") + p;
            if (g.coin()) {
                head += "func " + f + "(" + ps + "): " + tname(want.t) + " {\n" + locals + "  return " + ex + "\n}\n";
                body += "emit(" + f + "(" + as + "))\n";
            } else {
                head += "func " + f + "(" + ps + "): void {\n" + locals + stmts("  ") + "}\n";
                body += f + "(" + as + ")\n";
            }
        } else body += stmts("");
    }
    std::string text = head + body;
    c.say(text);
    c.label(strf("type:%s", tname(t)));
    for (int f : used) { static const char *nm[] = {"literal", "const", "global", "arg", "local", "traced", "call", "field", "hex/char", "if", "cast"}; c.label(std::string("form:") + nm[f]); }
    Host h;
    h.mustCompile(text);
    Thread th(h);
    th.start();
    th.run();
    compareTrace(wantTrace, th.trace);
    PBT_CHECK(Tiny_IsThreadDone(th.t.get()), "the program did not end");
}

// A flat chain of operators without parentheses, grouped by an operator-precedence parser of its own.
void grouping(Gen &g, Case &c) {
    int n = (int)g.range(2, 9);
    std::vector<V> vals;
    std::vector<std::string> ops, texts;
    std::string text;
    auto add = [&](T t) {
        V v;
        v.t = t;
        if (t == INT) v.i = g.chance(1, 6) ? g.range(-70000, 70000) : g.range(0, 12);
        else if (t == FLT) v.f = (double)g.range(-64, 64) / 4;
        else v.i = g.below(2);
        std::string s = vtext(v);
        // prefix operators apply to the operand only
        if (g.chance(1, 6)) {
            if (t == BOO) { s = "!" + s; v.i = !v.i; }
            else if (s[0] != '-') { s = "-" + s; if (t == INT) v.i = -v.i; else v.f = -v.f; }
        } else if (g.chance(1, 4)) s = strf("%s(%s)", traceName(t), s.c_str());
        vals.push_back(v);
        texts.push_back(s);
    };
    // a disjunction of comparisons of sums, sometimes comparing the outcome of a comparison
    static const char *ar[] = {"+", "-", "*", "/", "%", "&", "|", "<<", ">>"};
    static const char *re[] = {"<", ">", "<=", ">=", "==", "!="};
    int mode = (int)g.below(3);  // 0: arithmetic only
    bool flt = g.chance(1, 4);
    auto arith = [&](int len) {
        add(flt && g.coin() ? FLT : INT);
        for (int i = 1; i < len; ++i) {
            bool f = flt;
            ops.push_back(f ? ar[g.below(4)] : ar[g.below(9)]);
            if (ops.back() == "<<" || ops.back() == ">>") { V v; v.i = g.range(0, 6); vals.push_back(v); texts.push_back(vtext(v)); }
            else add(f && g.coin() ? FLT : INT);
        }
    };
    if (mode == 0) arith(n);
    else {
        int terms = (int)g.range(1, 4);
        for (int i = 0; i < terms; ++i) {
            if (i) ops.push_back(g.coin() ? "&&" : "||");
            if (g.chance(1, 4)) { add(BOO); }
            else {
                arith((int)g.range(1, 4));
                ops.push_back(re[g.below(flt ? 4 : 6)]);
                arith((int)g.range(1, 4));
            }
            while (g.chance(1, 4)) { ops.push_back(g.coin() ? "==" : "!="); add(BOO); }
        }
    }
    // Evaluate by precedence climbing over the flat list.
    std::vector<std::string> trace;
    size_t pos = 0;
    struct R { V v; };
    auto traceOf = [&](size_t i) { if (texts[i][0] == 't' && texts[i][2] == '(') trace.push_back(strf("%.2s %s", texts[i].c_str(), dumpV(vals[i]).c_str())); };
    std::function<V(int, bool)> climb = [&](int minP, bool live) -> V {
        size_t i = pos;
        V l = vals[i];
        if (live) traceOf(i);
        while (pos < ops.size() && prec(ops[pos]) >= minP) {
            std::string o = ops[pos];
            ++pos;
            bool skip = isLog(o) && (o == "&&") != (bool)l.i;
            V r = climb(prec(o) + 1, live && !skip);
            if (!live) { V d; d.t = isRel(o) || isEq(o) || isLog(o) ? BOO : l.t == FLT || r.t == FLT ? FLT : INT; l = d; continue; }
            if (isLog(o)) { if (!skip) l = r; }
            else {
                if (isEq(o) && l.t != r.t) throw Discard{};
                l = apply(o, l, r);
            }
        }
        return l;
    };
    V want = climb(0, true);
    for (size_t i = 0; i < texts.size(); ++i) { if (i) text += (g.chance(1, 5) && texts[i][0] != '-' ? ops[i - 1] : " " + ops[i - 1] + " "); text += texts[i]; }
    std::set<int> ps;
    for (auto &o : ops) ps.insert(prec(o));
    c.nontrivial = ps.size() >= 2;
    c.label(strf("ops:%zu", ops.size() > 8 ? 8 : ops.size()));
    trace.push_back("emit " + dumpV(want));
    std::string prog = g.coin() ? "emit(" + text + ")\n" : "x := " + text + "\nemit(x)\n";
    c.say(prog);
    Host h;
    h.mustCompile(prog);
    Thread th(h);
    th.start();
    th.run();
    compareTrace(trace, th.trace);
}

void program(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg, g.chance(1, 6));
    c.nontrivial = d.n("bin") >= 5;
    Host h;
    h.mustCompile(d.text.text);
    Thread t(h);
    t.start();
    t.run();
    d.check(t);
    t.destroy();
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C01";
    p.title = "Expressions evaluate to the value the language defines";
    p.assumptions = {"operations with no defined value (integer overflow, integer division by zero, shifts of or by negative values) are not generated"};
    p.families.push_back({"forms", "the expression has at least one operator", forms, 16000, 3000000});
    p.families.push_back({"grouping", "the chain mixes operators of at least two precedence levels", grouping, 14000, 2500000});
    Cfg cfg;
    cfg.depth = 6; cfg.nest = 1; cfg.items = 8; cfg.loops = false; cfg.mainBudget = 500; cfg.dicts = cfg.nat = false;
    p.families.push_back({"programs", "at least five binary operations were executed", [=](Gen &g, Case &c) { program(g, c, cfg); }, 5000, 1200000});
    return run(argc, argv, p);
}
