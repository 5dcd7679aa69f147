#include "lang.h"
using namespace pbt;
using namespace lang;

namespace {
// Field types: scalars, a struct (never null), a nullable struct or scalar.
struct FT { enum { I, F, B, S, Obj, Opt, OptI } k; int st = -1; };
struct St { std::string name; std::vector<std::pair<std::string, FT>> f; };
struct MV { enum { Null, I, F, B, S, O } t = Null; int64_t i = 0; double f = 0; std::string s; int o = -1; };
struct Obj { int st; std::vector<MV> f; };
struct Var { std::string name; int st; int obj; };

struct World {
    Gen &g;
    std::vector<St> sts;
    std::vector<Obj> heap;
    std::vector<Var> vars;
    std::vector<std::string> trace;
    std::string ind;
    int serial = 0, writes = 0, aliases = 0, sugar = 0, named = 0, chains = 0, bases = 0;
    bool deep = false;  // each struct has one of the struct before it

    explicit World(Gen &g) : g(g) {}

    std::string tname(const FT &t) {
        switch (t.k) {
            case FT::I: return "int";
            case FT::F: return "float";
            case FT::B: return "bool";
            case FT::S: return "str";
            case FT::Obj: return sts[t.st].name;
            case FT::Opt: return sts[t.st].name + "?";
            default: return "int?";
        }
    }
    int nodes = 0;
    void dump(const MV &v, std::string &o, std::map<int, int> &ids) {
        if (++nodes > 300) { o += "~"; return; }  // as in Thread::dump
        switch (v.t) {
            case MV::Null: o += "null"; return;
            case MV::I: o += std::to_string(v.i); return;
            case MV::F: o += "f" + fmtFloat(v.f); return;
            case MV::B: o += v.i ? "true" : "false"; return;
            case MV::S: o += quote(v.s); return;
            case MV::O: break;
        }
        auto it = ids.find(v.o);
        if (it != ids.end()) { o += strf("#%d", it->second); return; }
        int id = (int)ids.size();
        ids[v.o] = id;
        o += strf("#%d{", id);
        for (size_t i = 0; i < heap[v.o].f.size(); ++i) { if (i) o += ","; dump(heap[v.o].f[i], o, ids); }
        o += "}";
    }
    std::string show(const std::vector<MV> &v) {
        std::map<int, int> ids;
        nodes = 0;
        std::string o;
        for (auto &x : v) { o += " "; dump(x, o, ids); }
        return o;
    }
    MV ob(int o) { MV v; v.t = MV::O; v.o = o; return v; }

    std::string scalar(const FT &t, MV &v, bool pure) {
        std::string lit;
        const char *tr = nullptr;
        switch (t.k) {
            case FT::I: {
                static const int64_t k[] = {0, 1, -1, 7, 128, 255, 256, -300, 70000, 4294967296LL, INT64_MAX};
                v.t = MV::I;
                v.i = g.coin() ? g.range(-20, 100) : k[g.below(11)];
                lit = std::to_string(v.i);
                tr = "ti";
                break;
            }
            case FT::F: v.t = MV::F; v.f = (double)g.range(-999, 999) / 8; lit = (std::signbit(v.f) ? "-" : "") + floatText(std::fabs(v.f)); tr = "tf"; break;
            case FT::B: v.t = MV::B; v.i = g.below(2); lit = v.i ? "true" : "false"; tr = "tb"; break;
            default: v.t = MV::S; v.s = strf("s%d", (int)g.below(100)); lit = "\"" + v.s + "\""; tr = "ts"; break;
        }
        if (!pure && g.chance(1, 3)) { trace.push_back(tr + show({v})); return std::string(tr) + "(" + lit + ")"; }
        return lit;
    }
    // an expression for a value of type t; effects are traced as it is built, so it must be printed where built
    std::string value(const FT &t, MV &v, bool pure, int d) {
        switch (t.k) {
            case FT::OptI: {
                if (!g.chance(2, 3)) { v = MV(); return "cast(null, " + tname(t) + ")"; }
                FT i{FT::I};
                return scalar(i, v, pure);
            }
            case FT::Opt:
                if (d <= 0 || !g.chance(2, 3)) { v = MV(); return "cast(null, " + tname(t) + ")"; }
                // fallthrough
            case FT::Obj: {
                std::string s;
                if (g.chance(2, 3) || d <= 0) if (path(t.st, v, s)) { ++aliases; return s; }
                int o;
                s = construct(t.st, o, pure, d - 1);
                v = ob(o);
                return s;
            }
            default: {
                // read an existing field of the type, sometimes
                if (g.chance(1, 4)) { std::string s; if (readField(t.k, v, s)) return s; }
                return scalar(t, v, pure);
            }
        }
    }
    std::string construct(int st, int &obj, bool pure, int d) {
        const St &s = sts[st];
        size_t n = s.f.size();
        std::vector<size_t> order;
        for (size_t i = 0; i < n; ++i) order.push_back(i);
        bool name = g.coin(), shuffled = name && g.coin();
        if (shuffled) for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
        Obj o;
        o.st = st;
        o.f.resize(n);
        std::string out = "new " + s.name + "{";
        for (size_t i = 0; i < n; ++i) {
            MV v;
            std::string e = value(s.f[order[i]].second, v, pure || shuffled, n > 24 ? 0 : d);
            o.f[order[i]] = v;
            if (i) out += ", ";
            if (name) out += "." + s.f[order[i]].first + " = ";
            out += e;
        }
        named += name;
        obj = (int)heap.size();
        heap.push_back(o);
        return out + "}";
    }
    // a variable, or something else which is the object it holds
    std::string base(const Var &x) {
        if (!g.chance(1, 5)) return x.name;
        ++bases;
        const std::string &n = sts[x.st].name;
        if (g.coin()) return "cast(cast(" + x.name + ", any), " + n + ")";
        return g.coin() ? n + "_same(" + x.name + ")" : x.name + "->" + n + "_same()";
    }
    // a place holding a struct of the wanted type (any if st < 0)
    bool path(int st, MV &v, std::string &s, int *stOut = nullptr) {
        if (vars.empty()) return false;
        for (int tries = 0; tries < 4; ++tries) {
            Var &x = vars[g.below(vars.size())];
            std::string e = base(x);
            int o = x.obj;
            for (int step = 0; step < 4; ++step) {
                if ((st < 0 || heap[o].st == st) && (g.chance(deep ? 1 : 2, 4) || step == 3)) { v = ob(o); s = e; if (stOut) *stOut = heap[o].st; if (step) ++chains; return true; }
                std::vector<size_t> c;
                for (size_t i = 0; i < sts[heap[o].st].f.size(); ++i) if (sts[heap[o].st].f[i].second.k == FT::Obj) c.push_back(i);
                if (c.empty()) { if (st < 0 || heap[o].st == st) { v = ob(o); s = e; if (stOut) *stOut = heap[o].st; return true; } break; }
                size_t i = c[g.below(c.size())];
                e += "." + sts[heap[o].st].f[i].first;
                o = heap[o].f[i].o;
            }
        }
        return false;
    }
    bool readField(int k, MV &v, std::string &s) {
        MV o;
        std::string e;
        if (!path(-1, o, e)) return false;
        std::vector<size_t> c;
        for (size_t i = 0; i < sts[heap[o.o].st].f.size(); ++i) if (sts[heap[o.o].st].f[i].second.k == k) c.push_back(i);
        if (c.empty()) return false;
        size_t i = c[g.below(c.size())];
        v = heap[o.o].f[i];
        s = e + "." + sts[heap[o.o].st].f[i].first;
        return true;
    }
    // The first int field of struct st, which its functions use.
    int intField(int st) { for (size_t i = 0; i < sts[st].f.size(); ++i) if (sts[st].f[i].second.k == FT::I) return (int)i; return -1; }
    int64_t chkAdd(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r)) throw Discard{}; return r; }
    int64_t chkMul(int64_t a, int64_t b) { int64_t r; if (__builtin_mul_overflow(a, b, &r)) throw Discard{}; return r; }
    int64_t chkSub(int64_t a, int64_t b) { int64_t r; if (__builtin_sub_overflow(a, b, &r)) throw Discard{}; return r; }

    MV ti(int64_t i) { MV v; v.t = MV::I; v.i = i; return v; }
    std::string intArg(MV &v, bool pure) {
        v = ti(g.range(-200, 300));
        std::string lit = std::to_string(v.i);
        if (!pure && g.chance(1, 3)) { trace.push_back("ti" + show({v})); return "ti(" + lit + ")"; }
        return lit;
    }

    std::string statement() {
        MV v, o;
        std::string e, q;
        int st;
        switch (g.weighted({5, 3, 8, 5, 6, 4, 3, 3, 2})) {
            case 0: {
                int s = (int)g.below(sts.size()), obj;
                std::string c = construct(s, obj, false, 3);
                std::string n = strf("v%d", serial++);
                vars.push_back({n, s, obj});
                return ind + n + (g.coin() ? " := " : ": " + sts[s].name + " = ") + c + "\n";
            }
            case 1: {
                if (vars.empty()) return "";
                size_t a = g.below(vars.size());
                if (!path(vars[a].st, v, e)) return "";
                ++aliases;
                vars[a].obj = v.o;
                return ind + vars[a].name + " = " + e + "\n";
            }
            case 2: {
                if (!path(-1, o, e, &st)) return "";
                size_t i = g.below(sts[st].f.size());
                std::string rhs = value(sts[st].f[i].second, v, false, 2);
                heap[o.o].f[i] = v;
                ++writes;
                return ind + e + "." + sts[st].f[i].first + " = " + rhs + "\n";
            }
            case 3: {
                if (!path(-1, o, e, &st)) return "";
                std::vector<size_t> c;
                for (size_t i = 0; i < sts[st].f.size(); ++i) if (sts[st].f[i].second.k == FT::I || sts[st].f[i].second.k == FT::F) c.push_back(i);
                if (c.empty()) return "";
                size_t i = c[g.below(c.size())];
                FT ft = sts[st].f[i].second;
                MV old = heap[o.o].f[i];
                static const char *ops[] = {"+=", "-=", "*="};
                std::string op = ops[g.below(3)];
                std::string rhs = g.coin() ? (v = MV(), ft.k == FT::I ? (v = ti(g.range(-3, 9)), std::to_string(v.i)) : scalar(ft, v, true)) : scalar(ft, v, false);
                MV &f = heap[o.o].f[i];
                if (ft.k == FT::I) f.i = op == "+=" ? chkAdd(old.i, v.i) : op == "-=" ? chkSub(old.i, v.i) : chkMul(old.i, v.i);
                else f.f = op == "+=" ? old.f + v.f : op == "-=" ? old.f - v.f : old.f * v.f;
                ++writes;
                return ind + e + "." + sts[st].f[i].first + " " + op + " " + rhs + "\n";
            }
            case 4: {
                // observe
                std::string a;
                std::vector<MV> got;
                int n = (int)g.range(1, 3);
                for (int i = 0; i < n; ++i) {
                    MV x;
                    std::string s;
                    static const int ks[] = {FT::I, FT::F, FT::B, FT::S, FT::Opt, FT::OptI};
                    if (g.chance(1, 3) ? path(-1, x, s) : readField(ks[g.below(6)], x, s)) { a += (a.empty() ? "" : ", ") + s; got.push_back(x); }
                }
                if (got.empty()) return "";
                trace.push_back("emit" + show(got));
                return ind + "emit(" + a + ")\n";
            }
            case 5: {
                // S_bump(s, x, y): emits, changes the int field, returns the old value
                if (!path(-1, o, e, &st)) return "";
                int k = intField(st);
                if (k < 0) return "";
                MV x, y;
                std::string ax = intArg(x, false), ay = intArg(y, false);
                bool arrow = g.coin();
                sugar += arrow;
                MV old = heap[o.o].f[k];
                trace.push_back("emit" + show({x, y}));
                heap[o.o].f[k].i = chkAdd(chkMul(x.i, 3), y.i);
                trace.push_back("emit" + show({old}));
                ++writes;
                std::string call = arrow ? e + "->" + sts[st].name + "_bump(" + ax + ", " + ay + ")" : sts[st].name + "_bump(" + e + ", " + ax + ", " + ay + ")";
                return ind + "emit(" + call + ")\n";
            }
            case 6: {
                // index read
                if (!path(-1, o, e, &st)) return "";
                int k = intField(st);
                if (k < 0) return "";
                MV x;
                std::string ax = intArg(x, false);
                trace.push_back("emit" + show({x}));
                MV r = ti(0);
                r.i = heap[o.o].f[k].i ^ 0;
                r.i = chkAdd(r.i, x.i);
                trace.push_back("emit" + show({r}));
                ++sugar;
                return ind + "emit(" + e + "[" + ax + "])\n";
            }
            case 7: {
                // index write, plain or compound
                if (!path(-1, o, e, &st)) return "";
                int k = intField(st);
                if (k < 0) return "";
                MV x, y;
                bool comp = g.coin();
                std::string ax = intArg(x, comp);
                MV get = ti(0);
                int64_t nv;
                std::string ay;
                if (comp) {
                    get.i = chkAdd(heap[o.o].f[k].i, x.i);
                    trace.push_back("emit" + show({x}));
                    ay = intArg(y, false);
                    nv = chkAdd(get.i, y.i);
                } else {
                    ay = intArg(y, false);
                    nv = y.i;
                }
                trace.push_back("emit" + show({x, ti(nv)}));
                heap[o.o].f[k].i = chkSub(nv, x.i);
                ++sugar;
                ++writes;
                return ind + e + "[" + ax + "] " + (comp ? "+= " : "= ") + ay + "\n";
            }
            default: {
                // identity and nullness
                MV a, b;
                std::string s, u;
                if (g.coin()) {
                    if (!readField(FT::Opt, a, s)) return "";
                    MV r;
                    r.t = MV::B;
                    r.i = a.t == MV::Null;
                    trace.push_back("emit" + show({r}));
                    return ind + "emit(" + s + " == null)\n";
                }
                int sa;
                if (!path(-1, a, s, &sa) || !path(sa, b, u)) return "";
                MV r;
                r.t = MV::B;
                r.i = a.o == b.o;
                trace.push_back("emit" + show({r}));
                return ind + "emit(" + s + " == " + u + ")\n";
            }
        }
    }
};

void fields(Gen &g, Case &c) {
    World w(g);
    std::string stem = g.chance(1, 5) ? std::string((size_t)g.range(5, 70), 'q') : std::string();
    w.deep = g.chance(1, 3);
    int ns = (int)g.range(w.deep ? 3 : 1, 4);
    std::string head;
    int bigAt = g.chance(1, 12) ? (int)g.below(ns) : -1;  // one struct of many fields (what a construction needs on the stack is bounded)
    static const char *names[] = {"a", "b", "cc", "data", "e1", "first", "x", "y", "len", "name"};
    for (int i = 0; i < ns; ++i) {
        St s;
        s.name = strf("S%d", i);
        int nf = bigAt >= 0 ? i == bigAt ? (int)g.range(25, 70) : (int)g.range(1, 7) : g.chance(1, 8) ? (int)g.range(9, 24) : (int)g.range(1, 7);
        w.sts.push_back(s);
        for (int j = 0; j < nf; ++j) {
            FT t{FT::I};
            switch (w.deep && i && i != bigAt && j == nf / 2 ? 4 : g.weighted({5, 2, 2, 2, i ? 3 : 0, 2, 1})) {
                case 0: t.k = FT::I; break;
                case 1: t.k = FT::F; break;
                case 2: t.k = FT::B; break;
                case 3: t.k = FT::S; break;
                case 4: t.k = i == bigAt ? FT::Opt : FT::Obj; t.st = w.deep && j == nf / 2 ? i - 1 : (int)g.below(i); break;
                case 5: t.k = FT::Opt; t.st = (int)g.below(ns); break;
                default: t.k = FT::OptI;
            }
            w.sts.back().f.push_back({stem + strf("%s%s", names[(j * 7 + i) % 10], j >= 10 ? std::to_string(j).c_str() : ""), t});
        }
    }
    for (auto &s : w.sts) for (auto &f : s.f) if (f.second.k == FT::Opt) f.second.st %= ns;
    for (int i = 0; i < ns; ++i) {
        St &s = w.sts[i];
        head += "struct " + s.name + " {\n";
        for (auto &f : s.f) head += "  " + f.first + ": " + w.tname(f.second) + "\n";
        head += "}\n";
        head += "func " + s.name + "_same(s: " + s.name + "): " + s.name + " { return s }\n";
        int k = w.intField(i);
        if (k >= 0) {
            const char *f = s.f[k].first.c_str(), *n = s.name.c_str();
            head += strf("func %s_bump(s: %s, x: int, y: int): int {\n  emit(x, y)\n  old := s.%s\n  s.%s = x * 3 + y\n  return old\n}\n", n, n, f, f);
            head += strf("func %s_get_index(s: %s, i: int): int { emit(i) return s.%s + i }\n", n, n, f);
            head += strf("func %s_set_index(s: %s, i: int, v: int): void { emit(i, v) s.%s = v - i }\n", n, n, f);
        }
    }
    bool inFunc = g.coin();
    w.ind = inFunc ? "  " : "";
    std::string body;
    int n = (int)g.range(4, 30);
    for (int i = 0; i < n; ++i) {
        if (w.serial > 25) break;
        body += w.statement();
    }
    // everything reachable, at the end
    std::vector<MV> all;
    std::string as;
    for (auto &v : w.vars) { all.push_back(w.ob(v.obj)); as += (as.empty() ? "" : ", ") + v.name; }
    if (!all.empty()) { body += w.ind + "emit(" + as + ")\n"; w.trace.push_back("emit" + w.show(all)); }
    if (inFunc) body = "func main_part(): void {\n" + body + "}\nmain_part()\n";
    std::string text = g.chance(1, 4) ? body + head : head + body;
    c.say(text);
    c.nontrivial = w.writes >= 2 && w.heap.size() >= 2;
    c.labelIf(w.aliases > 0, "aliases");
    c.labelIf(w.named > 0, "named construction");
    c.labelIf(w.chains > 0, "chains");
    c.labelIf(w.bases > 0, "calls and casts in places");
    c.labelIf(w.sugar > 0, "sugar");
    c.labelIf(inFunc, "locals");
    c.labelIf(bigAt >= 0, "struct of over 24 fields");
    Host h;
    h.mustCompile(text);
    Thread t(h);
    t.start();
    t.run();
    compareTrace(w.trace, t.trace);
    if (!inFunc)
        for (auto &v : w.vars) {
            std::string want = w.show({w.ob(v.obj)}).substr(1), got = t.global(v.name);
            PBT_CHECK(want == got, "global %s is\n  %s\nbut should be\n  %s", v.name.c_str(), got.c_str(), want.c_str());
        }
}

void program(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg, g.chance(1, 6));
    c.nontrivial = d.n("new") >= 2 && d.n("get") + d.n("fieldset") >= 2;
    Host h;
    h.mustCompile(d.text.text);
    Thread t(h);
    t.start();
    t.run();
    d.check(t);
    t.destroy();
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C03";
    p.title = "Structs behave as shared references with independent named fields";
    p.assumptions = {"the operands of a compound assignment to an indexed place, and of a construction whose fields are named out of order, have no side effects (their number and order of evaluation is not specified)"};
    p.families.push_back({"fields", "at least two objects and two field changes", fields, 14000, 3000000});
    Cfg cfg;
    cfg.maxStructs = 4; cfg.items = 14; cfg.dicts = false; cfg.depth = 4;
    p.families.push_back({"programs", "at least two constructions and two field accesses were executed", [=](Gen &g, Case &c) { program(g, c, cfg); }, 5000, 1000000});
    return run(argc, argv, p);
}
