#include <algorithm>

#include "lang.h"
using namespace pbt;
using namespace lang;

namespace {
// Collects at every cycle, at random cycles, or when the implementation decides.
void drive(Gen &g, Thread &t, uint64_t maxForced = 20000) {
    int mode = (int)g.below(3);
    uint64_t n = 0;
    if (mode == 0) { t.run(); return; }
    uint64_t every = mode == 1 ? 1 : 1 + g.below(9);
    do {
        if (n < maxForced && n % every == 0) t.t->maxNumObjects = 0;
        ++n;
    } while (t.step());
}

void program(Gen &g, Case &c, const Cfg &cfg) {
    Diff d;
    d.make(g, c, cfg);
    c.nontrivial = d.n("new") + d.n("array") + d.n("dict") >= 3 && d.m->trace.size() >= 2;
    Host h;
    h.mustCompile(d.text.text);
    Thread t(h);
    t.start();
    drive(g, t);
    d.check(t);
    for (auto &n : t.nats) PBT_CHECK(n->freed <= 1, "native %lld finalized %d times", (long long)n->id, n->freed);
}

// ---- graphs of nodes, arrays, dicts and natives which mark their contents
struct Box { std::vector<Tiny_Value> v; };
void boxMark(void *p) { for (auto &v : ((Box *)p)->v) Tiny_ProtectFromGC(v); }
void boxFree(Tiny_Context *, void *p) { delete (Box *)p; }
const Tiny_NativeProp kBox = {"box", boxMark, boxFree};
Tiny_Value fBox(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    Box *b = new Box;
    for (int i = 0; i < n; ++i) b->v.push_back(a[i]);
    return Tiny_NewNative(t, b, &kBox);
}
Tiny_Value fBoxAdd(Tiny_StateThread *, const Tiny_Value *a, int) { ((Box *)Tiny_ToAddr(a[0]))->v.push_back(a[1]); return Tiny_Null; }
Tiny_Value fBoxGet(Tiny_StateThread *, const Tiny_Value *a, int) { return ((Box *)Tiny_ToAddr(a[0]))->v[Tiny_ToInt(a[1])]; }
Tiny_Value fBoxDrop(Tiny_StateThread *, const Tiny_Value *a, int) { ((Box *)Tiny_ToAddr(a[0]))->v.clear(); return Tiny_Null; }

struct RDump {
    std::map<const void *, int> ids;
    int nodes = 0;
    std::string o;
    void go(Tiny_Value v) {
        if (++nodes > 250) { o += "~"; return; }
        switch (v.type) {
            case TINY_VAL_NULL: o += "null"; return;
            case TINY_VAL_INT: o += std::to_string(v.i); return;
            case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: o += std::string(Tiny_ToString(v), Tiny_StringLen(v)); return;
            case TINY_VAL_STRUCT: case TINY_VAL_NATIVE: break;
            default: o += strf("<kind %d>", v.type); return;
        }
        auto it = ids.find(v.obj);
        if (it != ids.end()) { o += strf("#%d", it->second); return; }
        int id = (int)ids.size();
        ids[v.obj] = id;
        o += strf("#%d", id);
        if (v.type == TINY_VAL_STRUCT) {
            o += "{";
            for (int i = 0; i < 4; ++i) { if (i) o += ","; go(Tiny_GetField(v, i)); }
            o += "}";
            return;
        }
        std::string k = Tiny_GetProp(v)->name;
        void *p = Tiny_ToAddr(v);
        if (k == "nat") { NatRec *n = (NatRec *)p; o += strf("<nat %lld%s>", (long long)n->id, n->freed ? " freed" : ""); return; }
        if (k == "box") { o += "<"; for (auto &x : ((Box *)p)->v) { go(x); o += ","; } o += ">"; return; }
        if (k == "array") { o += "["; for (int i = 0; i < ArrayLen((Array *)p); ++i) { go(*ArrayGet((Array *)p, i)); o += ","; } o += "]"; return; }
        o += "dict(";
        static const char *ks[] = {"k0", "k1", "k2", "k3", "k4"};
        for (auto key : ks) {
            const Tiny_Value *x = DictGet((Dict *)p, Tiny_NewConstString(key));
            if (x) { o += key; o += ":"; go(*x); o += ","; }
        }
        o += ")";
    }
};
struct MV { enum { Null, Int, Str, Ob } t = Null; int64_t i = 0; std::string s; int o = -1; };
struct MO { enum T { Node, Arr, Dict, Box, Nat } t; std::vector<MV> f; std::map<std::string, MV> d; int64_t id = 0; };
struct W {
    Gen &g;
    std::vector<MO> heap;
    std::vector<std::string> trace;
    std::map<std::string, MV> var;   // globals and locals
    int garbage = 0, links = 0, cyc = 0, ids = 0;
    explicit W(Gen &g) : g(g) {}
    struct D {
        std::vector<MO> &h;
        std::map<int, int> ids;
        int nodes = 0;
        std::string o;
        void go(const MV &v) {
            if (++nodes > 250) { o += "~"; return; }
            switch (v.t) {
                case MV::Null: o += "null"; return;
                case MV::Int: o += std::to_string(v.i); return;
                case MV::Str: o += v.s; return;
                default: break;
            }
            auto it = ids.find(v.o);
            if (it != ids.end()) { o += strf("#%d", it->second); return; }
            int id = (int)ids.size();
            ids[v.o] = id;
            o += strf("#%d", id);
            MO &x = h[v.o];
            switch (x.t) {
                case MO::Node: o += "{"; for (int i = 0; i < 4; ++i) { if (i) o += ","; go(x.f[i]); } o += "}"; return;
                case MO::Nat: o += strf("<nat %lld>", (long long)x.id); return;
                case MO::Box: o += "<"; for (auto &y : x.f) { go(y); o += ","; } o += ">"; return;
                case MO::Arr: o += "["; for (auto &y : x.f) { go(y); o += ","; } o += "]"; return;
                case MO::Dict: o += "dict("; for (auto &y : x.d) { o += y.first + ":"; go(y.second); o += ","; } o += ")"; return;
            }
        }
    };
    std::string show(const MV &v) { D d{heap}; d.go(v); return d.o; }
    MV mk(MO::T t) { MV v; v.t = MV::Ob; v.o = (int)heap.size(); heap.push_back({t}); return v; }
    static std::string nm(char k, int i) { return strf("%c%d", k, i); }
    bool local = false;
    std::string nodeVar() { return local && g.coin() ? nm('m', (int)g.below(3)) : nm('n', (int)g.below(6)); }
    std::string contVar() { static const char *v[] = {"a0", "a1", "d0", "d1", "b0", "b1"}; return v[g.below(6)]; }
    // an expression of type Node?
    std::string nodeEx(MV &v, int d) {
        if (d <= 0 || g.chance(1, 3)) { std::string n = nodeVar(); v = var[n]; return n; }
        switch (g.below(4)) {
            case 0: v = MV(); return "cast(null, Node?)";
            case 1: {
                std::string x = nodeVar();
                bool a = g.coin();
                MV o = var[x];
                v = o.t == MV::Ob ? heap[o.o].f[a ? 1 : 2] : MV();
                return strf("get%c(%s)", a ? 'a' : 'b', x.c_str());
            }
            default: {
                std::vector<MV> f(4);
                std::string a, b, e;
                f[0].t = MV::Int;
                f[0].i = ++ids;
                a = nodeEx(f[1], d - 1);
                b = nodeEx(f[2], d - 1);
                e = anyEx(f[3], d - 1);
                v = mk(MO::Node);
                heap[v.o].f = f;
                return strf("new Node{%lld, %s, %s, %s}", (long long)f[0].i, a.c_str(), b.c_str(), e.c_str());
            }
        }
    }
    std::string anyEx(MV &v, int d) {
        switch (g.below(d > 0 ? 8 : 3)) {
            case 0: v = MV(); v.t = MV::Int; v.i = g.range(0, 9); return std::to_string(v.i);
            case 1: { std::string n = nodeVar(); v = var[n]; return n; }
            case 2: { std::string n = contVar(); v = var[n]; return n; }
            case 3: { int k = (int)g.below(50); v = MV(); v.t = MV::Str; v.s = strf("s%d", k); return strf("strcat(\"s\", int_to_str(%d))", k); }
            case 4: { v = mk(MO::Nat); heap[v.o].id = ++ids; return strf("nat(%d)", ids); }
            case 5: return nodeEx(v, d);
            case 6: {
                MV x;
                std::string e;
                bool arr = g.coin();
                int n = (int)g.below(3);
                std::vector<MV> f;
                for (int i = 0; i < n; ++i) { MV y; e += (i ? ", " : "") + anyEx(y, d - 1); f.push_back(y); }
                v = mk(arr ? MO::Arr : MO::Box);
                heap[v.o].f = f;
                return (arr ? "arr(" : "box(") + e + ")";
            }
            default: {
                MV y;
                std::string e = anyEx(y, d - 1);
                v = mk(MO::Dict);
                heap[v.o].d["k1"] = y;
                return "dict(\"k1\", " + e + ")";
            }
        }
    }
    std::string stmt(const std::string &ind) {
        MV v;
        std::string e;
        if (g.chance(1, 5)) { garbage++; return ind + strf("junk(%d)\n", (int)g.range(1, 20)); }
        switch (g.weighted({6, 5, 4, 3, 3, 3, 3, 2})) {
            case 0: { e = nodeEx(v, 3); std::string n = nodeVar(); var[n] = v; return ind + n + " = " + e + "\n"; }
            case 1: {
                std::string x = nodeVar();
                bool a = g.coin();
                e = nodeEx(v, 1);
                MV o = var[x];
                if (o.t == MV::Ob) { heap[o.o].f[a ? 1 : 2] = v; ++links; if (v.t == MV::Ob && v.o <= o.o) ++cyc; }
                return ind + strf("set%c(%s, %s)\n", a ? 'a' : 'b', x.c_str(), e.c_str());
            }
            case 2: {
                std::string k = contVar();
                e = anyEx(v, 2);
                MV o = var[k];
                ++links;
                if (k[0] == 'a') { heap[o.o].f.push_back(v); return ind + "arr_push(" + k + ", " + e + ")\n"; }
                if (k[0] == 'b') { heap[o.o].f.push_back(v); return ind + "box_add(" + k + ", " + e + ")\n"; }
                std::string key = strf("k%d", (int)g.below(4));
                if (v.t == MV::Null) { v.t = MV::Int; v.i = 0; e = "0"; }
                heap[o.o].d[key] = v;
                // the key is not a constant
                return ind + strf("dict_put(%s, strcat(\"k\", \"%s\"), %s)\n", k.c_str(), key.c_str() + 1, e.c_str());
            }
            case 3: {
                std::string k = contVar();
                MV o = mk(k[0] == 'a' ? MO::Arr : k[0] == 'b' ? MO::Box : MO::Dict);
                var[k] = o;
                return ind + k + " = " + (k[0] == 'a' ? "arr()" : k[0] == 'b' ? "box()" : "dict()") + "\n";
            }
            case 4: {
                std::string k = contVar();
                MV o = var[k];
                if (k[0] == 'd') {
                    std::string key = strf("k%d", (int)g.below(4));
                    heap[o.o].d.erase(key);
                    return ind + "dict_remove(" + k + ", \"" + key + "\")\n";
                }
                if (k[0] == 'b') { heap[o.o].f.clear(); return ind + "box_drop(" + k + ")\n"; }
                if (heap[o.o].f.empty()) return "";
                bool pop = g.coin();
                v = pop ? heap[o.o].f.back() : heap[o.o].f.front();
                if (pop) heap[o.o].f.pop_back(); else heap[o.o].f.erase(heap[o.o].f.begin());
                trace.push_back(show(v));
                return ind + "hook(" + (pop ? "arr_pop(" : "arr_shift(") + k + "))\n";
            }
            case 5: {
                // a node kept only by a container
                std::string k = g.coin() ? "a0" : "b0";
                MV o = var[k];
                std::vector<size_t> c;
                for (size_t i = 0; i < heap[o.o].f.size(); ++i) { MV &x = heap[o.o].f[i]; if (x.t == MV::Null || (x.t == MV::Ob && heap[x.o].t == MO::Node)) c.push_back(i); }
                if (c.empty()) return "";
                size_t i = c[g.below(c.size())];
                std::string n = nodeVar();
                var[n] = heap[o.o].f[i];
                return ind + n + strf(" = cast(%s(%s, %zu), Node?)\n", k == "a0" ? "arr_get" : "box_get", k.c_str(), i);
            }
            case 6: {
                // several fresh values held only as operands while more are made
                std::string a;
                std::vector<std::string> d;
                int n = (int)g.range(1, 4);
                MV x[4];
                for (int i = 0; i < n; ++i) a += (i ? ", " : "") + anyEx(x[i], 3);
                D dd{heap};
                for (int i = 0; i < n; ++i) { dd.o += " "; dd.go(x[i]); }
                trace.push_back(dd.o);
                return ind + "hookall(" + a + ")\n";
            }
            default: {
                std::string n = g.coin() ? nodeVar() : contVar();
                trace.push_back(show(var[n]));
                return ind + "hook(" + n + ")\n";
            }
        }
    }
};
Tiny_Value fHookAll(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    Thread &t = Thread::of(st);
    RDump d;
    for (int i = 0; i < n; ++i) { d.o += " "; d.go(a[i]); }
    t.trace.push_back(d.o);
    return Tiny_Null;
}
void bindBox(Host &h) {
    Tiny_RegisterType(h.state, "Box");
    Tiny_BindFunction(h.state, "box(...): Box", fBox);
    Tiny_BindFunction(h.state, "box_add(Box, any): void", fBoxAdd);
    Tiny_BindFunction(h.state, "box_get(Box, int): any", fBoxGet);
    Tiny_BindFunction(h.state, "box_drop(Box): void", fBoxDrop);
    Tiny_BindFunction(h.state, "hookall(...): void", fHookAll);
}
const char *kHead =
    "use array(\"any\") as arr\n"
    "struct Node { id: int a: Node? b: Node? data: any }\n"
    "func seta(x: Node?, v: Node?): void { if (x != null) { y := cast(cast(x, any), Node) y.a = v } }\n"
    "func setb(x: Node?, v: Node?): void { if (x != null) { y := cast(cast(x, any), Node) y.b = v } }\n"
    "func geta(x: Node?): Node? { if (x == null) return cast(null, Node?) return cast(cast(x, any), Node).a }\n"
    "func getb(x: Node?): Node? { if (x == null) return cast(null, Node?) return cast(cast(x, any), Node).b }\n";

void graph(Gen &g, Case &c) {
    W w(g);
    std::string text = kHead;
    for (int i = 0; i < 6; ++i) { text += strf("n%d: Node? = cast(null, Node?)\n", i); w.var[strf("n%d", i)] = MV(); }
    for (int i = 0; i < 3; ++i) w.var[strf("m%d", i)] = MV();
    for (int i = 0; i < 2; ++i) {
        text += strf("a%d := arr()\nd%d := dict()\nb%d := box()\n", i, i, i);
        w.var[strf("a%d", i)] = w.mk(MO::Arr);
        w.var[strf("d%d", i)] = w.mk(MO::Dict);
        w.var[strf("b%d", i)] = w.mk(MO::Box);
    }
    int n = (int)g.range(6, 40);
    std::string body;
    int fn = 0;
    for (int i = 0; i < n; ++i) {
        if (g.chance(1, 8)) {
            // a call whose locals and result are the only references
            MV a0;
            std::string arg = w.nodeEx(a0, 2);
            w.local = true;
            w.var["m0"] = a0;
            w.var["m1"] = w.var["m2"] = MV();
            std::string f = strf("func fn%d(m0: Node?): Node? {\n  m1: Node? = cast(null, Node?)\n  m2: Node? = cast(null, Node?)\n", fn);
            int k = (int)g.range(1, 7);
            for (int j = 0; j < k; ++j) f += w.stmt("  ");
            MV r;
            std::string e = w.nodeEx(r, 2);
            f += "  return " + e + "\n}\n";
            w.local = false;
            std::string dst = w.nodeVar();
            w.var[dst] = r;
            text += f;
            body += dst + " = fn" + std::to_string(fn++) + "(" + arg + ")\n";
            continue;
        }
        body += w.stmt("");
    }
    for (auto &v : w.var) if (v.first[0] != 'm') { w.trace.push_back(w.show(v.second)); body += "hook(" + v.first + ")\n"; }
    text += body;
    c.say(text);
    c.nontrivial = w.links >= 2 && w.heap.size() >= 8;
    c.labelIf(w.cyc > 0, "back links");
    c.labelIf(w.garbage > 0, "garbage");
    c.labelIf(fn > 0, "locals");
    Host h;
    bindBox(h);
    h.mustCompile(text);
    Thread t(h);
    t.hook = [](Thread &t, const Tiny_Value *a, int n) { RDump d; d.go(a[0]); t.trace.push_back(d.o); return Tiny_Null; };
    t.start();
    drive(g, t);
    compareTrace(w.trace, t.trace);
    PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    t.destroy();
}

// Long chains of references through every kind of container.
void chain(Gen &g, Case &c) {
    static const char *kinds[] = {"node", "array", "dict", "box", "mixed"};
    int kind = (int)g.below(5);
    int64_t n = g.chance(1, 6) ? g.range(20000, 120000) : g.range(50, 5000);
    if (kind == 2) n = std::min<int64_t>(n, 8000);
    bool close = g.coin();
    int64_t junk = g.below(3), every = 1 + g.below(50);
    std::string t = kHead;
    t += "head: any = null\nfirst: any = null\ni := 0\n";
    t += strf("while (i < %lld) {\n", (long long)n);
    switch (kind) {
        case 0: t += "  head = new Node{i, cast(head, Node?), cast(null, Node?), null}\n"; break;
        case 1: t += "  head = arr(i, head)\n"; break;
        case 2: t += "  if (i == 0) head = dict(\"i\", i) else head = dict(\"i\", i, \"next\", head)\n"; break;
        case 3: t += "  head = box(i, head)\n"; break;
        default: t += "  if (i % 3 == 0) head = arr(i, head) else { if (i % 3 == 1) head = box(i, head) else head = new Node{i, cast(null, Node?), cast(null, Node?), head} }\n"; break;
    }
    t += "  if (i == 0) first = head\n";
    if (junk) t += strf("  if (i %% %lld == 0) junk(%lld)\n", (long long)every, (long long)junk);
    t += "  i += 1\n}\n";
    if (close) {
        switch (kind) {
            case 0: t += "seta(cast(first, Node?), cast(head, Node?))\n"; break;
            case 1: t += "arr_push(cast(first, arr), head)\n"; break;
            case 2: t += "dict_put(cast(first, dict), \"back\", head)\n"; break;
            case 3: t += "box_add(cast(first, Box), head)\n"; break;
            default: t += "arr_push(cast(first, arr), head)\n"; break;
        }
    }
    t += "first = null\njunk(40)\njunk(40)\nhook(head)\n";
    bool drop = g.coin();
    if (drop) t += "head = null\njunk(30)\njunk(30)\nhook(head)\n";
    c.say(t);
    c.nontrivial = n >= 100;
    c.label(std::string("kind:") + kinds[kind]);
    c.labelIf(close, "cycle");
    c.labelIf(n > 20000, "over 20000");
    Host h;
    bindBox(h);
    h.mustCompile(t);
    Thread th(h);
    int hooks = 0;
    th.hook = [&](Thread &t, const Tiny_Value *a, int) {
        ++hooks;
        Tiny_Value v = a[0];
        if (hooks == 2) { PBT_CHECK(Tiny_IsNull(v), "head is not null after it was set to null"); return Tiny_Null; }
        const void *firstAddr = v.obj;
        for (int64_t i = n - 1; i >= 0; --i) {
            Tiny_Value id = Tiny_Null, next = Tiny_Null;
            Tiny_Value back = Tiny_Null;
            if (v.type == TINY_VAL_STRUCT) {
                id = Tiny_GetField(v, 0);
                next = kind == 0 ? Tiny_GetField(v, 1) : Tiny_GetField(v, 3);
                back = Tiny_GetField(v, 1);
            } else if (v.type == TINY_VAL_NATIVE) {
                std::string k = Tiny_GetProp(v)->name;
                void *p = Tiny_ToAddr(v);
                if (k == "array") { PBT_CHECK(ArrayLen((Array *)p) == (close && i == 0 ? 3 : 2), "element %lld has length %d", (long long)i, ArrayLen((Array *)p)); id = *ArrayGet((Array *)p, 0); next = *ArrayGet((Array *)p, 1); if (close && i == 0) back = *ArrayGet((Array *)p, 2); }
                else if (k == "box") { id = ((Box *)p)->v[0]; next = ((Box *)p)->v[1]; if (close && i == 0) back = ((Box *)p)->v[2]; }
                else {
                    const Tiny_Value *x = DictGet((Dict *)p, Tiny_NewConstString("i"));
                    PBT_CHECK(x, "element %lld lost its key", (long long)i);
                    id = *x;
                    x = DictGet((Dict *)p, Tiny_NewConstString("next"));
                    if (x) next = *x;
                    x = DictGet((Dict *)p, Tiny_NewConstString("back"));
                    if (x) back = *x;
                }
            } else fail(strf("element %lld is a value of kind %d", (long long)i, v.type));
            PBT_CHECK(id.type == TINY_VAL_INT && id.i == i, "element %lld holds %lld", (long long)i, (long long)id.i);
            if (i == 0) {
                if (close) PBT_CHECK(back.obj == firstAddr, "the cycle does not lead back to its start");
                else if (kind != 0) PBT_CHECK(Tiny_IsNull(next), "the chain does not end with null");
                break;
            }
            v = next;
        }
        return Tiny_Null;
    };
    th.start();
    if (n < 2000) drive(g, th, 3000); else th.run();
    PBT_CHECK(hooks == (drop ? 2 : 1), "the program made %d observations", hooks);
    th.destroy();
    th.ctx.check("thread context");
}
// One container, or two levels of them, which alone holds very many objects.
void crowd(Gen &g, Case &c) {
    static const char *kinds[] = {"array", "dict of ints", "dict of strings", "box", "array of arrays"};
    int kind = (int)g.below(5), what = (int)g.below(3);
    int n = g.chance(1, 3) ? (int)g.range(1500, 6000) : (int)g.range(40, 1500);
    int renew = g.coin() ? (int)g.range(2, 40) : 0, drop = (kind == 1 || kind == 2) && g.coin() ? (int)g.range(2, 40) : 0;
    int inner = (int)g.range(20, 200);
    int64_t junk = g.below(3), every = 1 + g.below(50);
    std::string t = kHead, key = kind == 1 ? "i" : "strcat(\"k\", ntos(i))";
    t += "func make(i: int): any { ";
    t += what == 0 ? "return strcat(\"v\", ntos(i)) }\n" : what == 1 ? "return new Node{i, cast(null, Node?), cast(null, Node?), null} }\n" : "return arr(i, strcat(\"v\", ntos(i))) }\n";
    t += kind == 1 || kind == 2 ? "m := dict()\n" : kind == 3 ? "m := box()\n" : "m := arr()\n";
    t += strf("i := 0\nwhile (i < %d) {\n", n);
    switch (kind) {
        case 0: t += "  arr_push(m, make(i))\n"; break;
        case 3: t += "  box_add(m, make(i))\n"; break;
        case 4: t += strf("  if (i %% %d == 0) arr_push(m, arr())\n  arr_push(cast(arr_get(m, i / %d), arr), make(i))\n", inner, inner); break;
        default: t += "  dict_put(m, " + key + ", make(i))\n"; break;
    }
    if (junk) t += strf("  if (i %% %lld == 0) junk(%lld)\n", (long long)every, (long long)junk);
    t += "  i += 1\n}\n";
    if (kind > 2) renew = 0;
    if (renew) t += strf("i = 0\nwhile (i < %d) {\n  %s\n  i += %d\n}\n", n, kind == 0 ? "arr_set(m, i, make(i + 10000))" : ("dict_put(m, " + key + ", make(i + 10000))").c_str(), renew);
    if (drop) t += strf("i = 1\nwhile (i < %d) {\n  dict_remove(m, %s)\n  i += %d\n}\n", n, key.c_str(), drop);
    t += "junk(40)\njunk(40)\nhook(m)\n";
    c.say(t);
    c.nontrivial = n >= 100;
    c.label(std::string("kind:") + kinds[kind]);
    c.labelIf(n >= 1500, "over 1500");
    Host h;
    bindBox(h);
    h.mustCompile(t);
    Thread th(h);
    int hooks = 0;
    th.hook = [&](Thread &, const Tiny_Value *a, int) {
        ++hooks;
        void *m = Tiny_ToAddr(a[0]);
        auto text = [](Tiny_Value v) { const char *s = Tiny_ToString(v); return s ? std::string(s, Tiny_StringLen(v)) : std::string("(no string)"); };
        auto is = [&](Tiny_Value v, int i) {
            int id = renew && i % renew == 0 ? i + 10000 : i;
            if (what == 0) PBT_CHECK(text(v) == strf("v%d", id), "element %d is %s", i, text(v).c_str());
            else if (what == 1) PBT_CHECK(v.type == TINY_VAL_STRUCT && Tiny_GetField(v, 0).type == TINY_VAL_INT && Tiny_GetField(v, 0).i == id, "element %d is not the struct it was", i);
            else {
                PBT_CHECK(v.type == TINY_VAL_NATIVE && ArrayLen((Array *)Tiny_ToAddr(v)) == 2, "element %d is not the array it was", i);
                Array *x = (Array *)Tiny_ToAddr(v);
                PBT_CHECK(ArrayGet(x, 0)->i == id && text(*ArrayGet(x, 1)) == strf("v%d", id), "element %d is not the array it was", i);
            }
        };
        if (kind == 0) {
            PBT_CHECK(ArrayLen((Array *)m) == n, "the array has %d elements instead of %d", ArrayLen((Array *)m), n);
            for (int i = 0; i < n; ++i) is(*ArrayGet((Array *)m, i), i);
        } else if (kind == 3) {
            PBT_CHECK((int)((Box *)m)->v.size() == n, "the box lost elements");
            for (int i = 0; i < n; ++i) is(((Box *)m)->v[i], i);
        } else if (kind == 4) {
            for (int i = 0; i < n; ++i) {
                Tiny_Value v = *ArrayGet((Array *)m, i / inner);
                PBT_CHECK(v.type == TINY_VAL_NATIVE && ArrayLen((Array *)Tiny_ToAddr(v)) > i % inner, "array %d is not what it was", i / inner);
                is(*ArrayGet((Array *)Tiny_ToAddr(v), i % inner), i);
            }
        } else {
            for (int i = 0; i < n; ++i) {
                std::string k = strf("k%d", i);
                const Tiny_Value *x = DictGet((Dict *)m, kind == 1 ? Tiny_NewInt(i) : Tiny_NewConstString(k.c_str()));
                bool gone = drop && i % drop == 1;
                if (gone) PBT_CHECK(!x, "removed key %d is still there", i);
                else { PBT_CHECK(x, "key %d was lost", i); is(*x, i); }
            }
        }
        return Tiny_Null;
    };
    th.start();
    if (n < 600) drive(g, th, 2000); else th.run();
    PBT_CHECK(th.error.empty(), "%s", th.error.c_str());
    PBT_CHECK(hooks == 1, "the program made %d observations", hooks);
    th.destroy();
    th.ctx.check("thread context");
}
// Deep recursion with values held only by the arguments, locals and operands of the calls under way.
struct Shape { int params, locals, pre, post, wrap, ret, junkAt; std::vector<int> kinds; };
void frames(Gen &g, Case &c) {
    W w(g);
    int ns = (int)g.range(1, 3);
    std::vector<Shape> sh(ns);
    int per = 0, slim = g.chance(1, 3) ? 2 : 3;
    for (auto &s : sh) {
        s.params = (int)g.below(slim);
        s.locals = (int)g.below(slim);
        s.pre = (int)g.below(slim);
        s.wrap = (int)g.below(5);
        s.post = s.wrap == 1 ? 3 - s.pre : (int)g.below(3);
        s.ret = (int)g.below(4);
        s.junkAt = (int)g.below(4);
        for (int i = 0; i < 16; ++i) s.kinds.push_back((int)g.below(5));
        per += 1 + s.params + s.locals + (s.wrap == 4 ? 2 * s.pre + 1 : s.pre) + (s.wrap != 3);
    }
    int depth = (int)g.range(1, std::min(58, 90 * ns / per));
    // A fresh value: its text in terms of n, and what it is at a given n. Serial k tells the places of a function apart.
    auto text = [](int kind, int k) -> std::string {
        std::string id = strf("n * 100 + %d", k);
        switch (kind) {
            case 0: return "nat(" + id + ")";
            case 1: return "strcat(\"s\", int_to_str(" + id + "))";
            case 2: return "arr(nat(" + id + "))";
            case 3: return "box(strcat(\"s\", int_to_str(" + id + ")))";
            default: return "new Quad{" + id + ", nat(" + id + "), null, null}";
        }
    };
    auto value = [&](int kind, int n, int k) -> MV {
        int64_t id = n * 100 + k;
        MV i, s, v;
        i.t = MV::Int;
        i.i = id;
        s.t = MV::Str;
        s.s = strf("s%lld", (long long)id);
        auto nat = [&] { MV x = w.mk(MO::Nat); w.heap[x.o].id = id; return x; };
        switch (kind) {
            case 0: return nat();
            case 1: return s;
            case 2: { MV x = nat(); v = w.mk(MO::Arr); w.heap[v.o].f = {x}; return v; }
            case 3: v = w.mk(MO::Box); w.heap[v.o].f = {s}; return v;
            default: { MV x = nat(); v = w.mk(MO::Node); w.heap[v.o].f = {i, x, MV(), MV()}; return v; }
        }
    };
    auto line = [&](const std::vector<MV> &v) { W::D d{w.heap}; for (auto &x : v) { d.o += " "; d.go(x); } w.trace.push_back(d.o); };
    auto callText = [&](int at, const std::string &n, int k0) {
        Shape &s = sh[at];
        std::string r = strf("f%d(%s", at, n.c_str());
        for (int i = 0; i < s.params; ++i) r += ", " + text(s.kinds[12 + i], k0 + i);
        return r + ")";
    };
    std::string prog = "use array(\"any\") as arr\nstruct Quad { a: any b: any c: any d: any }\n";
    for (int at = 0; at < ns; ++at) {
        Shape &s = sh[at];
        prog += strf("func f%d(n: int", at);
        for (int i = 0; i < s.params; ++i) prog += strf(", p%d: any", i);
        prog += "): any {\n";
        for (int i = 0; i < s.locals; ++i) prog += strf("  l%d: any = ", i) + text(s.kinds[i], i) + "\n";
        prog += "  if (n <= 0) { junk(7) return " + text(s.kinds[3], 9) + " }\n";
        std::vector<std::string> parts;
        for (int i = 0; i < s.pre; ++i) parts.push_back(text(s.kinds[4 + i], 20 + i));
        parts.push_back(callText((at + 1) % ns, "n - 1", 40));
        for (int i = 0; i < s.post; ++i) parts.push_back(text(s.kinds[7 + i], 30 + i));
        std::string list;
        for (size_t i = 0; i < parts.size(); ++i) list += (i ? ", " : "") + (s.wrap == 4 ? strf("\"k%zu\", ", i) : std::string()) + parts[i];
        if (s.junkAt == 0) prog += "  junk(3)\n";
        switch (s.wrap) {
            case 0: prog += "  r: any = box(" + list + ")\n"; break;
            case 1: prog += "  r: any = new Quad{" + list + "}\n"; break;
            case 2: prog += "  r: any = arr(" + list + ")\n"; break;
            case 3: prog += "  hookall(" + list + ")\n"; break;
            default: prog += "  r: any = dict(" + list + ")\n"; break;
        }
        if (s.junkAt == 1) prog += "  junk(3)\n";
        std::string all = "n";
        for (int i = 0; i < s.params; ++i) all += strf(", p%d", i);
        for (int i = 0; i < s.locals; ++i) all += strf(", l%d", i);
        prog += "  hookall(" + all + ")\n";
        std::string ret = s.ret == 0 && s.params ? "p0" : s.ret == 1 && s.locals ? "l0" : s.ret == 2 && s.wrap != 3 ? "r" : text(s.kinds[11], 50);
        prog += "  return " + ret + "\n}\n";
    }
    prog += strf("n := 90\nhookall(%s, %s, %s)\n", text(sh[0].kinds[14], 1).c_str(), callText(0, std::to_string(depth), 40).c_str(), text(sh[0].kinds[15], 2).c_str());
    std::function<MV(int, int, const std::vector<MV> &)> call = [&](int at, int n, const std::vector<MV> &ps) -> MV {
        Shape &s = sh[at];
        std::vector<MV> ls, parts;
        for (int i = 0; i < s.locals; ++i) ls.push_back(value(s.kinds[i], n, i));
        if (n <= 0) return value(s.kinds[3], n, 9);
        for (int i = 0; i < s.pre; ++i) parts.push_back(value(s.kinds[4 + i], n, 20 + i));
        int to = (at + 1) % ns;
        std::vector<MV> args;
        for (int i = 0; i < sh[to].params; ++i) args.push_back(value(sh[to].kinds[12 + i], n, 40 + i));
        parts.push_back(call(to, n - 1, args));
        for (int i = 0; i < s.post; ++i) parts.push_back(value(s.kinds[7 + i], n, 30 + i));
        MV r;
        switch (s.wrap) {
            case 0: r = w.mk(MO::Box); w.heap[r.o].f = parts; break;
            case 1: r = w.mk(MO::Node); w.heap[r.o].f = parts; break;
            case 2: r = w.mk(MO::Arr); w.heap[r.o].f = parts; break;
            case 3: line(parts); break;
            default: r = w.mk(MO::Dict); for (size_t i = 0; i < parts.size(); ++i) w.heap[r.o].d[strf("k%zu", i)] = parts[i];
        }
        std::vector<MV> all(1);
        all[0].t = MV::Int;
        all[0].i = n;
        all.insert(all.end(), ps.begin(), ps.end());
        all.insert(all.end(), ls.begin(), ls.end());
        line(all);
        if (s.ret == 0 && s.params) return ps[0];
        if (s.ret == 1 && s.locals) return ls[0];
        if (s.ret == 2 && s.wrap != 3) return r;
        return value(s.kinds[11], n, 50);
    };
    std::vector<MV> top;
    top.push_back(value(sh[0].kinds[14], 90, 1));
    std::vector<MV> args;
    for (int i = 0; i < sh[0].params; ++i) args.push_back(value(sh[0].kinds[12 + i], 90, 40 + i));
    top.push_back(call(0, depth, args));
    top.push_back(value(sh[0].kinds[15], 90, 2));
    line(top);
    c.say(prog);
    c.nontrivial = depth >= 4;
    c.label(depth < 12 ? "depth:<12" : depth < 30 ? "depth:12-29" : "depth:30+");
    Host h;
    bindBox(h);
    h.mustCompile(prog);
    Thread t(h);
    t.start();
    drive(g, t);
    PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    compareTrace(w.trace, t.trace);
    t.destroy();
}
// Holders with many places: structs of many fields, arrays, dicts, natives, globals and the locals of a call.
// Each place gets, loses and passes on fresh values between collections.
void wide(Gen &g, Case &c) {
    W w(g);
    struct Hold { int kind, n, via; };   // kind: struct, array, dict, globals; via: a global, a field of another object, an element of an array
    int nh = (int)g.range(1, 3);
    std::vector<Hold> hs;
    std::string head = "use array(\"any\") as arr\nstruct Quad { a: any b: any c: any d: any }\nkeep := new Quad{null, null, null, null}\nhold := arr()\n", funcs, body;
    static const int sizes[] = {1, 3, 6, 9, 15, 17, 31, 33, 40, 63, 64, 65, 90, 100, 120, 127, 128, 129, 200, 255, 256, 300};
    for (int i = 0; i < nh; ++i) {
        Hold h;
        h.kind = (int)g.weighted({4, 2, 2, 2});
        h.n = g.coin() ? (int)g.range(1, 100) : sizes[g.below(22)];
        if (h.n > 120 && h.kind == 0) h.n = std::min(h.n, 119 + (int)g.below(2));
        h.via = h.kind == 3 ? 0 : (int)g.below(3);
        if (h.kind == 0) {
            head += strf("struct Wide%d {", i);
            for (int j = 0; j < h.n; ++j) head += strf(" f%d: any", j);
            head += " }\n";
        }
        std::string make;
        if (h.kind == 0) { make = strf("new Wide%d{", i); for (int j = 0; j < h.n; ++j) make += j ? ", null" : "null"; make += "}"; }
        else if (h.kind == 1) make = "arr()";
        else make = "dict()";
        std::string type = h.kind == 0 ? strf("Wide%d", i) : h.kind == 1 ? "arr" : "dict", at;
        if (h.kind == 3) { for (int j = 0; j < h.n; ++j) head += strf("g%d_%d: any = null\n", i, j); }
        else {
            if (h.via == 0) { head += strf("h%d := ", i) + make + "\n"; at = strf("h%d", i); }
            else if (h.via == 1) { head += strf("keep.%c = ", 'a' + i) + make + "\n"; at = strf("cast(keep.%c, %s)", 'a' + i, type.c_str()); }
            else { head += strf("while (arr_len(hold) <= %d) arr_push(hold, null)\nhold[%d] = ", i, i) + make + "\n"; at = strf("cast(hold[%d], %s)", i, type.c_str()); }
            head += strf("func at%d(): %s { return ", i, type.c_str()) + at + " }\n";
        }
        hs.push_back(h);
    }
    std::vector<std::map<int, MV>> val(nh);
    std::vector<int> len(nh, 0);
    for (int i = 0; i < nh; ++i) if (hs[i].kind == 1) len[i] = 0;
    // what reads a place, and what writes it
    auto read = [&](int h, int j) -> std::string {
        switch (hs[h].kind) {
            case 0: return strf("at%d().f%d", h, j);
            case 1: return strf("arr_get(at%d(), %d)", h, j);
            case 2: return strf("dict_get(at%d(), \"key%d\")", h, j);
            default: return strf("g%d_%d", h, j);
        }
    };
    std::set<std::pair<int, int>> setters;
    auto write = [&](int h, int j, const std::string &v) -> std::string {
        switch (hs[h].kind) {
            case 0:
                if (setters.insert({h, j}).second) funcs += strf("func set%d_%d(v: any): void { x := at%d() x.f%d = v }\n", h, j, h, j);
                return strf("set%d_%d(", h, j) + v + ")\n";
            case 1: return j >= len[h] ? strf("arr_push(at%d(), ", h) + v + ")\n" : strf("arr_set(at%d(), %d, ", h, j) + v + ")\n";
            case 2: return strf("dict_put(at%d(), strcat(\"key\", int_to_str(%d)), ", h, j) + v + ")\n";
            default: return strf("g%d_%d = ", h, j) + v + "\n";
        }
    };
    auto fresh = [&](MV &v) -> std::string {
        int id = ++w.ids;
        MV n, s;
        switch (g.below(5)) {
            case 0: v = w.mk(MO::Nat); w.heap[v.o].id = id; return strf("nat(%d)", id);
            case 1: v = MV(); v.t = MV::Str; v.s = strf("s%d", id); return strf("strcat(\"s\", int_to_str(%d))", id);
            case 2: n = w.mk(MO::Nat); w.heap[n.o].id = id; v = w.mk(MO::Arr); w.heap[v.o].f = {n}; return strf("arr(nat(%d))", id);
            case 3: s.t = MV::Str; s.s = strf("s%d", id); v = w.mk(MO::Box); w.heap[v.o].f = {s}; return strf("box(strcat(\"s\", int_to_str(%d)))", id);
            default: {
                MV q;
                n.t = MV::Int; n.i = id;
                q = w.mk(MO::Nat); w.heap[q.o].id = id;
                v = w.mk(MO::Node);
                w.heap[v.o].f = {n, MV(), MV(), q};
                return strf("new Quad{%d, null, null, nat(%d)}", id, id);
            }
        }
    };
    auto place = [&](int h) -> int {
        int n = hs[h].n;
        if (hs[h].kind == 1) n = std::min(n, len[h] + 1);
        return g.chance(1, 3) ? n - 1 : (int)g.below(n);
    };
    auto put = [&](int h, int j, const std::string &e, const MV &v) {
        body += write(h, j, e);
        val[h][j] = v;
        if (hs[h].kind == 1 && j >= len[h]) len[h] = j + 1;
    };
    int collections = 0, stores = 0;
    if (g.coin()) {
        // every place of one holder at once
        int h = (int)g.below(nh);
        MV v;
        for (int j = 0; j < hs[h].n; ++j) { std::string e = fresh(v); put(h, j, e, v); ++stores; }
    }
    auto ob = [&](int h, int j) { body += "hookall(" + read(h, j) + ")\n"; W::D d{w.heap}; d.o = " "; d.go(val[h].count(j) ? val[h][j] : MV()); w.trace.push_back(d.o); };
    int n = (int)g.range(4, 40);
    for (int i = 0; i < n; ++i) {
        int h = (int)g.below(nh);
        MV v;
        switch (g.weighted({5, 2, 2, 3, 1})) {
            case 0: { int j = place(h); std::string e = fresh(v); put(h, j, e, v); ++stores; break; }
            case 1: { body += strf("junk(%d)\n", (int)g.range(10, 40)); ++collections; break; }
            case 2: {
                // from one place to another, and then out of the first
                int j = place(h), h2 = (int)g.below(nh), j2 = place(h2);
                if (!val[h].count(j)) break;
                v = val[h][j];
                put(h2, j2, read(h, j), v);
                ++stores;
                if (g.coin() && !(h == h2 && j == j2)) { std::string e = fresh(v); put(h, j, e, v); }
                break;
            }
            case 3: { int j = place(h); if (val[h].count(j)) ob(h, j); break; }
            default: {
                // a call with many locals
                int k = (int)g.range(1, 60), at = (int)g.below(k);
                std::string f = strf("func many%d(): any {\n", i);
                std::vector<MV> vs(k);
                for (int j = 0; j < k; ++j) f += strf("  l%d: any = ", j) + fresh(vs[j]) + "\n";
                f += strf("  junk(12)\n  hookall(l%d, l%d, l0)\n  return l%d\n}\n", at, k - 1, at);
                funcs += f;
                W::D d{w.heap};
                for (auto *x : {&vs[at], &vs[k - 1], &vs[0]}) { d.o += " "; d.go(*x); }
                w.trace.push_back(d.o);
                int j = place(h);
                put(h, j, strf("many%d()", i), vs[at]);
                break;
            }
        }
    }
    body += "junk(40)\njunk(40)\n";
    for (int h = 0; h < nh; ++h) for (auto &x : val[h]) ob(h, x.first);
    std::string prog = head + funcs + body;
    c.say(prog);
    int most = 0;
    for (auto &h : hs) most = std::max(most, h.n);
    c.nontrivial = stores >= 3 && most >= 6;
    for (auto &h : hs) if (h.n >= 6) c.label(strf("wide:%s", h.kind == 0 ? "struct" : h.kind == 1 ? "array" : h.kind == 2 ? "dict" : "globals"));
    Host h;
    bindBox(h);
    h.mustCompile(prog);
    Thread t(h);
    t.start();
    drive(g, t, 1500);
    PBT_CHECK(t.error.empty(), "%s", t.error.c_str());
    compareTrace(w.trace, t.trace);
    t.destroy();
    t.ctx.check("thread context");
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C09";
    p.title = "Garbage collection never frees or alters a reachable value";
    p.assumptions = {"natives bound by the host mark what they hold"};
    Cfg cfg;
    cfg.garbage = true; cfg.maxStructs = 3; cfg.items = 12; cfg.hostCalls = true;
    p.families.push_back({"programs", "at least three objects were made or container operations done, and two observations", [=](Gen &g, Case &c) { program(g, c, cfg); }, 7000, 1200000});
    p.families.push_back({"graph", "at least two references were stored among at least eight objects", graph, 12000, 2500000});
    p.families.push_back({"frames", "the recursion is at least four calls deep", frames, 5000, 900000});
    p.families.push_back({"wide", "at least three values were stored and a holder has six or more places", wide, 3000, 600000});
    p.families.push_back({"crowd", "at least 100 objects are held by one container", crowd, 1500, 200000});
    p.families.push_back({"chain", "the chain has at least 100 elements", chain, 400, 60000});
    return run(argc, argv, p);
}
