// The reference interpreter and the host which runs programs on the implementation.
#include <algorithm>

#include "lang.h"
using pbt::Discard;
using pbt::strf;

namespace lang {

std::string quote(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c >= 32 && c < 127) r += (char)c;
        else r += strf("\\x%02x", c);
    }
    return r + "\"";
}
std::string fmtFloat(double d) {
    if (d != d) return "nan";
    return strf("%a", d);
}
std::string floatText(double d) {
    char buf[1600];
    for (int p = 1; p < 1100; p = p < 20 ? p + 1 : p + 40) {
        snprintf(buf, sizeof buf, "%.*f", p, d);
        if (strtod(buf, nullptr) == d) return buf;
    }
    return buf;
}

bool valEq(const Val &a, const Val &b) {
    if (a.t != b.t) return false;
    switch (a.t) {
        case Val::Nul: return true;
        case Val::Bool: case Val::Int: return a.i == b.i;
        case Val::Float: return a.f == b.f;
        case Val::Str: return *a.s == *b.s;
        case Val::Obj: return a.o == b.o;
    }
    return false;
}

// ---------------------------------------------------------------- dumps
// Values are written as trees with back references, in a form which does not depend on addresses.
static const int kMaxNodes = 300;

struct ModelDump {
    Machine &m;
    std::map<int, int> ids;
    int nodes = 0;
    void go(const Val &v, std::string &o) {
        if (++nodes > kMaxNodes) { o += "~"; return; }
        switch (v.t) {
            case Val::Nul: o += "null"; return;
            case Val::Bool: o += v.i ? "true" : "false"; return;
            case Val::Int: o += std::to_string(v.i); return;
            case Val::Float: o += "f" + fmtFloat(v.f); return;
            case Val::Str: o += quote(*v.s); return;
            case Val::Obj: break;
        }
        auto it = ids.find(v.o);
        if (it != ids.end()) { o += strf("#%d", it->second); return; }
        int id = (int)ids.size();
        ids[v.o] = id;
        o += strf("#%d", id);
        MObj &x = m.heap[v.o];
        switch (x.t) {
            case MObj::Nat: o += strf("<nat %lld>", (long long)x.id); return;
            case MObj::St: case MObj::Arr: {
                o += x.t == MObj::St ? "{" : "[";
                for (size_t i = 0; i < x.f.size(); ++i) { if (i) o += ","; go(x.f[i], o); }
                o += x.t == MObj::St ? "}" : "]";
                return;
            }
            case MObj::Dict: {
                std::vector<std::pair<std::string, size_t>> e;
                for (size_t i = 0; i < x.d.size(); ++i) {
                    std::string k;
                    go(x.d[i].first, k);
                    e.push_back({k, i});
                }
                std::sort(e.begin(), e.end());
                o += "dict{";
                for (auto &q : e) { o += q.first + ":"; go(x.d[q.second].second, o); o += ","; }
                o += "}";
                return;
            }
        }
    }
};
std::string Machine::dump(const Val &v) {
    ModelDump d{*this};
    std::string o;
    d.go(v, o);
    return o;
}
std::string Machine::dumpAll(const std::vector<Val> &v) {
    ModelDump d{*this};
    std::string o;
    for (auto &x : v) { o += " "; d.go(x, o); }
    return o;
}

struct RealDump {
    Thread &t;
    std::map<const void *, int> ids;
    int nodes = 0;
    void go(Tiny_Value v, std::string &o) {
        if (++nodes > kMaxNodes) { o += "~"; return; }
        const void *key;
        switch (v.type) {
            case TINY_VAL_NULL: o += "null"; return;
            case TINY_VAL_BOOL: o += v.boolean ? "true" : "false"; return;
            case TINY_VAL_INT: o += std::to_string(v.i); return;
            case TINY_VAL_FLOAT: o += "f" + fmtFloat(v.f); return;
            case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: o += quote(std::string(Tiny_ToString(v), Tiny_StringLen(v))); return;
            case TINY_VAL_STRUCT: key = v.obj; break;
            case TINY_VAL_NATIVE: case TINY_VAL_LIGHT_NATIVE: key = Tiny_ToAddr(v); break;
            default: o += strf("<kind %d>", v.type); return;
        }
        auto it = ids.find(key);
        if (it != ids.end()) { o += strf("#%d", it->second); return; }
        int id = (int)ids.size();
        ids[key] = id;
        o += strf("#%d", id);
        if (v.type == TINY_VAL_STRUCT) {
            o += "{";
            int n = shim_struct_count(v);
            for (int i = 0; i < n; ++i) { if (i) o += ","; go(Tiny_GetField(v, i), o); }
            o += "}";
            return;
        }
        const Tiny_NativeProp *prop = Tiny_GetProp(v);
        std::string name = prop && prop->name ? prop->name : "?";
        if (name == "nat") { o += strf("<nat %lld>", (long long)((NatRec *)Tiny_ToAddr(v))->id); return; }
        if (name == "array") {
            Array *a = (Array *)Tiny_ToAddr(v);
            o += "[";
            int n = ArrayLen(a);
            for (int i = 0; i < n; ++i) { if (i) o += ","; go(*ArrayGet(a, i), o); }
            o += "]";
            return;
        }
        if (name == "dict") {
            Dict *d = (Dict *)Tiny_ToAddr(v);
            std::vector<std::pair<std::string, Tiny_Value>> e;
            for (int i = 0; i < d->bucketCount; ++i) {
                Tiny_Value key = *ArrayGet(&d->keys, i);
                if (Tiny_IsNull(key)) continue;
                std::string k;
                go(key, k);
                e.push_back({k, key});
            }
            std::sort(e.begin(), e.end(), [](auto &x, auto &y) { return x.first < y.first; });
            o += "dict{";
            for (auto &q : e) {
                o += q.first + ":";
                const Tiny_Value *x = DictGet((Dict *)Tiny_ToAddr(v), q.second);
                if (x) go(*x, o); else o += "<missing>";
                o += ",";
            }
            o += "}";
            return;
        }
        o += "<" + name + ">";
    }
};
std::string Thread::dump(Tiny_Value v) {
    RealDump d{*this};
    std::string o;
    d.go(v, o);
    return o;
}
std::string Thread::dumpAll(const Tiny_Value *v, int n) {
    RealDump d{*this};
    std::string o;
    for (int i = 0; i < n; ++i) { o += " "; d.go(v[i], o); }
    return o;
}

// ---------------------------------------------------------------- reference interpreter
Val Machine::newObj(MObj::T t) {
    ++allocs;
    if (heap.size() > 20000) throw Discard{};
    heap.push_back({t});
    return Val::ob((int)heap.size() - 1);
}
void Machine::runItems(size_t from, size_t to) {
    for (size_t i = from; i < to; ++i) if (p.items[i].t == Item::IStmt) exec(p.items[i].s);
}
Val &Machine::slot(Var *v) {
    if (v->vs == VS::Global) return globals[v->slot];
    return fr->slots[v->slot];
}
Machine::Flow Machine::execList(std::vector<Stmt *> &b) {
    for (Stmt *s : b) {
        Flow f = exec(s);
        if (f != Next) return f;
    }
    return Next;
}
Machine::Flow Machine::exec(Stmt *s) {
    if (++steps > maxSteps) throw Discard{};
    cur = s;
    switch (s->k) {
        case SK::Raw: case SK::Const: return Next;
        case SK::Expr: eval(s->e); pop(1); return Next;
        case SK::Decl: { Val v = eval(s->e); pop(1); slot(s->v) = v; return Next; }
        case SK::Assign: {
            Expr *l = s->lhs;
            if (l->k == EK::Index) {
                Val a = eval(l->a[0]), i = eval(l->a[1]);
                Val v;
                if (s->op == "=") v = eval(s->e);
                else {
                    Val old = eval(l);
                    Val r = eval(s->e);
                    v = bin(s->op.substr(0, s->op.size() - 1), old, r);
                    pop(1);
                }
                pop(3);
                MObj &o = heap[a.o];
                if (o.t == MObj::Dict) {
                    for (auto &q : o.d) if (valEq(q.first, i)) { q.second = v; return Next; }
                    o.d.push_back({i, v});
                } else {
                    if (i.i < 0 || (size_t)i.i >= o.f.size()) throw Discard{};
                    o.f[i.i] = v;
                }
                seen["indexset"]++;
                return Next;
            }
            Val v;
            if (s->op == "=") { v = eval(s->e); }
            else {
                Val old = eval(l);
                Val r = eval(s->e);
                v = bin(s->op.substr(0, s->op.size() - 1), old, r);
                pop(1);
            }
            if (l->k == EK::Var) slot(l->v) = v;
            else {
                Val o = eval(l->a[0]);
                pop(1);
                heap[o.o].f[l->field] = v;
                seen["fieldset"]++;
            }
            pop(1);
            return Next;
        }
        case SK::If: {
            bool c = eval(s->e).i;
            pop(1);
            if (c) { seen["then"]++; return execList(s->body); }
            seen["else"]++;
            if (s->hasAlt) return execList(s->alt);
            return Next;
        }
        case SK::While:
            for (;;) {
                if (++steps > maxSteps) throw Discard{};
                cur = s;
                bool c = eval(s->e).i;
                pop(1);
                if (!c) return Next;
                seen["iter"]++;
                Flow f = execList(s->body);
                if (f == Brk) { seen["break"]++; return Next; }
                if (f == Cont) seen["continue"]++;
                if (f == Ret) { seen["retinloop"]++; return f; }
            }
        case SK::For:
            exec(s->init);
            for (;;) {
                if (++steps > maxSteps) throw Discard{};
                cur = s;
                bool c = eval(s->e).i;
                pop(1);
                if (!c) return Next;
                seen["iter"]++;
                Flow f = execList(s->body);
                if (f == Brk) { seen["break"]++; return Next; }
                if (f == Cont) seen["continue"]++;
                if (f == Ret) { seen["retinloop"]++; return f; }
                exec(s->step);
            }
        case SK::Block: return execList(s->body);
        case SK::Break: return Brk;
        case SK::Continue: return Cont;
        case SK::Return:
            if (s->e) { fr->ret = eval(s->e); pop(1); }
            else fr->ret = Val::null();
            return Ret;
    }
    return Next;
}

// Called with the arguments already accounted for on the stack.
Val Machine::call(Func *f, const std::vector<Val> &args) {
    Frame n;
    n.slots.resize(f->nslots);
    for (size_t i = 0; i < args.size(); ++i) n.slots[i] = args[i];
    int locals = f->nslots - (int)args.size();
    int saved = stack;
    push(locals);
    if (++depth > maxDepth) maxDepth = depth;
    if (depth > 45) throw Discard{};
    seen["call"]++;
    Frame *old = fr;
    Stmt *oldCur = cur;
    fr = &n;
    execList(f->body);
    fr = old;
    cur = oldCur;
    --depth;
    stack = saved;
    return n.ret;
}

static int64_t chk(bool overflow, int64_t v) {
    if (overflow) throw Discard{};
    return v;
}
Val Machine::bin(const std::string &op, const Val &a, const Val &b) {
    if (op == "==") return Val::b(valEq(a, b));
    if (op == "!=") return Val::b(!valEq(a, b));
    bool ints = a.t == Val::Int && b.t == Val::Int;
    if (op == "<" || op == ">" || op == "<=" || op == ">=") {
        bool r;
        if (ints) r = op == "<" ? a.i < b.i : op == ">" ? a.i > b.i : op == "<=" ? a.i <= b.i : a.i >= b.i;
        else {
            double x = a.t == Val::Int ? (double)a.i : a.f, y = b.t == Val::Int ? (double)b.i : b.f;
            r = op == "<" ? x < y : op == ">" ? x > y : op == "<=" ? x <= y : x >= y;
        }
        return Val::b(r);
    }
    if (ints) {
        int64_t x = a.i, y = b.i, r;
        if (op == "+") { bool o = __builtin_add_overflow(x, y, &r); return Val::n(chk(o, r)); }
        if (op == "-") { bool o = __builtin_sub_overflow(x, y, &r); return Val::n(chk(o, r)); }
        if (op == "*") { bool o = __builtin_mul_overflow(x, y, &r); return Val::n(chk(o, r)); }
        if (op == "/" || op == "%") {
            if (y == 0 || (x == INT64_MIN && y == -1)) throw Discard{};
            return Val::n(op == "/" ? x / y : x % y);
        }
        if (op == "&") return Val::n(x & y);
        if (op == "|") return Val::n(x | y);
        if (op == "<<") { if (x < 0 || y < 0 || y > 62 || (y && (x >> (63 - y)))) throw Discard{}; return Val::n(x << y); }
        if (op == ">>") { if (y < 0 || y > 63) throw Discard{}; return Val::n(x >> y); }
    }
    double x = a.t == Val::Int ? (double)a.i : a.f, y = b.t == Val::Int ? (double)b.i : b.f;
    if (op == "+") return Val::fl(x + y);
    if (op == "-") return Val::fl(x - y);
    if (op == "*") return Val::fl(x * y);
    if (op == "/") return Val::fl(x / y);
    fprintf(stderr, "model: bad operator %s\n", op.c_str());
    abort();
}

Val Machine::eval(Expr *e) {
    if (++steps > maxSteps) throw Discard{};
    switch (e->k) {
        case EK::Int: case EK::Char: case EK::Hex: push(1); return Val::n(e->i);
        case EK::Float: push(1); return Val::fl(e->f);
        case EK::Str: push(1); return Val::st(e->s);
        case EK::Bool: push(1); return Val::b(e->i);
        case EK::Null: push(1); return Val::null();
        case EK::Var: {
            if (e->v->vs == VS::Const) return eval(e->v->init);
            push(1);
            return slot(e->v);
        }
        case EK::Paren: case EK::Cast: return eval(e->a[0]);
        case EK::Un: {
            Val v = eval(e->a[0]);
            if (e->s == "!") return Val::b(!v.i);
            if (v.t == Val::Int) { if (v.i == INT64_MIN) throw Discard{}; return Val::n(-v.i); }
            return Val::fl(-v.f);
        }
        case EK::Bin: {
            if (e->s == "&&" || e->s == "||") {
                Val a = eval(e->a[0]);
                if ((e->s == "&&") != (bool)a.i) { seen["short"]++; return a; }
                pop(1);
                return eval(e->a[1]);
            }
            Val a = eval(e->a[0]), b = eval(e->a[1]);
            pop(1);
            if ((a.t == Val::Int) != (b.t == Val::Int)) seen["mixed"]++;
            seen["bin"]++;
            return bin(e->s, a, b);
        }
        case EK::Tern: {
            bool c = eval(e->a[0]).i;
            pop(1);
            return eval(e->a[c ? 1 : 2]);
        }
        case EK::Call: {
            std::vector<Val> args;
            if (e->viaHost) push(1 + (int)e->a.size());
            for (Expr *x : e->a) args.push_back(eval(x));
            Val r = call(e->fn, args);
            pop((int)args.size());
            if (e->viaHost) { pop(1 + (int)e->a.size()); seen["viahost"]++; }
            push(1);
            return r;
        }
        case EK::New: {
            std::vector<Val> f;
            for (Expr *x : e->a) f.push_back(eval(x));
            pop((int)f.size());
            Val o = newObj(MObj::St);
            heap[o.o].f = f;
            push(1);
            seen["new"]++;
            return o;
        }
        case EK::Dot: {
            Val o = eval(e->a[0]);
            seen["get"]++;
            return heap[o.o].f[e->field];
        }
        case EK::Index: {
            Val a = eval(e->a[0]), i = eval(e->a[1]);
            pop(1);
            if (a.t == Val::Str) {
                if (i.i < 0 || (size_t)i.i >= a.s->size()) throw Discard{};
                return Val::n((signed char)(*a.s)[i.i]);
            }
            MObj &o = heap[a.o];
            if (o.t == MObj::Dict) {
                for (auto &q : o.d) if (valEq(q.first, i)) return q.second;
                return Val::null();
            }
            if (i.i < 0 || (size_t)i.i >= o.f.size()) throw Discard{};
            seen["indexget"]++;
            return o.f[i.i];
        }
        case EK::FCall: {
            std::vector<Val> args;
            for (Expr *x : e->a) args.push_back(eval(x));
            Val r = builtin(e, args);
            pop((int)args.size());
            push(1);
            return r;
        }
    }
    return Val::null();
}

Val Machine::builtin(Expr *e, std::vector<Val> &a) {
    const std::string &n = e->s;
    seen["foreign"]++;
    if (n.empty()) {
        Val o = newObj(MObj::Arr);
        heap[o.o].f = a;
        return o;
    }
    auto idx = [&](const Val &i, size_t lim) {
        if (i.i < 0 || (size_t)i.i >= lim) throw Discard{};
        return (size_t)i.i;
    };
    if (n[0] == '@') {
        std::vector<Val> &f = heap[a[0].o].f;
        std::string op = n.substr(1);
        seen["array"]++;
        if (op == "len") return Val::n((int64_t)f.size());
        if (op == "get") return f[idx(a[1], f.size())];
        if (op == "set") { f[idx(a[1], f.size())] = a[2]; return Val::null(); }
        if (op == "push") { if (f.size() > 500) throw Discard{}; f.push_back(a[1]); return Val::null(); }
        if (op == "pop") { if (f.empty()) throw Discard{}; Val v = f.back(); f.pop_back(); return v; }
        if (op == "shift") { if (f.empty()) throw Discard{}; Val v = f.front(); f.erase(f.begin()); return v; }
        if (op == "clear") { f.clear(); return Val::null(); }
        if (op == "resize_fill") { f.resize(idx(a[1], 100000), a[2]); return Val::null(); }
        if (op == "insert") { size_t i = idx(a[1], f.size()); f.insert(f.begin() + i, a[2]); return Val::null(); }
        if (op == "remove") { size_t i = idx(a[1], f.size()); f.erase(f.begin() + i); return Val::null(); }
        if (op == "sort") { std::stable_sort(f.begin(), f.end(), [](const Val &x, const Val &y) { return x.i < y.i; }); return Val::null(); }
    }
    if (n == "dict") {
        Val o = newObj(MObj::Dict);
        for (size_t i = 0; i + 1 < a.size(); i += 2) {
            bool found = false;
            for (auto &q : heap[o.o].d) if (valEq(q.first, a[i])) { q.second = a[i + 1]; found = true; }
            if (!found) heap[o.o].d.push_back({a[i], a[i + 1]});
        }
        return o;
    }
    if (n.compare(0, 5, "dict_") == 0) {
        auto &d = heap[a[0].o].d;
        size_t at = d.size();
        if (a.size() > 1) for (size_t i = 0; i < d.size(); ++i) if (valEq(d[i].first, a[1])) at = i;
        seen["dict"]++;
        if (n == "dict_put") { if (at < d.size()) d[at].second = a[2]; else d.push_back({a[1], a[2]}); return Val::null(); }
        if (n == "dict_get") return at < d.size() ? d[at].second : Val::null();
        if (n == "dict_exists") return Val::b(at < d.size());
        if (n == "dict_remove") { if (at < d.size()) d.erase(d.begin() + at); return Val::null(); }
        if (n == "dict_clear") { d.clear(); return Val::null(); }
    }
    if (n == "emit") {
        if (trace.size() > 3000) throw Discard{};
        trace.push_back("emit" + dumpAll(a));
        return Val::null();
    }
    if (n == "ti" || n == "tf" || n == "tb" || n == "ts") {
        if (trace.size() > 3000) throw Discard{};
        trace.push_back(n + dumpAll(a));
        return a[0];
    }
    if (n == "nat") { Val o = newObj(MObj::Nat); heap[o.o].id = a[0].i; return o; }
    if (n == "nat_id") return Val::n(heap[a[0].o].id);
    if (n == "here") { hereStmts.push_back(cur); return Val::n((int64_t)hereStmts.size()); }
    if (n == "inp") return Val::n(inputValue(input, a[0].i));
    if (n == "junk") return Val::null();
    if (n == "strlen") return Val::n((int64_t)a[0].s->size());
    if (n == "stridx") return Val::n((signed char)(*a[0].s)[idx(a[1], a[0].s->size())]);
    if (n == "strchr") {
        int c = (int)a[1].i;
        if ((unsigned char)c == 0 || a[1].i < 0 || a[1].i > 255) throw Discard{};
        size_t q = a[0].s->find((char)c);
        return Val::n(q == std::string::npos ? -1 : (int64_t)q);
    }
    if (n == "strcat") {
        std::string r;
        for (auto &x : a) r += *x.s;
        if (r.size() > 20000) throw Discard{};
        ++allocs;
        return Val::st(r);
    }
    if (n == "int_to_str") { ++allocs; return Val::st(std::to_string(a[0].i)); }
    if (n == "substr") {
        int64_t s = a[1].i, t = a[2].i, len = (int64_t)a[0].s->size();
        if (t == -1) t = len;
        if (s < 0 || s > t || t > len) throw Discard{};
        ++allocs;
        return Val::st(a[0].s->substr(s, t - s));
    }
    if (n == "int") {
        double d = a[0].f;
        if (!(d > -9.2e18 && d < 9.2e18)) throw Discard{};
        return Val::n((int64_t)d);
    }
    if (n == "float") return Val::fl((double)a[0].i);
    fprintf(stderr, "model: no builtin %s\n", n.c_str());
    abort();
}

// ---------------------------------------------------------------- real implementation
thread_local bool gInTiny = false;
int64_t inputValue(int64_t seed, int64_t k) { return (int64_t)(pbt::mix((uint64_t)seed * 1000 + k) % 9); }
struct Outside { bool was = gInTiny; Outside() { gInTiny = false; } ~Outside() { gInTiny = was; } };
static void *ctxAlloc(void *ptr, size_t size, void *ud) {
    Outside outside;
    Ctx *c = (Ctx *)ud;
    ++c->calls;
    size_t old = 0;
    if (ptr) {
        auto it = c->live.find(ptr);
        if (it == c->live.end()) {
            if (c->error.empty()) c->error = strf("a block which this context does not own was %s", size ? "resized" : "freed");
            return size ? malloc(size) : nullptr;
        }
        old = it->second;
        if (size == 0) {
            c->live.erase(it);
            c->cur -= old;
            c->give(ptr);
            return nullptr;
        }
    } else if (size == 0) {
        return nullptr;
    }
    if (c->cur + size > c->cap) {
        fprintf(stderr, "memory limit of %zu bytes exceeded (%zu requested)\n", c->cap, size);
        abort();
    }
    void *n = c->take(size);
    memset(n, 0xA7, size);
    if (ptr) {
        memcpy(n, ptr, old < size ? old : size);
        c->live.erase(ptr);
        c->cur -= old;
        c->give(ptr);
    }
    c->live[n] = size;
    c->cur += size;
    c->total += size;
    if (c->cur > c->peak) c->peak = c->cur;
    return n;
}
Tiny_Context Ctx::ctx() { return Tiny_Context{ctxAlloc, this}; }
Ctx::~Ctx() { for (auto &b : live) give(b.first); }
void *Ctx::take(size_t n) {
    if (!packed) return malloc(n);
    if (!pool) { pool.reset(new char[kPool]); low = kPool; }
    // aligned for any object which fits into the block
    size_t need = n >= 16 ? (n + 7) & ~(size_t)7 : n, al = n >= 16 ? 16 : n >= 8 ? 8 : n >= 4 ? 4 : n >= 2 ? 2 : 1;
    if (need + 16 > low) return malloc(n);
    size_t at = (size_t)(pool.get() + low - need) & ~(al - 1);
    low = at - (size_t)pool.get();
    return (void *)at;
}
void Ctx::give(void *p) {
    if (pool && (char *)p >= pool.get() && (char *)p < pool.get() + kPool) { memset(p, 0xE9, 1); return; }
    free(p);
}
void Ctx::check(const char *what) { if (!error.empty()) pbt::fail(std::string(what) + ": " + error); }

Thread &Thread::of(Tiny_StateThread *t) { gInTiny = false; return *(Thread *)t->userdata; }

static void natMark(void *p) { NatRec *n = (NatRec *)p; ++n->marked; }
static void natFinal(Tiny_Context *c, void *p) {
    NatRec *n = (NatRec *)p;
    Thread &t = *n->thread;
    if (n->freed++ && t.error.empty()) t.error = strf("native %lld finalized twice", (long long)n->id);
    if (c->userdata != &t.ctx && t.error.empty()) t.error = "finalizer called with another context";
    t.natFreed++;
}
static const Tiny_NativeProp kNatProp = {"nat", natMark, natFinal};

static void add(Thread &t, const std::string &s) {
    if ((int)t.trace.size() >= t.maxTrace) { if (t.error.empty()) t.error = "the program did not stop"; t.t->pc = -1; return; }
    t.trace.push_back(s);
    if (t.onForeign) t.onForeign(t);
}
static Tiny_Value fEmit(Tiny_StateThread *st, const Tiny_Value *a, int n) { Thread &t = Thread::of(st); add(t, "emit" + t.dumpAll(a, n)); return Tiny_Null; }
static Tiny_Value fTi(Tiny_StateThread *st, const Tiny_Value *a, int n) { Thread &t = Thread::of(st); add(t, "ti" + t.dumpAll(a, n)); return a[0]; }
static Tiny_Value fTf(Tiny_StateThread *st, const Tiny_Value *a, int n) { Thread &t = Thread::of(st); add(t, "tf" + t.dumpAll(a, n)); return a[0]; }
static Tiny_Value fTb(Tiny_StateThread *st, const Tiny_Value *a, int n) { Thread &t = Thread::of(st); add(t, "tb" + t.dumpAll(a, n)); return a[0]; }
static Tiny_Value fTs(Tiny_StateThread *st, const Tiny_Value *a, int n) { Thread &t = Thread::of(st); add(t, "ts" + t.dumpAll(a, n)); return a[0]; }
static Tiny_Value fNat(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    Thread &t = Thread::of(st);
    t.nats.emplace_back(new NatRec{Tiny_ToInt(a[0]), &t});
    return Tiny_NewNative(st, t.nats.back().get(), &kNatProp);
}
static Tiny_Value fNatId(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    Thread &t = Thread::of(st);
    NatRec *r = (NatRec *)Tiny_ToAddr(a[0]);
    if (r->freed && t.error.empty()) t.error = strf("native %lld was finalized while the program could still use it", (long long)r->id);
    return Tiny_NewInt(r->id);
}
static Tiny_Value fHere(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    Thread &t = Thread::of(st);
    const char *f = nullptr;
    int line = -1;
    Tiny_GetExecutingFileLine(st, &f, &line);
    t.hereLines.push_back({f ? f : "(null)", line});
    return Tiny_NewInt((int64_t)t.hereLines.size());
}
static Tiny_Value fInp(Tiny_StateThread *st, const Tiny_Value *a, int n) { return Tiny_NewInt(inputValue(Thread::of(st).input, Tiny_ToInt(a[0]))); }
static Tiny_Value fJunk(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    for (int64_t i = 0; i < Tiny_ToInt(a[0]); ++i) {
        if (i % 2) Tiny_NewStringCopy(st, "junk junk junk", 14);
        else fNat(st, a, 1);
    }
    return Tiny_Null;
}
static Tiny_Value fHook(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    Thread &t = Thread::of(st);
    return t.hook ? t.hook(t, a, n) : Tiny_Null;
}
static Tiny_Value fHc(Tiny_StateThread *st, const Tiny_Value *a, int n) {
    int i = Tiny_GetFunctionIndex(st->state, Tiny_ToString(a[0]));
    return Tiny_CallFunction(st, i, a + 1, n - 1);
}

void bindHost(Tiny_State *s) {
    Tiny_RegisterType(s, "Nat");
    Tiny_BindFunction(s, "emit(...): void", fEmit);
    Tiny_BindFunction(s, "ti(int): int", fTi);
    Tiny_BindFunction(s, "tf(float): float", fTf);
    Tiny_BindFunction(s, "tb(bool): bool", fTb);
    Tiny_BindFunction(s, "ts(str): str", fTs);
    Tiny_BindFunction(s, "nat(int): Nat", fNat);
    Tiny_BindFunction(s, "nat_id(Nat): int", fNatId);
    Tiny_BindFunction(s, "here(): int", fHere);
    Tiny_BindFunction(s, "junk(int): void", fJunk);
    Tiny_BindFunction(s, "inp(int): int", fInp);
    Tiny_BindFunction(s, "hook(...): any", fHook);
    Tiny_BindFunction(s, "hc(str, ...): any", fHc);
    Tiny_BindConstInt(s, "KI", 70000);
    Tiny_BindConstFloat(s, "KF", 0.1);
    Tiny_BindConstBool(s, "KB", true);
    Tiny_BindConstString(s, "KS", "host string");
}

Host::Host(bool standard) {
    state = Tiny_CreateStateWithContext(stateCtx.ctx());
    if (standard) {
        Tiny_BindStandardArray(state);
        Tiny_BindStandardDict(state);
        Tiny_BindStandardLib(state);
    }
    bindHost(state);
}
Host::~Host() { if (state) Tiny_DeleteState(state); }
Tiny_CompileResult Host::compile(const std::string &text, const char *name) { return Tiny_CompileString(state, name, text.c_str()); }
void Host::mustCompile(const std::string &text, const char *name) {
    Tiny_CompileResult r = compile(text, name);
    if (r.type != TINY_COMPILE_SUCCESS) pbt::fail(strf("a valid program is rejected: %.300s", r.error.msg));
}

Thread::Thread(Host &h) : h(h), t(new Tiny_StateThread) {
    memset((void *)t.get(), 0xA7, sizeof *t);
    Tiny_InitThreadWithContext(t.get(), h.state, ctx.ctx());
    t->userdata = this;
}
Thread::~Thread() {
    if (!destroyed && !std::uncaught_exceptions()) destroy();
}
void Thread::start() { Tiny_StartThread(t.get()); }
void Thread::run() { Tiny_Run(t.get()); }
bool Thread::step() { return Tiny_ExecuteCycle(t.get()); }
void Thread::destroy() {
    if (destroyed) return;
    destroyed = true;
    Tiny_DestroyThread(t.get());
}
std::string Thread::global(const std::string &name) {
    int i = Tiny_GetGlobalIndex(h.state, name.c_str());
    if (i < 0) return "(no such global)";
    return dump(Tiny_GetGlobal(t.get(), i));
}

void compareTrace(const std::vector<std::string> &want, const std::vector<std::string> &got, const char *what) {
    size_t n = std::min(want.size(), got.size());
    for (size_t i = 0; i < n; ++i)
        if (want[i] != got[i]) pbt::fail(strf("%s entry %zu is\n  %.600s\nbut should be\n  %.600s", what, i, got[i].c_str(), want[i].c_str()));
    if (want.size() != got.size())
        pbt::fail(strf("%s has %zu entries instead of %zu (%s: %.400s)", what, got.size(), want.size(), got.size() < want.size() ? "first missing" : "first extra",
                       got.size() < want.size() ? want[n].c_str() : got[n].c_str()));
}
void compareGlobals(Machine &m, Thread &t) {
    for (Var *v : m.p.globals) {
        std::string want = m.dump(m.globals[v->slot]), got = t.global(v->name);
        if (want != got) pbt::fail(strf("global %s ends as\n  %.600s\nbut should be\n  %.600s", v->name.c_str(), got.c_str(), want.c_str()));
    }
    if (!t.error.empty()) pbt::fail(t.error);
}

void Diff::make(pbt::Gen &g, pbt::Case &c, const Cfg &cfg, bool randomLayout) {
    generate(g, cfg, p);
    Layout l;
    if (randomLayout) l.g = &g;
    text = print(p, l);
    c.say(text.text);
    m.reset(new Machine(p));
    m->run();
    for (const char *k : {"bin", "mixed", "short", "new", "fieldset", "indexset", "array", "dict", "call", "viahost", "iter", "break", "continue", "retinloop", "then", "else"})
        if (n(k)) c.label(std::string("ran:") + k);
    if (m->maxDepth > 3) c.label("ran:deep-calls");
}
void Diff::check(Thread &t) {
    compareTrace(m->trace, t.trace);
    compareGlobals(*m, t);
}

}  // namespace lang
