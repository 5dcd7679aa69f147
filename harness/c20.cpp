#include "cuts.h"
#include "vals.h"
using namespace pbt;
using namespace lang;

namespace {
struct Ins {
    int pc = 0, next = 0, line = 0;
    std::string file, op, arg;   // arg: everything behind the name of the operation
};
std::string hex(const std::string &s) { return quote(s.size() > 300 ? s.substr(0, 300) : s); }
int intAt(const Ins &i, const std::string &s, size_t &p) {
    char *e = nullptr;
    long v = strtol(s.c_str() + p, &e, 10);
    PBT_CHECK(e && e != s.c_str() + p, "%d: %s %s lacks an operand", i.pc, i.op.c_str(), hex(i.arg).c_str());
    p = e - s.c_str();
    return (int)v;
}
int first(const Ins &i) { size_t p = 0; return intAt(i, i.arg, p); }
struct Call { int nargs, index, target; };
Call call(const Ins &i) {
    size_t p = 0;
    Call c;
    c.nargs = intAt(i, i.arg, p);
    c.index = intAt(i, i.arg, p);
    PBT_CHECK(i.arg.compare(p, 2, " (") == 0, "%d: CALL %s", i.pc, hex(i.arg).c_str());
    p += 2;
    c.target = intAt(i, i.arg, p);
    return c;
}
std::string callee(const Ins &i, int &nargs) {
    size_t p = i.arg.rfind('(');
    PBT_CHECK(p != std::string::npos, "%d: CALLF %s", i.pc, hex(i.arg).c_str());
    size_t q = p + 1;
    nargs = intAt(i, i.arg, q);
    return i.arg.substr(0, p);
}
std::string text(const Ins &i) {  // of PUSH_STRING n ("text")
    size_t p = i.arg.find("(\"");
    PBT_CHECK(p != std::string::npos && i.arg.size() >= p + 4 && i.arg.compare(i.arg.size() - 2, 2, "\")") == 0, "%d: %s %s", i.pc, i.op.c_str(), hex(i.arg).c_str());
    return i.arg.substr(p + 2, i.arg.size() - p - 4);
}
const size_t ROOM = 70000;

// Everything from the start to the end.
std::map<int, Ins> walk(const Tiny_State *st) {
    std::map<int, Ins> r;
    std::vector<char> buf(ROOM);
    int pc = 0;
    for (;;) {
        Ins i;
        i.pc = pc;
        memset(buf.data(), 0x55, 64);
        bool ok = Tiny_DisasmOne(st, &pc, buf.data(), buf.size());
        PBT_CHECK(ok, "the instruction at %d is not decodable: %s", i.pc, hex(buf.data()).c_str());
        PBT_CHECK(memchr(buf.data(), 0, buf.size()), "the text of %d has no end", i.pc);
        std::string s = buf.data(), head = strf("%d (", i.pc);
        size_t tab = s.find(")\t"), colon = tab == std::string::npos ? tab : s.rfind(':', tab);
        PBT_CHECK(s.compare(0, head.size(), head) == 0 && tab != std::string::npos && colon != std::string::npos, "the text at %d is %s", i.pc, hex(s).c_str());
        i.file = s.substr(head.size(), colon - head.size());
        i.line = atoi(s.c_str() + colon + 1);
        std::string body = s.substr(tab + 2);
        size_t sp = body.find(' ');
        i.op = body.substr(0, sp);
        i.arg = sp == std::string::npos ? "" : body.substr(sp + 1);
        PBT_CHECK(!i.op.empty(), "nothing is shown at %d", i.pc);
        i.next = pc;
        PBT_CHECK(pc == -1 || pc > i.pc, "the instruction after %d is %d", i.pc, pc);
        r[i.pc] = i;
        if (pc == -1) break;
        PBT_CHECK(r.size() < 2000000, "no end");
    }
    int out = -1;
    char small[64];
    PBT_CHECK(!Tiny_DisasmOne(st, &out, small, sizeof small), "position -1 is disassembled: %s", small);
    return r;
}
void targets(const std::map<int, Ins> &w) {
    for (auto &q : w) {
        const Ins &i = q.second;
        int t = -1;
        if (i.op == "GOTO" || i.op == "GOTOZ") t = first(i);
        else if (i.op == "CALL") t = call(i).target;
        else continue;
        auto it = w.find(t);
        PBT_CHECK(it != w.end(), "%d: %s %s leads to %d which is not the start of an instruction", i.pc, i.op.c_str(), i.arg.c_str(), t);
        PBT_CHECK(it->second.op.compare(0, 10, "MISALIGNED") != 0, "%d: %s %s leads into padding", i.pc, i.op.c_str(), i.arg.c_str());
    }
}
bool same(const Tiny_Value &a, const Tiny_Value &b) {
    if (a.type != b.type) return false;
    return a.type == TINY_VAL_NULL || (a.type == TINY_VAL_BOOL ? a.boolean == b.boolean : a.i == b.i);
}
// One cycle does what the text shows.
void lockstep(Thread &t, const std::map<int, Ins> &w, std::set<std::string> &ops, uint64_t maxSteps) {
    Tiny_StateThread *T = t.t.get();
    for (uint64_t n = 0;; ++n) {
        if (n > maxSteps) { t.run(); return; }
        int pc = T->pc, sp = T->sp, fp = T->fp, fc = T->fc;
        if (pc < 0) { PBT_CHECK(!t.step(), "a finished thread goes on"); return; }
        auto it = w.find(pc);
        PBT_CHECK(it != w.end(), "an instruction at %d is executed, which is not the start of one that is shown", pc);
        const Ins &i = it->second;
        const char *file;
        int line;
        Tiny_GetExecutingFileLine(T, &file, &line);
        PBT_CHECK(line == i.line && (!file || i.file == file), "at %d the line is %s:%d but %s:%d is shown", pc, file ? file : "?", line, i.file.c_str(), i.line);
        Tiny_Value top = sp > 0 ? T->stack[sp - 1] : Tiny_Null, under = sp > 1 ? T->stack[sp - 2] : Tiny_Null;
        Tiny_Value field = Tiny_Null;
        if (i.op == "STRUCT_GET") { PBT_CHECK(sp > 0 && top.type == TINY_VAL_STRUCT, "%d: STRUCT_GET of something else", pc); field = Tiny_GetField(top, first(i)); }
        size_t traced = t.trace.size();
        ops.insert(i.op);
        t.step();
        const Tiny_Value now = T->sp > 0 ? T->stack[T->sp - 1] : Tiny_Null;
        auto is = [&](bool ok, const char *what) { PBT_CHECK(ok, "%d shows %s %s but %s", pc, i.op.c_str(), hex(i.arg).c_str(), what); };
        auto flow = [&](int to, int by) {
            is(T->pc == to, strf("execution goes on at %d instead of %d", T->pc, to).c_str());
            is(T->sp == sp + by, strf("the stack changes by %d instead of %d", T->sp - sp, by).c_str());
            is(T->fp == fp && T->fc == fc, "a call or return happens");
        };
        auto push = [&](Tiny_Value v) { flow(i.next, 1); is(same(now, v), strf("%s is pushed", t.dump(now).c_str()).c_str()); };
        if (i.op == "PUSH_NULL") push(Tiny_Null);
        else if (i.op == "PUSH_NULL_N") { flow(i.next, first(i)); for (int k = sp; k < T->sp; ++k) is(Tiny_IsNull(T->stack[k]), "something else is pushed"); }
        else if (i.op == "PUSH_TRUE") push(Tiny_NewBool(true));
        else if (i.op == "PUSH_FALSE") push(Tiny_NewBool(false));
        else if (i.op == "PUSH_0") push(Tiny_NewInt(0));
        else if (i.op == "PUSH_1") push(Tiny_NewInt(1));
        else if (i.op == "PUSH_CHAR") {
            flow(i.next, 1);
            is(now.type == TINY_VAL_INT && (i.arg.size() == 3 ? (unsigned char)i.arg[1] == (unsigned char)now.i : now.i == 0), strf("%s is pushed", t.dump(now).c_str()).c_str());
        }
        else if (i.op == "PUSH_INT") { char *e; push(Tiny_NewInt(strtoll(i.arg.c_str(), &e, 10))); is(!*e, "that is not a number"); }
        else if (i.op == "PUSH_FLOAT") { flow(i.next, 1); is(now.type == TINY_VAL_FLOAT && strf("%g", now.f) == i.arg, strf("%s is pushed", t.dump(now).c_str()).c_str()); }
        else if (i.op == "PUSH_STRING" || i.op == "PUSH_STRING_FF") { flow(i.next, 1); is(now.type == TINY_VAL_CONST_STRING && text(i) == now.cstr, strf("%s is pushed", t.dump(now).c_str()).c_str()); }
        else if (i.op == "PUSH_STRUCT") { int k = first(i); flow(i.next, 1 - k); is(now.type == TINY_VAL_STRUCT && shim_struct_count(now) == k, "no such struct is pushed"); }
        else if (i.op == "STRUCT_GET") { flow(i.next, 0); is(same(now, field), "the value is another one"); }
        else if (i.op == "STRUCT_SET") { flow(i.next, -2); is(top.type == TINY_VAL_STRUCT && same(Tiny_GetField(top, first(i)), under), "the field has another value"); }
        else if (i.op == "ADD" || i.op == "SUB" || i.op == "MUL" || i.op == "DIV" || i.op == "MOD" || i.op == "AND" || i.op == "OR" || i.op == "SHIFT_LEFT" || i.op == "SHIFT_RIGHT") {
            flow(i.next, -1);
            if (under.type == TINY_VAL_INT && top.type == TINY_VAL_INT) {
                int64_t a = under.i, b = top.i, r = 0;
                uint64_t ua = a, ub = b;
                if (i.op == "ADD") r = ua + ub;
                else if (i.op == "SUB") r = ua - ub;
                else if (i.op == "MUL") r = ua * ub;
                else if (i.op == "DIV") r = a / b;
                else if (i.op == "MOD") r = a % b;
                else if (i.op == "AND") r = a & b;
                else if (i.op == "OR") r = a | b;
                else if (i.op == "SHIFT_LEFT") r = (int64_t)(ua << ub);
                else r = a >> b;
                is(now.type == TINY_VAL_INT && now.i == r, strf("the result is %s", t.dump(now).c_str()).c_str());
            } else is(now.type == TINY_VAL_FLOAT, "the result is no float");
        }
        else if (i.op == "LT" || i.op == "LTE" || i.op == "GT" || i.op == "GTE") {
            flow(i.next, -1);
            is(now.type == TINY_VAL_BOOL, "the result is no truth value");
            if (under.type == TINY_VAL_INT && top.type == TINY_VAL_INT) {
                int64_t a = under.i, b = top.i;
                bool r = i.op == "LT" ? a < b : i.op == "LTE" ? a <= b : i.op == "GT" ? a > b : a >= b;
                is(now.boolean == r, "the comparison has the opposite result");
            }
        }
        else if (i.op == "EQU") { flow(i.next, -1); is(now.type == TINY_VAL_BOOL, "the result is no truth value"); }
        else if (i.op == "LOG_NOT") { flow(i.next, 0); is(top.type == TINY_VAL_BOOL && now.type == TINY_VAL_BOOL && now.boolean != top.boolean, "the result is not the opposite"); }
        else if (i.op == "ADD1") { flow(i.next, 0); is(now.type == TINY_VAL_INT && (uint64_t)now.i == (uint64_t)top.i + 1, "the result is not one more"); }
        else if (i.op == "SUB1") { flow(i.next, 0); is(now.type == TINY_VAL_INT && (uint64_t)now.i == (uint64_t)top.i - 1, "the result is not one less"); }
        else if (i.op == "SET") { flow(i.next, -1); is(same(Tiny_GetGlobal(T, first(i)), top), "the global has another value"); }
        else if (i.op == "GET") push(Tiny_GetGlobal(T, first(i)));
        else if (i.op == "GETLOCAL" || i.op == "GETLOCAL_W") push(T->stack[fp + first(i)]);
        else if (i.op == "SETLOCAL") { flow(i.next, -1); is(same(T->stack[fp + first(i)], top), "the local has another value"); }
        else if (i.op == "GOTO") flow(first(i), 0);
        else if (i.op == "GOTOZ") { is(top.type == TINY_VAL_BOOL, "the condition is no truth value"); flow(top.boolean ? i.next : first(i), -1); }
        else if (i.op == "CALL") {
            Call k = call(i);
            is(T->pc == k.target, strf("execution goes on at %d", T->pc).c_str());
            is(T->fc == fc + 1 && T->frames[fc].nargs == k.nargs && T->frames[fc].pc == i.next, "the call is another one");
        }
        else if (i.op == "RETURN" || i.op == "RETURN_VALUE") {
            is(T->fc == fc - 1, "nothing returns");
            is(same(T->retVal, i.op == "RETURN" ? Tiny_Null : top), strf("%s is returned", t.dump(T->retVal).c_str()).c_str());
        }
        else if (i.op == "CALLF") {
            int k;
            std::string name = callee(i, k);
            flow(i.next, -k);
            if (t.trace.size() == traced + 1) {
                std::string head = t.trace.back().substr(0, t.trace.back().find(' '));
                is(head == name, strf("%s was called", head.c_str()).c_str());
            }
        }
        else if (i.op == "GET_RETVAL") push(T->retVal);
        else if (i.op == "HALT") is(T->pc == -1, "execution goes on");
    }
}
void labels(Case &c, const std::set<std::string> &ops) { for (auto &o : ops) c.label("ran:" + o); }

// Code in front, so that positions leave two bytes.
void padding(Gen &g, Case &c, Host &h) {
    if (!g.chance(1, 40)) return;
    int n = (int)g.range(1000, 4500);
    std::string s = "verif_pad_v := 0\nif (verif_pad_v != 0) {\n";
    for (int i = 0; i < n; ++i) s += "verif_pad_v = 12345\n";
    s += "}\n";
    h.mustCompile(s, "padding");
    c.say(strf("// unit of %d assignments, all of them skipped\n", n));
    c.label("long code");
}

void generated(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 8; cfg.mainBudget = 200; cfg.funcBudget = 60;
    bool units = g.chance(1, 3);
    cfg.defBeforeUse = units;
    generate(g, cfg, p);
    Layout l;
    if (g.chance(1, 3)) l.g = &g;
    Printed pr = print(p, l);
    Host h;
    padding(g, c, h);
    std::vector<size_t> at = units ? cutPoints(g, p, 4) : std::vector<size_t>();
    at.push_back(p.items.size());
    size_t from = 0;
    static const char *names[] = {"prog", "a b.tiny", "x", "dir/(sub):7/file.tiny", "0"};
    for (size_t a : at) {
        size_t b0 = pr.itemStart[from], b1 = a < p.items.size() ? pr.itemStart[a] : pr.text.size();
        const char *name = g.chance(1, 12) ? nullptr : names[g.below(5)];
        std::string piece = pr.text.substr(b0, b1 - b0);
        c.say(strf("// unit %s\n", name ? name : "without a name") + piece + "\n");
        h.mustCompile(piece, name);
        from = a;
    }
    std::map<int, Ins> w = walk(h.state);
    targets(w);
    Machine m(p);
    m.run();
    Thread t(h);
    t.start();
    std::set<std::string> ops;
    lockstep(t, w, ops, 60000);
    compareTrace(m.trace, t.trace);
    compareGlobals(m, t);
    t.destroy();
    labels(c, ops);
    c.labelIf(at.size() > 1, "several units");
    c.nontrivial = ops.size() >= 8;
}

// The operands shown are those of the source.
struct Group {
    std::string what;   // literals and callee
    int line;
    std::string file;
    bool operator<(const Group &o) const { return std::tie(what, line, file) < std::tie(o.what, o.line, o.file); }
    bool operator==(const Group &o) const { return what == o.what && line == o.line && file == o.file; }
};
void operands(Gen &g, Case &c) {
    Host h;
    int units = (int)g.range(1, 3), serial = 0;
    std::vector<Group> want;
    std::vector<std::pair<std::string, int>> funcs;  // name, arity
    std::map<std::string, std::string> marks;
    bool big = g.chance(1, 20);
    if (big) {  // many strings, so that their numbers leave one byte
        std::string s;
        int n = (int)g.range(240, 600);
        for (int i = 0; i < n; ++i) s += strf("K%d :: \"pad %d\"\n", i, i);
        h.mustCompile(s, "pad");
        c.say(strf("%d string constants before\n", n));
    }
    padding(g, c, h);
    for (int u = 0; u < units; ++u) {
        std::string s, file = strf("unit%d", u);
        int line = 1;
        auto lit = [&](std::string &txt) {
            switch (g.below(7)) {
                case 0: { int64_t v = (int64_t)(g.bits64() >> (1 + g.below(63))); txt = std::to_string(v); return "i" + std::to_string(v); }
                case 1: { int64_t v = g.range(0, 300); txt = std::to_string(v); return "i" + std::to_string(v); }
                case 2: { bool b = g.coin(); txt = b ? "true" : "false"; return std::string(b ? "true" : "false"); }
                case 3: { double d = (double)g.below(100000) / (double)(1 << g.below(20)); txt = floatText(d); return strf("f%g", d); }
                case 4: { char ch = (char)g.range('!', '~'); txt = ch == '\'' || ch == '\\' ? strf("'\\%c'", ch) : strf("'%c'", ch); return strf("i%d", ch); }
                case 5: { txt = "null"; return std::string("null"); }
                default: {
                    std::string v = vals::someStr(g);
                    txt = vals::lit(v);
                    return "s" + v;
                }
            }
        };
        int n = (int)g.range(1, 12);
        for (int k = 0; k < n; ++k) {
            int nl = (int)g.below(3);
            s += std::string(nl, '\n');
            line += nl;
            auto emit = [&](const std::string &ind, const std::string &mark) {
                Group gr;
                gr.line = line;
                gr.file = file;
                int na = (int)g.below(g.chance(1, 15) ? 200 : 6);
                std::string args;
                if (!mark.empty()) { args = mark; gr.what = "i" + mark + " "; }
                for (int a = 0; a < na; ++a) {
                    std::string t;
                    gr.what += lit(t) + " ";
                    args += (args.empty() ? "" : ", ") + t;
                }
                gr.what += strf("CALLF emit(%d)", na + !mark.empty());
                for (char ch : args) if (ch == '\n') ++line;
                s += ind + "emit(" + args + ")";
                want.push_back(gr);
            };
            int kind = (int)g.below(5);
            if (kind == 0) {
                std::string f = strf("fn%d", serial);
                std::string mark = std::to_string(1000000 + serial++);
                int arity = (int)g.below(5);
                s += "func " + f + "(";
                for (int a = 0; a < arity; ++a) s += strf("%sp%d: any", a ? ", " : "", a);
                s += ") {\n";
                ++line;
                marks[f] = mark;
                emit("  ", mark);
                s += "\n";
                ++line;
                s += "}";
                funcs.push_back({f, arity});
            } else if (kind == 1 && !funcs.empty()) {
                auto &f = g.pick(funcs);
                Group gr;
                gr.line = line;
                gr.file = file;
                std::string args;
                for (int a = 0; a < f.second; ++a) {
                    std::string t;
                    gr.what += lit(t) + " ";
                    args += (a ? ", " : "") + t;
                }
                for (char ch : args) if (ch == '\n') ++line;
                gr.what += "CALL " + f.first + strf("(%d)", f.second);
                want.push_back(gr);
                s += f.first + "(" + args + ")";
            } else if (kind == 2) {
                s += g.coin() ? "if KB {\n" : "while KI < 3 {\n";
                ++line;
                int q = (int)g.below(3);
                for (int z = 0; z < q; ++z) { emit("  ", ""); s += "\n"; ++line; }
                s += "}";
            } else emit("", "");
            s += "\n";
            ++line;
        }
        c.say("// " + file + "\n" + s);
        h.mustCompile(s, file.c_str());
    }
    auto w = walk(h.state);
    targets(w);
    auto literal = [&](const Ins &i, std::string &o) {
        if (i.op == "PUSH_NULL") o = "null";
        else if (i.op == "PUSH_TRUE") o = "true";
        else if (i.op == "PUSH_FALSE") o = "false";
        else if (i.op == "PUSH_0") o = "i0";
        else if (i.op == "PUSH_1") o = "i1";
        else if (i.op == "PUSH_INT") o = "i" + i.arg;
        else if (i.op == "PUSH_CHAR") o = strf("i%d", i.arg.size() == 3 ? (unsigned char)i.arg[1] : 0);
        else if (i.op == "PUSH_FLOAT") o = "f" + i.arg;
        else if (i.op == "PUSH_STRING" || i.op == "PUSH_STRING_FF") o = "s" + text(i);
        else return false;
        return true;
    };
    // the first literal behind the target of a call says which function it is
    std::map<int, std::string> byMark;
    auto nameAt = [&](int pc) -> std::string {
        for (auto it = w.find(pc); it != w.end(); ++it) {
            std::string o;
            if (!literal(it->second, o)) { if (it->second.op.compare(0, 4, "CALL") == 0) break; continue; }
            if (o == "null") continue;  // room for locals
            for (auto &q : marks) if ("i" + q.second == o) return q.first;
            break;
        }
        return "?";
    };
    std::vector<Group> got;
    std::vector<std::string> lits;
    for (auto &q : w) {
        const Ins &i = q.second;
        std::string o;
        if (literal(i, o)) { lits.push_back(o); continue; }
        if (i.op.compare(0, 10, "MISALIGNED") == 0) continue;
        if (i.op == "CALL" || i.op == "CALLF") {
            int k;
            std::string who;
            if (i.op == "CALL") { Call x = call(i); k = x.nargs; who = "CALL " + nameAt(x.target) + strf("(%d)", k); }
            else { who = callee(i, k); who = "CALLF " + who + strf("(%d)", k); }
            PBT_CHECK((int)lits.size() >= k, "%d: a call with %d arguments has %zu literals before it", i.pc, k, lits.size());
            Group gr;
            for (size_t a = lits.size() - k; a < lits.size(); ++a) gr.what += lits[a] + " ";
            gr.what += who;
            gr.line = i.line;
            gr.file = i.file;
            got.push_back(gr);
        }
        lits.clear();
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    if (!(want == got)) {
        std::string m = "the calls shown are not those of the program\n";
        for (auto &x : want) if (std::count(got.begin(), got.end(), x) < std::count(want.begin(), want.end(), x)) m += "in the program: " + x.file + ":" + std::to_string(x.line) + " " + hex(x.what) + "\n";
        for (auto &x : got) if (std::count(got.begin(), got.end(), x) > std::count(want.begin(), want.end(), x)) m += "shown: " + x.file + ":" + std::to_string(x.line) + " " + hex(x.what) + "\n";
        fail(m);
    }
    c.nontrivial = want.size() >= 4;
    c.labelIf(big, "more than 240 strings");
    c.labelIf(units > 1, "several units");
}

// Whatever the size of the buffer.
void buffers(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 4; cfg.mainBudget = 50; cfg.funcBudget = 20;
    generate(g, cfg, p);
    std::string s = print(p).text;
    if (g.chance(1, 3)) s += strf("emit(\"%s\")\n", std::string(g.below(g.chance(1, 4) ? 60000 : 900), 'z').c_str());
    std::string file = g.coin() ? "prog" : std::string(g.below(g.chance(1, 4) ? 5000 : 300), 'f') + "x";
    c.say("// " + file + "\n" + s);
    Host h;
    h.mustCompile(s, file.c_str());
    auto w = walk(h.state);
    std::vector<char> room(ROOM);
    int tries = 0, failed = 0;
    for (auto &q : w) {
        int pc = q.first;
        Tiny_DisasmOne(h.state, &pc, room.data(), room.size());
        std::string full = room.data();
        size_t lim = full.size() + 3;
        for (int k = 0; k < 6; ++k) {
            size_t n = g.coin() ? lim - g.below(lim < 6 ? lim : 6) : 1 + g.below(lim);
            if (g.chance(1, 20)) n = 0;
            char *b = (char *)malloc(n);   // exactly as large as said
            if (n) memset(b, 0x55, n);
            pc = q.first;
            bool ok = Tiny_DisasmOne(h.state, &pc, b, n);
            ++tries;
            failed += !ok;
            std::string bad;
            if (n && !memchr(b, 0, n)) bad = "has no end";
            else if (n && full.compare(0, strlen(b), b) != 0) bad = strf("is %s, no part of %s", hex(b).c_str(), hex(full).c_str());
            else if (n > full.size() && full != b) bad = strf("is %s instead of %s", hex(b).c_str(), hex(full).c_str());
            else if (n > full.size() && !ok) bad = "is said not to fit";
            else if (ok && pc != q.second.next) bad = strf("leads to %d instead of %d", pc, q.second.next);
            else if (!ok && pc != q.first) bad = strf("moves to %d though it failed", pc);
            free(b);
            if (!bad.empty()) fail(strf("at %d, the text in a buffer of %zu bytes ", q.first, n) + bad);
        }
    }
    c.nontrivial = w.size() >= 20 && failed > 0;
}
// Many globals, locals, parameters, fields, functions: the numbers of places are the ones used.
void places(Gen &g, Case &c) {
    int ng = (int)g.range(1, 400), nf = (int)g.range(1, 6), ns = (int)g.range(1, 110);
    std::string t, main;
    t = "struct S {";
    for (int i = 0; i < ns; ++i) t += strf(" f%d: int", i);
    t += " }\n";
    for (int i = 0; i < ng; ++i) t += strf("g%d := %d\n", i, 100000 + i);
    int pad = (int)g.below(g.coin() ? 300 : 5);
    for (int i = 0; i < pad; ++i) t += strf("func pad%d(): int { return %d }\n", i, i);
    int most = 0;
    for (int f = 0; f < nf; ++f) {
        int np = (int)g.below(g.coin() ? 50 : 4), nl = (int)g.range(1, 110 - 2 * np);
        most = std::max(most, np + nl);
        t += strf("func f%d(", f);
        for (int i = 0; i < np; ++i) t += strf("%sp%d: int", i ? ", " : "", i);
        t += "): int {\n";
        for (int i = 0; i < nl; ++i) t += strf("  l%d := %d\n", i, 1000 * (f + 1) + i);
        int n = (int)g.range(1, 12);
        auto place = [&]() -> std::string {
            switch (g.below(np ? 3 : 2)) {
                case 0: return strf("l%d", g.chance(1, 3) ? nl - 1 : (int)g.below(nl));
                case 1: return strf("g%d", g.chance(1, 3) ? ng - 1 : (int)g.below(ng));
                default: return strf("p%d", g.chance(1, 3) ? np - 1 : (int)g.below(np));
            }
        };
        for (int i = 0; i < n; ++i) {
            std::string a = place();
            t += "  " + a + (g.chance(1, 3) ? strf(" = %d", (int)g.range(0, 300)) : " = " + place() + (g.coin() ? " + " + place() : "")) + "\n";
        }
        t += "  return " + place() + " + " + place() + "\n}\n";
        int k = (int)g.below(3);
        for (int q = 0; q < k; ++q) {
            main += strf("g%d = f%d(", (int)g.below(ng), f);
            for (int i = 0; i < np; ++i) main += strf("%s%d", i ? ", " : "", 7000 + i);
            main += ")\n";
        }
    }
    main += "s := new S{";
    for (int i = 0; i < ns; ++i) main += strf("%s%d", i ? ", " : "", 500 + i);
    main += "}\n";
    int n = (int)g.range(1, 10);
    for (int i = 0; i < n; ++i) {
        int a = g.chance(1, 3) ? ns - 1 : (int)g.below(ns), b = (int)g.below(ns), x = (int)g.below(ng);
        switch (g.below(3)) {
            case 0: main += strf("g%d = s.f%d\n", x, a); break;
            case 1: main += strf("s.f%d = g%d\n", a, x); break;
            default: main += strf("s.f%d = s.f%d + %d\n", a, b, (int)g.range(0, 400)); break;
        }
        if (pad) main += strf("g%d = pad%d()\n", x, (int)g.below(pad));
    }
    c.say(t + main);
    Host h;
    h.mustCompile(t + main);
    std::map<int, Ins> w = walk(h.state);
    targets(w);
    Thread th(h);
    th.start();
    std::set<std::string> ops;
    lockstep(th, w, ops, 60000);
    PBT_CHECK(th.error.empty(), "%s", th.error.c_str());
    th.destroy();
    c.nontrivial = ops.size() >= 6;
    c.labelIf(most > 100, "over 100 locals");
    c.labelIf(ng > 255, "over 255 globals");
    c.labelIf(ns > 64, "over 64 fields");
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C20";
    p.title = "Disassembly covers every emitted instruction and agrees with the program";
    p.assumptions = {"floats are shown with six digits (%g)"};
    p.families.push_back({"generated", "at least 8 kinds of instruction were executed and compared with their text", generated, 6000, 800000});
    p.families.push_back({"operands", "the program has at least 4 calls", operands, 10000, 1500000});
    p.families.push_back({"places", "at least 6 kinds of instruction were executed and compared with their text", places, 2000, 300000});
    p.families.push_back({"buffers", "at least 20 instructions, and some buffers were too small", buffers, 4000, 400000});
    return run(argc, argv, p);
}
