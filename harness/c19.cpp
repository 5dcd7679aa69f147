#include "fuzztext.h"
#include "lang.h"
extern "C" {
#include "lexer.h"
}
using namespace pbt;
using namespace lang;

namespace {
// ---------------------------------------------------------------- a tokenizer of our own
struct Tok {
    Tiny_TokenKind k;
    std::string text;    // as written
    std::string str;     // string literals
    int64_t i = 0;
    double f = 0;
    size_t at = 0;
    bool num = true;     // the value is within the range of the literal
};
const std::vector<std::pair<std::string, Tiny_TokenKind>> &ops() {  // longest first
    static const std::vector<std::pair<std::string, Tiny_TokenKind>> v = {
        {"...", TINY_TOK_ELLIPSIS},
        {"&&", TINY_TOK_LOG_AND}, {"||", TINY_TOK_LOG_OR}, {":=", TINY_TOK_DECLARE}, {"::", TINY_TOK_DECLARECONST}, {"+=", TINY_TOK_PLUSEQUAL}, {"-=", TINY_TOK_MINUSEQUAL},
        {"*=", TINY_TOK_STAREQUAL}, {"/=", TINY_TOK_SLASHEQUAL}, {"%=", TINY_TOK_PERCENTEQUAL}, {"|=", TINY_TOK_OREQUAL}, {"&=", TINY_TOK_ANDEQUAL}, {"==", TINY_TOK_EQUALS},
        {"!=", TINY_TOK_NOTEQUALS}, {"<=", TINY_TOK_LTE}, {">=", TINY_TOK_GTE}, {"->", TINY_TOK_ARROW}, {"<<", TINY_TOK_SHIFT_LEFT}, {">>", TINY_TOK_SHIFT_RIGHT},
        {"(", TINY_TOK_OPENPAREN}, {")", TINY_TOK_CLOSEPAREN}, {"{", TINY_TOK_OPENCURLY}, {"}", TINY_TOK_CLOSECURLY}, {"[", TINY_TOK_OPENSQUARE}, {"]", TINY_TOK_CLOSESQUARE},
        {"+", TINY_TOK_PLUS}, {"-", TINY_TOK_MINUS}, {"*", TINY_TOK_STAR}, {"/", TINY_TOK_SLASH}, {"%", TINY_TOK_PERCENT}, {">", TINY_TOK_GT}, {"<", TINY_TOK_LT}, {"=", TINY_TOK_EQUAL},
        {"!", TINY_TOK_BANG}, {"&", TINY_TOK_AND}, {"|", TINY_TOK_OR}, {",", TINY_TOK_COMMA}, {";", TINY_TOK_SEMI}, {":", TINY_TOK_COLON}, {".", TINY_TOK_DOT}, {"?", TINY_TOK_QUESTION}};
    return v;
}
const std::map<std::string, Tiny_TokenKind> &words() {
    static const std::map<std::string, Tiny_TokenKind> v = {
        {"null", TINY_TOK_NULL}, {"true", TINY_TOK_BOOL}, {"false", TINY_TOK_BOOL}, {"if", TINY_TOK_IF}, {"func", TINY_TOK_FUNC}, {"foreign", TINY_TOK_FOREIGN}, {"return", TINY_TOK_RETURN},
        {"while", TINY_TOK_WHILE}, {"for", TINY_TOK_FOR}, {"else", TINY_TOK_ELSE}, {"struct", TINY_TOK_STRUCT}, {"new", TINY_TOK_NEW}, {"cast", TINY_TOK_CAST}, {"break", TINY_TOK_BREAK},
        {"continue", TINY_TOK_CONTINUE}, {"use", TINY_TOK_USE}, {"foreach", TINY_TOK_FOREACH}};
    return v;
}
bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool digit(char c) { return c >= '0' && c <= '9'; }
bool wordch(char c) { return alpha(c) || digit(c) || c == '_'; }
bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int hexv(char c) { return digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
char unesc(char c) { switch (c) { case 't': return '\t'; case 'n': return '\n'; case 'r': return '\r'; case 'b': return '\b'; default: return c; } }

// Ends with EOF or LEXER_ERROR.
std::vector<Tok> tokens(const std::string &s) {
    std::vector<Tok> r;
    size_t i = 0;
    auto at = [&](size_t k) -> char { return k < s.size() ? s[k] : 0; };
    for (;;) {
        for (;;) {
            while (blank(at(i))) ++i;
            if (at(i) == '/' && at(i + 1) == '/') { while (i < s.size() && s[i] != '\n') ++i; continue; }
            break;
        }
        Tok t;
        t.at = i;
        auto done = [&](Tiny_TokenKind k) { t.k = k; t.text = s.substr(t.at, i - t.at); r.push_back(t); };
        char c = at(i);
        if (i >= s.size()) { done(TINY_TOK_EOF); return r; }
        bool op = false;
        for (auto &o : ops())
            if (s.compare(i, o.first.size(), o.first) == 0) { i += o.first.size(); done(o.second); op = true; break; }
        if (op) continue;
        if (alpha(c)) {
            while (wordch(at(i))) ++i;
            std::string w = s.substr(t.at, i - t.at);
            auto it = words().find(w);
            t.i = w == "true";
            done(it == words().end() ? TINY_TOK_IDENT : it->second);
            continue;
        }
        if (digit(c)) {
            bool hex = false, flt = false;
            while (digit(at(i)) || (at(i) == 'x' && !hex) || (hex && hexv(at(i)) >= 0) || (at(i) == '.' && !flt)) {
                if (at(i) == 'x') hex = true;
                if (at(i) == '.') flt = true;
                ++i;
            }
            std::string w = s.substr(t.at, i - t.at);
            if (flt) { t.f = strtod(w.c_str(), nullptr); t.num = !hex; done(TINY_TOK_FLOAT); continue; }
            uint64_t v = 0;
            if (hex) {
                t.num = w.size() > 2 && w[0] == '0' && w[1] == 'x';
                size_t sig = 2;
                while (sig < w.size() && w[sig] == '0') ++sig;
                if (w.size() > sig + 16) t.num = false;
                if (t.num) for (size_t k = 2; k < w.size(); ++k) v = v << 4 | (uint64_t)hexv(w[k]);
            } else {
                for (char d : w) {
                    if (v > ((uint64_t)INT64_MAX - (d - '0')) / 10) { t.num = false; break; }
                    v = v * 10 + (d - '0');
                }
            }
            t.i = (int64_t)v;
            done(TINY_TOK_INT);
            continue;
        }
        if (c == '\'') {
            char v = at(++i);
            if (v == '\\') v = unesc(at(++i));
            t.i = v;
            if (i >= s.size() || at(i + 1) != '\'') { done(TINY_TOK_LEXER_ERROR); return r; }
            i += 2;
            done(TINY_TOK_CHAR);
            continue;
        }
        if (c == '"') {
            ++i;
            for (;;) {
                if (i >= s.size()) { done(TINY_TOK_LEXER_ERROR); return r; }
                if (s[i] == '"') break;
                if (s[i] == '\\') { ++i; if (i >= s.size()) { done(TINY_TOK_LEXER_ERROR); return r; } t.str += unesc(s[i++]); }
                else t.str += s[i++];
            }
            ++i;
            done(TINY_TOK_STRING);
            continue;
        }
        done(TINY_TOK_LEXER_ERROR);
        return r;
    }
}

// ---------------------------------------------------------------- tokens
void lexing(Gen &g, Case &c) {
    std::string s;
    int n = (int)g.range(1, 30), style = (int)g.below(4);
    const auto &pool = tokenPool();
    for (int i = 0; i < n; ++i) {
        switch (style == 3 ? (int)g.below(3) : style) {
            case 0: s += "+-*/%&|<>=!:.(){}[],;?"[g.below(22)]; break;
            case 1: {
                static const char *w[] = {"0", "1", "12", "x", "0x", "0xfF", ".", "..", "...", "1.5", "e5", "_", "a", "B9", "if", "iff", "null", "nulls", "true", "news", "new", "for", "foreach", "foreachx", "use", "user", "func", "cast", "else", " ", " ", "\n", "-", "'a'", "'\\n'", "''", "\"\"", "\"a\\\"b\"", "\"x\ny\"", "'\\''", "// c\n", "//", "/"};
                s += w[g.below(sizeof w / sizeof *w)];
                break;
            }
            default: s += pool[g.below(pool.size())]; break;
        }
        if (g.chance(1, 12)) s += " \n\t\r\v\f"[g.below(6)];
    }
    c.say("text " + quote(s) + "\n");
    std::vector<Tok> want = tokens(s);
    Ctx ctx;
    char *src = strdup(s.c_str());
    Tiny_Lexer l;
    Tiny_InitLexer(&l, "f", src, ctx.ctx());
    std::string bad;
    for (size_t i = 0; i < want.size() && bad.empty(); ++i) {
        const Tok &w = want[i];
        Tiny_TokenKind k = Tiny_GetToken(&l);
        if (k != w.k) { bad = strf("token %zu, %s at %zu, is of kind %d instead of %d", i, quote(w.text).c_str(), w.at, (int)k, (int)w.k); break; }
        if (w.k == TINY_TOK_LEXER_ERROR) break;
        if ((size_t)l.tokPos != w.at) bad = strf("token %zu, %s, is said to be at %zu instead of %zu", i, quote(w.text).c_str(), (size_t)l.tokPos, w.at);
        switch (w.k) {
            case TINY_TOK_INT: case TINY_TOK_CHAR: if (w.num && l.iValue != w.i) bad = strf("%s has the value %lld", quote(w.text).c_str(), (long long)l.iValue); break;
            case TINY_TOK_FLOAT: if (w.num && l.fValue != w.f) bad = strf("%s has the value %.17g", quote(w.text).c_str(), (double)l.fValue); break;
            case TINY_TOK_BOOL: if (l.bValue != (w.i != 0)) bad = strf("%s has the value %d", w.text.c_str(), (int)l.bValue); break;
            case TINY_TOK_STRING: if (w.str != l.lexeme) bad = strf("%s has the value %s", quote(w.text).c_str(), quote(l.lexeme).c_str()); break;
            case TINY_TOK_IDENT: if (w.text != l.lexeme) bad = strf("%s has the lexeme %s", quote(w.text).c_str(), quote(l.lexeme).c_str()); break;
            default: break;
        }
    }
    Tiny_DestroyLexer(&l);
    free(src);
    if (!bad.empty()) fail(bad);
    c.nontrivial = want.size() >= 5;
    if (want.back().k == TINY_TOK_LEXER_ERROR) c.label("ends in an error");
    bool two = false;
    for (auto &w : want) two |= w.k != TINY_TOK_STRING && w.text.size() == 2 && !wordch(w.text[0]);
    c.labelIf(two, "operator of two characters");
}

// ---------------------------------------------------------------- literals
struct Lit { std::string text, dump, type; };
Lit literal(Gen &g, Case &c) {
    Lit r;
    switch (g.below(6)) {
        case 0: {
            static const int64_t sp[] = {0, 1, 2, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 9007199254740993LL, INT64_MAX, INT64_MAX - 1};
            int64_t v = g.coin() ? sp[g.below(sizeof sp / sizeof *sp)] : (int64_t)(g.bits64() >> (1 + g.below(63)));
            r.text = std::string(g.chance(1, 4) ? g.below(6) : 0, '0') + std::to_string(v);
            r.dump = std::to_string(v);
            r.type = "int";
            c.label("int");
            break;
        }
        case 1: {
            uint64_t v = g.bits64() >> g.below(64);
            r.text = "0x" + std::string(g.chance(1, 3) ? g.below(20) : 0, '0');
            for (char ch : strf("%llx", (unsigned long long)v)) r.text += g.coin() ? ch : (char)toupper(ch);
            r.dump = std::to_string((int64_t)v);
            r.type = "int";
            c.label("hex");
            break;
        }
        case 2: {
            double v = 0;
            switch (g.below(4)) {
                case 0: {  // an exact binary fraction written out in full
                    v = ldexp((double)(g.bits64() >> (11 + g.below(53))), -(int)g.below(60));
                    char buf[200];
                    snprintf(buf, sizeof buf, "%.80f", v);
                    r.text = buf;
                    break;
                }
                case 1: v = (double)g.below(1000000); r.text = strf("%lld.", (long long)v); break;
                case 2: {
                    int a = (int)g.range(1, g.chance(1, 6) ? 310 : 25), b = (int)g.below(g.chance(1, 6) ? 400 : 25);
                    for (int i = 0; i < a; ++i) r.text += (char)('0' + g.below(10));
                    r.text += '.';
                    for (int i = 0; i < b; ++i) r.text += (char)('0' + g.below(10));
                    v = strtod(r.text.c_str(), nullptr);
                    if (std::isinf(v)) { r.text = "1.5"; v = 1.5; }
                    break;
                }
                default: v = ldexp(1.0 + (double)(g.bits64() >> 12) * 0x1p-52, (int)g.range(-300, 300)); r.text = floatText(v); break;
            }
            r.dump = "f" + fmtFloat(v);
            r.type = "float";
            c.label("float");
            break;
        }
        case 3: {
            int v = (int)g.range(1, 127);
            r.text = "'";
            switch (v) {
                case '\n': r.text += g.coin() ? "\\n" : g.coin() ? "\\\n" : "\n"; break;
                case '\t': r.text += g.coin() ? "\\t" : "\t"; break;
                case '\r': r.text += g.coin() ? "\\r" : "\r"; break;
                case '\b': r.text += g.coin() ? "\\b" : "\b"; break;
                case '\\': r.text += "\\\\"; break;
                case '\'': r.text += "\\'"; break;
                default: if (g.chance(1, 4) && !strchr("ntrb", v)) r.text += '\\'; r.text += (char)v; break;
            }
            r.text += "'";
            r.dump = std::to_string(v);
            r.type = "int";
            c.label("char");
            break;
        }
        case 4: {
            std::string s;
            int n = (int)g.below(g.chance(1, 10) ? 400 : 12), style = (int)g.below(3);
            for (int i = 0; i < n; ++i) s += style == 0 ? (char)g.range(32, 126) : style == 1 ? (char)g.range(1, 255) : "\n\t\r\b\"\\'ntrb/"[g.below(12)];
            r.text = "\"";
            for (char ch : s) {
                switch (ch) {
                    case '\n': r.text += g.coin() ? "\\n" : g.coin() ? "\\\n" : "\n"; break;
                    case '\t': r.text += g.coin() ? "\\t" : "\t"; break;
                    case '\r': r.text += g.coin() ? "\\r" : "\r"; break;
                    case '\b': r.text += g.coin() ? "\\b" : "\b"; break;
                    case '\\': r.text += "\\\\"; break;
                    case '"': r.text += "\\\""; break;
                    default: if (g.chance(1, 8) && !strchr("ntrb", ch)) r.text += '\\'; r.text += ch; break;
                }
            }
            r.text += "\"";
            r.dump = quote(s);
            r.type = "str";
            c.label("string");
            break;
        }
        default:
            r.text = g.coin() ? "true" : "false";
            r.dump = r.text;
            r.type = "bool";
            c.label("bool");
            break;
    }
    return r;
}
void literals(Gen &g, Case &c) {
    int n = (int)g.range(1, 12);
    std::string s, sep = g.chance(1, 3) ? " " : "\n";
    std::vector<std::string> want;
    auto saw = [&](const std::string &d) { want.push_back("emit " + d); };
    for (int i = 0; i < n; ++i) {
        Lit l = literal(g, c);
        switch (g.below(10)) {
            case 0: case 1: s += "emit(" + l.text + ")"; saw(l.dump); break;
            case 2: s += strf("g%d := ", i) + l.text + strf("%semit(g%d)", sep.c_str(), i); saw(l.dump); break;
            case 3: s += strf("K%d :: ", i) + l.text + strf("%semit(K%d)", sep.c_str(), i); saw(l.dump); break;
            case 4: s += strf("func f%d(): ", i) + l.type + " { return " + l.text + strf(" }%semit(f%d())", sep.c_str(), i); saw(l.dump); break;
            case 5: s += strf("func f%d(x: ", i) + l.type + "): " + l.type + " { y := x return y }" + sep + strf("emit(f%d(", i) + l.text + "))"; saw(l.dump); break;
            case 6: s += strf("struct S%d { a: ", i) + l.type + " }" + sep + strf("g%d := new S%d{", i, i) + l.text + strf("}%semit(g%d.a)", sep.c_str(), i); saw(l.dump); break;
            case 7: {
                Lit m = literal(g, c);
                s += "emit(" + l.text + "," + m.text + "," + l.text + ")";
                saw(l.dump + " " + m.dump + " " + l.dump);
                break;
            }
            case 8: s += "if " + l.text + "==" + l.text + " { emit(" + l.text + ") } else { emit(0) }"; saw(l.dump); break;
            default:
                if ((l.type == "int" && l.dump[0] != '-') || l.type == "float") {
                    s += "emit(-" + l.text + ")";
                    if (l.type == "int") saw(l.dump == "0" ? "0" : "-" + l.dump);
                    else saw("f" + fmtFloat(-strtod(l.text.c_str(), nullptr)));
                } else { s += "emit(" + l.text + ")"; saw(l.dump); }
                break;
        }
        s += sep;
    }
    c.say(s);
    Host h;
    h.mustCompile(s);
    Thread t(h);
    t.start();
    t.run();
    compareTrace(want, t.trace);
    t.destroy();
    c.nontrivial = true;
}

// ---------------------------------------------------------------- layout
std::string gap(Gen &g, bool need) {
    if (!need && g.coin()) return "";
    std::string r;
    int n = 1 + (int)g.below(3);
    for (int i = 0; i < n; ++i) {
        switch (g.below(6)) {
            case 0: r += " "; break;
            case 1: r += "\n"; break;
            case 2: r += "\t"; break;
            case 3: r += "\r\n"; break;
            case 4: r += "\f\v"; break;
            default: {
                static const char *cm[] = {"// note\n", "//\n", "//// \"x := 'a { ( [\n", "// use array(\"int\") as x }\r\n", "//\\\n", "// a /* b */ // \xc3\xa9\n"};
                if (r.empty()) r += " ";
                r += cm[g.below(6)];
                break;
            }
        }
    }
    return r;
}
// The same tokens with other gaps; the starts of the tokens are recorded.
std::string relay(Gen &g, const std::vector<Tok> &v, std::vector<size_t> &starts) {
    std::string r = gap(g, false);
    for (size_t i = 0; i + 1 < v.size(); ++i) {
        starts.push_back(r.size());
        r += v[i].text;
        if (i + 2 < v.size()) {
            auto both = tokens(v[i].text + v[i + 1].text);
            bool apart = both.size() == 3 && both[0].text == v[i].text && both[1].text == v[i + 1].text;
            r += gap(g, !apart);
        } else r += gap(g, false);
    }
    starts.push_back(r.size());
    return r;
}
void ran(Program &p, const std::string &text) {
    Machine m(p);
    m.run();
    Host h;
    h.mustCompile(text);
    Thread t(h);
    t.start();
    t.run();
    compareTrace(m.trace, t.trace);
    compareGlobals(m, t);
    t.destroy();
}
void layout(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 6; cfg.mainBudget = 150; cfg.funcBudget = 50;
    generate(g, cfg, p);
    std::vector<Tok> v = tokens(print(p).text);
    PBT_CHECK(v.back().k == TINY_TOK_EOF, "the checker's tokenizer does not understand the program");
    std::vector<size_t> st;
    std::string r = relay(g, v, st);
    c.say(r);
    ran(p, r);
    c.nontrivial = v.size() >= 60;
}
// What the message says, without the place.
std::string said(const std::string &msg) {
    size_t at = msg.find("@layout@(");
    if (at != std::string::npos) at = msg.find("): ", at);
    if (at == std::string::npos) return msg;
    size_t e = msg.find('\n', at);
    return msg.substr(at + 3, e == std::string::npos ? e : e - at - 3);
}
// Programs which may not compile do or do not compile whatever their layout, for the same reason, at the same token.
void layoutOfAny(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 4; cfg.mainBudget = 60; cfg.funcBudget = 25;
    generate(g, cfg, p);
    std::vector<Tok> v = tokens(mutateText(g, print(p).text, 3));
    if (v.back().k != TINY_TOK_EOF) throw Discard{};
    std::vector<size_t> sa, sb;
    std::string a = relay(g, v, sa), b = relay(g, v, sb);
    c.say("one layout:\n" + a + "\nthe other:\n" + b + "\n");
    Host ha, hb;
    Tiny_CompileResult ra = ha.compile(a, "@layout@"), rb = hb.compile(b, "@layout@");
    PBT_CHECK(ra.type == rb.type, "one layout %s, the other %s\n%s\n%s", ra.type == TINY_COMPILE_SUCCESS ? "compiles" : "does not compile", rb.type == TINY_COMPILE_SUCCESS ? "does" : "does not",
              ra.type == TINY_COMPILE_SUCCESS ? "" : ra.error.msg, rb.type == TINY_COMPILE_SUCCESS ? "" : rb.error.msg);
    c.nontrivial = true;
    if (ra.type == TINY_COMPILE_SUCCESS) { c.label("compiles"); return; }
    c.label("does not compile");
    auto tok = [](const std::vector<size_t> &s, size_t pos) { size_t i = 0; while (i < s.size() && s[i] <= pos) ++i; return i; };
    size_t ta = tok(sa, ra.error.pos), tb = tok(sb, rb.error.pos);
    PBT_CHECK(ta == tb, "one layout has its error at token %zu (%s), the other at token %zu (%s)\n%s\n%s", ta, ta ? v[ta - 1].text.c_str() : "", tb, tb ? v[tb - 1].text.c_str() : "", ra.error.msg, rb.error.msg);
    std::string ma = said(ra.error.msg), mb = said(rb.error.msg);
    PBT_CHECK(ma == mb, "the errors of the two layouts differ\n%s\n%s", ma.c_str(), mb.c_str());
}

// ---------------------------------------------------------------- renaming
struct Namer {
    Gen &g;
    std::set<std::string> used;
    explicit Namer(Gen &g) : g(g) {}
    std::string fresh() {
        static const char *kw[] = {"null", "true", "false", "if", "func", "foreign", "return", "while", "for", "else", "struct", "new", "cast", "break", "continue", "use", "foreach", "int", "str", "any", "array", "emit", "x"};
        for (int n = 0;; ++n) {
            std::string r;
            switch (g.below(6)) {
                case 0: r = std::string(1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.below(52)]); break;
                case 1: r = std::string(kw[g.below(23)]) + "sX_0d9"[g.below(6)]; break;
                case 2: r = std::string("xeAq"[g.below(4)] + std::string(kw[g.below(23)])); break;
                case 3: { r = "v"; int k = (int)g.below(6); for (int i = 0; i < k; ++i) r += "_0aZ"[g.below(4)]; break; }
                case 4: r = kw[g.below(23)]; r[0] = (char)toupper(r[0]); break;
                default: r = "L" + std::string(g.below(120), 'o') + "ng"; break;
            }
            if (n > 4) r += strf("_%d", n);
            if (used.insert(r).second) return r;
        }
    }
};
void renaming(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 6; cfg.mainBudget = 150; cfg.funcBudget = 50;
    cfg.hostCalls = g.coin();
    generate(g, cfg, p);
    Namer n(g);
    for (const char *k : {"x", "emit", "int", "str", "any", "array", "json", "delegate", "float", "bool", "void", "Nat", "dict", "KI", "KF", "KB", "KS"}) n.used.insert(k);
    std::map<std::string, std::string> m;
    auto name = [&](std::string &s) {
        auto it = m.find(s);
        if (it == m.end()) it = m.emplace(s, n.fresh()).first;
        s = it->second;
    };
    std::string before = print(p).text;
    for (auto &s : p.structs) { name(s->name); for (auto &f : s->fields) name(f.name); }
    for (auto &t : p.types) if (!t->arrName.empty()) name(t->arrName);
    for (auto &f : p.funcs) name(f->name);
    for (auto &v : p.vars) if (!v->fixedName) name(v->name);
    Layout l;
    if (g.chance(1, 3)) l.g = &g;
    std::string after = print(p, l).text;
    c.say("renamed from\n" + before + "\nto\n" + after);
    ran(p, after);
    c.nontrivial = m.size() >= 8;
}
// A field may have any name at all, and so may a parameter or local next to functions and types of the same name.
void namesakes(Gen &g, Case &c) {
    static const char *any[] = {"int", "str", "float", "any", "bool", "void", "emit", "array", "json", "as", "len", "strlen", "S", "f", "main", "dict"};
    std::string fa = any[g.below(16)], fb = any[g.below(16)];
    if (fa == fb) fb = "other";
    int64_t x = g.range(2, 99), y = g.range(2, 99);
    std::string s = strf("struct S { %s: int %s: int }\nfunc f(a: S): int { return a.%s * 100 + a.%s }\n", fa.c_str(), fb.c_str(), fa.c_str(), fb.c_str());
    s += g.coin() ? strf("g := new S{%lld, %lld}\n", (long long)x, (long long)y) : strf("g := new S{.%s = %lld, .%s = %lld}\n", fa.c_str(), (long long)x, fb.c_str(), (long long)y);
    s += strf("emit(f(g))\ng.%s += 1\nemit(g.%s, g.%s)\n", fa.c_str(), fa.c_str(), fb.c_str());
    c.say(s);
    Host h;
    h.mustCompile(s);
    Thread t(h);
    t.start();
    t.run();
    compareTrace({strf("emit %lld", (long long)(x * 100 + y)), strf("emit %lld %lld", (long long)x + 1, (long long)y)}, t.trace);
    t.destroy();
    c.nontrivial = true;
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C19";
    p.title = "Literals denote their value and layout carries no meaning";
    p.assumptions = {"decimal literals up to 2^63-1, hexadecimal ones up to 64 bits, floats below the overflow threshold, characters 1..127"};
    p.families.push_back({"tokens", "the text has at least four tokens", lexing, 60000, 8000000});
    p.families.push_back({"literals", "every case", literals, 20000, 3000000});
    p.families.push_back({"layout", "the program has at least 60 tokens", layout, 6000, 800000});
    p.families.push_back({"layout of any text", "every case", layoutOfAny, 6000, 800000});
    p.families.push_back({"renaming", "at least eight names were changed", renaming, 6000, 800000});
    p.families.push_back({"namesakes", "every case", namesakes, 2000, 100000});
    return run(argc, argv, p);
}
