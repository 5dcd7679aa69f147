#include "fuzztext.h"
#include "lang.h"
extern "C" {
#include "pos.h"
#include "util.h"
}
using namespace pbt;
using namespace lang;

namespace {
std::string text(Gen &g) {
    std::string t;
    int n = (int)(g.chance(1, 10) ? g.range(60, 2000) : g.below(40)), style = (int)g.below(5);
    for (int i = 0; i < n; ++i) {
        switch (style) {
            case 0: t += g.chance(1, 4) ? '\n' : (char)('a' + g.below(26)); break;
            case 1: t += "\n\r\t a"[g.below(5)]; break;
            case 2: t += g.chance(1, 30) ? '\n' : (char)g.range(1, 255); break;
            case 3: t += "\n\r\na"[g.below(4)]; break;
            default: t += g.chance(1, 80) ? '\n' : 'x'; break;
        }
    }
    return t;
}
void where(const std::string &t, size_t pos, uint32_t &line, uint32_t &col) {
    line = col = 0;
    for (size_t i = 0; i < pos; ++i) if (t[i] == '\n') { ++line; col = 0; } else ++col;
}
void friendly(Gen &g, Case &c) {
    std::string t = text(g);
    bool counted = g.coin();     // the terminating zero is part of the given length
    if (t.empty()) counted = true;
    size_t len = t.size() + counted;
    char *buf = (char *)malloc(len);
    memcpy(buf, t.c_str(), len);
    c.say("text " + quote(t) + (counted ? ", with its terminator\n" : "\n"));
    size_t nl = 0;
    for (char ch : t) nl += ch == '\n';
    size_t tries = len <= 60 ? len : 40;
    for (size_t k = 0; k < tries; ++k) {
        size_t pos = len <= 60 ? k : g.chance(1, 8) ? len - 1 : g.below(len);
        uint32_t line, col;
        where(t, pos, line, col);
        Tiny_Pos p;
        p.index = (uint32_t)pos;
        Tiny_FriendlyPos f = Tiny_PosToFriendlyPos(p, buf, (uint32_t)len);
        PBT_CHECK(f.lineIndex == line && f.charIndex == col, "position %zu is translated to line %u column %u instead of line %u column %u", pos, f.lineIndex, f.charIndex, line, col);
    }
    free(buf);
    c.nontrivial = nl >= 1;
    c.label(nl == 0 ? "one line" : nl < 5 ? "few lines" : "many lines");
}
void lineNumber(Gen &g, Case &c) {
    std::string t = text(g);
    char *buf = strdup(t.c_str());
    c.say("text " + quote(t) + "\n");
    size_t len = t.size(), nl = 0;
    for (char ch : t) nl += ch == '\n';
    size_t tries = len <= 60 ? len + 1 : 40;
    for (size_t k = 0; k < tries; ++k) {
        size_t pos = len <= 60 ? k : g.chance(1, 8) ? len : g.below(len + 1);
        uint32_t line, col;
        where(t, pos, line, col);
        int got = Tiny_TranslatePosToLineNumber(buf, (Tiny_TokenPos)pos);
        PBT_CHECK(got == (int)line + 1, "position %zu is on line %d instead of %u", pos, got, line + 1);
    }
    free(buf);
    c.nontrivial = nl >= 1;
}
void fmt(char *buf, size_t n, const char *file, const char *src, int pos, const char *s, ...) {
    va_list a;
    va_start(a, s);
    Tiny_FormatErrorV(buf, n, file, src, pos, s, a);
    va_end(a);
}
std::vector<std::string> split(const std::string &t) {
    std::vector<std::string> r(1);
    for (char ch : t) if (ch == '\n') r.emplace_back(); else r.back() += ch;
    return r;
}
// The message says the line of the position, whatever text and buffer size.
void shows(const std::string &msg, const std::string &t, size_t pos, const std::string &file, bool roomy) {
    uint32_t line, col;
    where(t, pos, line, col);
    std::string head = strf("%s(%u): ", file.c_str(), line + 1);
    if (roomy) PBT_CHECK(msg.find(head) != std::string::npos, "the message does not say %s\n%s", head.c_str(), msg.c_str());
    std::vector<std::string> ls = split(t);
    size_t at = msg.find(" ->");
    bool empty = line + 1 == ls.size() && ls[line].empty();   // the end of a text ending in a line break is not a line to show
    if (!roomy || empty) return;
    std::string mark = strf("%u ->\t", line + 1) + ls[line].substr(0, 8);
    PBT_CHECK(at != std::string::npos && msg.find(mark) != std::string::npos, "the message does not mark line %u, %s\n%s", line + 1, quote(ls[line].substr(0, 60)).c_str(), msg.c_str());
}
void message(Gen &g, Case &c) {
    std::string t = text(g), file = g.coin() ? "a.tiny" : std::string(g.below(40), 'f') + "g", say;
    int n = (int)g.below(30);
    for (int i = 0; i < n; ++i) say += (char)('A' + g.below(26));
    size_t pos = g.chance(1, 5) ? t.size() : g.below(t.size() + 1);
    size_t size = g.chance(1, 3) ? g.range(1, 300) : g.chance(1, 2) ? 1024 : 4096;
    bool nosrc = g.chance(1, 10);
    c.say(strf("text %s, position %zu, file %s, message %s, buffer of %zu bytes%s\n", quote(t).c_str(), pos, file.c_str(), say.c_str(), size, nosrc ? ", no source" : ""));
    char *src = strdup(t.c_str()), *buf = (char *)malloc(size);
    memset(buf, 0x5a, size);
    fmt(buf, size, file.c_str(), nosrc ? nullptr : src, (int)pos, "%s", say.c_str());
    PBT_CHECK(memchr(buf, 0, size), "the message has no end within its buffer");
    std::string msg = buf;
    free(buf);
    free(src);
    bool roomy = size >= 1024 && t.find('\r') == std::string::npos;
    if (nosrc) { if (roomy) PBT_CHECK(msg.find(say) != std::string::npos, "the message does not contain its text: %s", msg.c_str()); }
    else {
        shows(msg, t, pos, file, roomy);
        if (roomy) PBT_CHECK(msg.find("): " + say) != std::string::npos, "the message does not contain its text after the line: %s", msg.c_str());
    }
    c.nontrivial = t.find('\n') != std::string::npos;
    c.labelIf(size < 300, "small buffer");
}
// Errors of real compiles show the line of the position they carry.
void compiled(Gen &g, Case &c) {
    Program p;
    Cfg cfg;
    cfg.items = 3; cfg.mainBudget = 60; cfg.funcBudget = 20;
    generate(g, cfg, p);
    Layout l;
    l.g = &g;
    std::string t = mutateText(g, print(p, l).text), file = g.coin() ? "prog" : "dir/a file.tiny";
    c.say(t);
    Host h;
    Tiny_CompileResult r = h.compile(t, file.c_str());
    if (r.type == TINY_COMPILE_SUCCESS) { c.label("compiles"); return; }
    c.nontrivial = true;
    size_t len = strlen(t.c_str());
    t.resize(len);
    PBT_CHECK(r.error.pos >= 0 && (size_t)r.error.pos <= len, "the error is at position %d of %zu", r.error.pos, len);
    PBT_CHECK(memchr(r.error.msg, 0, sizeof r.error.msg), "the message has no end");
    shows(r.error.msg, t, r.error.pos, file, true);
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C23";
    p.title = "Source positions translate to the right line and column";
    p.families.push_back({"friendly", "the text has a line break", friendly, 60000, 8000000});
    p.families.push_back({"line number", "the text has a line break", lineNumber, 60000, 8000000});
    p.families.push_back({"message", "the text has a line break", message, 60000, 8000000});
    p.families.push_back({"compiled", "the compile fails", compiled, 6000, 800000});
    return run(argc, argv, p);
}
