#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include "vals.h"
using namespace vals;

namespace {
// ---- scratch directory of the process
struct Scratch {
    std::string dir;
    Scratch() { dir = pbt::scratch() + "/d"; mkdir(dir.c_str(), 0700); clean(dir); clean(dir + "/sub"); mkdir((dir + "/sub").c_str(), 0700); }
    ~Scratch() { for (const char *d : {"/sub", ""}) { clean(dir + d); rmdir((dir + d).c_str()); } }
    static void clean(const std::string &d) {
        DIR *p = opendir(d.c_str());
        if (!p) return;
        while (dirent *e = readdir(p)) unlink((d + "/" + e->d_name).c_str());
        closedir(p);
    }
};
// ---- what the program prints
struct Capture {
    FILE *old = stdout, *f;
    char *buf = nullptr;
    size_t n = 0;
    Capture() { fflush(stdout); f = open_memstream(&buf, &n); stdout = f; }
    std::string take() { fflush(f); return std::string(buf, n); }
    ~Capture() { stdout = old; fclose(f); free(buf); }
};
std::string bytes(Gen &g, size_t max) {
    std::string r;
    size_t n = g.chance(1, 12) ? g.below(max * 20) : g.below(max);
    int style = (int)g.below(3);
    for (size_t i = 0; i < n; ++i) r += style == 0 ? (char)g.range(32, 126) : style == 1 ? (char)g.below(256) : "\n\r\0%a"[g.below(5)];
    return r;
}
std::string differ(const std::string &want, const std::string &got) {
    size_t i = 0;
    while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
    size_t b = i > 20 ? i - 20 : 0;
    return strf("%zu bytes instead of %zu; from byte %zu: %s instead of %s", got.size(), want.size(), b, quote(got.substr(b, 60)).c_str(), quote(want.substr(b, 60)).c_str());
}

// ---- printf
struct P {
    Gen &g;
    StrTable tab;
    std::string text, want;
    int dirs = 0, lines = 0, tmp = 0;
    std::set<char> kinds;
    explicit P(Gen &g) : g(g) {}
    static std::string f6(double d) { return strf("%f", d); }
    // an expression of any type and what %q shows of it
    std::string any(std::string &shown, int d) {
        switch (g.below(d > 0 ? 9 : 5)) {
            case 8: {
                // every field of a struct, however many
                int k = (int)g.below(2), n = k ? 21 : 9;
                std::string e = k ? "new S21{" : "new S9{";
                shown = "struct {";
                for (int i = 0; i < n; ++i) { std::string s; e += (i ? ", " : "") + any(s, 0); shown += (i ? ", " : "") + s; }
                shown += "}";
                return e + "}";
            }
            case 0: shown = "<null>"; return g.coin() ? "null" : "cast(null, S?)";
            case 1: { bool b = g.coin(); shown = b ? "true" : "false"; return shown; }
            case 2: { int64_t v = someInt(g); shown = std::to_string(v); return intText(v); }
            case 3: { double v = someFloat(g); shown = f6(v); return fltText(v); }
            case 4: { std::string s = bytes(g, 8); shown = "\"" + s + "\""; return strEx(g, tab, s); }
            case 5: {
                std::string a, b;
                std::string x = any(a, d - 1), y = any(b, d - 1);
                shown = "struct {" + a + ", " + b + "}";
                return "new S{" + x + ", " + y + "}";
            }
            case 6: {
                int n = (int)g.below(4);
                std::string r = "anys(";
                shown = "[";
                for (int i = 0; i < n; ++i) { std::string s; r += (i ? ", " : "") + any(s, d - 1); shown += (i ? ", " : "") + s; }
                shown += "]";
                return r + ")";
            }
            default: {
                int n = (int)g.below(g.chance(1, 6) ? 40 : 5);
                int t = (int)g.below(3);
                std::string r = t == 0 ? "ints(" : t == 1 ? "floats(" : "bools(";
                shown = "[";
                for (int i = 0; i < n; ++i) {
                    std::string e, s;
                    if (t == 0) { int64_t v = someInt(g); e = intText(v); s = std::to_string(v); }
                    else if (t == 1) { double v = someFloat(g); e = fltText(v); s = f6(v); }
                    else { e = s = g.coin() ? "true" : "false"; }
                    r += (i ? ", " : "") + e;
                    shown += (i ? ", " : "") + s;
                }
                shown += "]";
                return r + ")";
            }
        }
    }
    void call() {
        ++lines;
        std::string fmt, args;
        int n = (int)g.below(g.chance(1, 8) ? 30 : 6);
        std::string out;
        for (int i = 0; i < n; ++i) {
            switch (g.below(7)) {
                case 0: { std::string s = bytes(g, 12); s.erase(std::remove(s.begin(), s.end(), '%'), s.end()); fmt += s; out += s; break; }
                case 1: fmt += "%%"; out += "%"; break;
                case 2: { int64_t v = someInt(g); fmt += "%i"; out += std::to_string(v); args += ", " + intText(v); ++dirs; kinds.insert('i'); break; }
                case 3: { double v = someFloat(g); fmt += "%f"; out += f6(v); args += ", " + fltText(v); ++dirs; kinds.insert('f'); break; }
                case 4: { std::string s = bytes(g, 12); fmt += "%s"; out += s; args += ", " + strEx(g, tab, s); ++dirs; kinds.insert('s'); break; }
                case 5: { int ch = (int)g.below(256); fmt += "%c"; out += (char)ch; args += ", " + std::to_string(ch); ++dirs; kinds.insert('c'); break; }
                default: { std::string s; std::string x = any(s, 2); fmt += "%q"; out += s; args += ", " + x; ++dirs; kinds.insert('q'); break; }
            }
        }
        if (g.chance(1, 15)) { fmt += "%"; out += "%"; }   // not a directive
        std::string c = "printf(" + strEx(g, tab, fmt) + args + ")";
        if (g.chance(1, 8)) {
            std::string k = strf("k%d", tmp++);
            int times = (int)g.below(4);
            text += strf("for %s := 0; %s < %d; %s += 1 { %s }\n", k.c_str(), k.c_str(), times, k.c_str(), c.c_str());
            for (int i = 0; i < times; ++i) want += out;
        } else { text += c + "\n"; want += out; }
    }
};
void sayStrings(Case &c, StrTable &t) { for (size_t i = 0; i < t.v.size(); ++i) c.say(strf("// string %zu = %s\n", i, quote(*t.v[i]).c_str())); }

void printing(Gen &g, Case &c) {
    P p(g);
    p.text = "use array(\"any\") as anys\nuse array(\"int\") as ints\nuse array(\"float\") as floats\nuse array(\"bool\") as bools\nstruct S { a: any b: any }\n"
        "struct S9 { a: any b: any c: any d: any e: any f: any g: any h: any i: any }\n";
    p.text += "struct S21 {";
    for (int i = 0; i < 21; ++i) p.text += strf(" f%d: any", i);
    p.text += " }\n";
    int n = (int)g.range(1, 12);
    for (int i = 0; i < n; ++i) p.call();
    c.say(p.text);
    sayStrings(c, p.tab);
    c.nontrivial = p.dirs >= 2;
    for (char k : p.kinds) c.label(strf("directive:%c", k));
    table() = &p.tab;
    Host h;
    Tiny_BindStandardIO(h.state);
    bindStrings(h.state);
    h.mustCompile(p.text);
    Thread t(h);
    std::string got;
    {
        Capture cap;
        t.start();
        if (g.coin()) { do t.t->maxNumObjects = 0; while (t.step()); } else t.run();
        got = cap.take();
    }
    if (got != p.want) pbt::fail("printed " + differ(p.want, got));
    t.destroy();
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain", t.ctx.live.size());
}

// ---- input
void input(Gen &g, Case &c) {
    int n = (int)g.below(6);
    std::string all;
    std::vector<std::string> lines;
    for (int i = 0; i < n; ++i) {
        std::string l = bytes(g, g.coin() ? 10 : 40);
        if (g.chance(1, 3)) l.resize((16ul << (g.chance(1, 4) ? g.below(13) : g.below(8))) - 1 + g.below(3), 'x');   // around the sizes of buffers
        l.erase(std::remove(l.begin(), l.end(), '\n'), l.end());
        lines.push_back(l);
        all += l + "\n";
    }
    if (g.coin() && !all.empty()) { all.pop_back(); if (lines.back().empty()) lines.pop_back(); }
    if (all.empty()) lines.clear();
    StrTable tab;
    std::string text, want;
    std::vector<std::string> trace;
    int calls = (int)lines.size() + (int)g.below(3);
    for (int i = 0; i < calls; ++i) {
        std::string prompt;
        if (g.coin()) { prompt = bytes(g, 6); prompt.erase(std::remove(prompt.begin(), prompt.end(), '\0'), prompt.end()); text += "emit(input(" + strEx(g, tab, prompt) + "))\n"; }
        else text += "emit(input())\n";
        want += prompt;
        trace.push_back("emit " + quote(i < (int)lines.size() ? lines[i] : ""));
    }
    c.say(text + "// input " + quote(all) + "\n");
    sayStrings(c, tab);
    table() = &tab;
    Host h;
    Tiny_BindStandardIO(h.state);
    bindStrings(h.state);
    h.mustCompile(text);
    Thread t(h);
    FILE *old = stdin, *in = all.empty() ? fopen("/dev/null", "r") : fmemopen((void *)all.data(), all.size(), "r");
    std::string got;
    {
        Capture cap;
        stdin = in;
        t.start();
        t.run();
        got = cap.take();
        stdin = old;
    }
    fclose(in);
    compareTrace(trace, t.trace);
    if (got != want) pbt::fail("printed " + differ(want, got));
    c.nontrivial = lines.size() >= 2;
    t.destroy();
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain", t.ctx.live.size());
}

// ---- files
struct F {
    Gen &g;
    std::string dir;
    StrTable tab;
    std::string text;
    std::vector<std::string> trace;
    std::map<std::string, std::string> disk;   // by name
    struct H { std::string var, name; bool rd, wr, app; size_t pos; int last; };  // last: 0 sought, 1 read, 2 written
    std::vector<H> open;
    int handles = 0, written = 0, readBack = 0, big = 0;
    explicit F(Gen &g, const std::string &d) : g(g), dir(d) {}
    std::string path(const std::string &n) { return strEx(g, tab, dir + "/" + n, 1); }
    void out(const std::string &e, const std::string &w) { text += "emit(" + e + ")\n"; trace.push_back("emit " + w); }
    std::string name() { static const char *n[] = {"a", "b", "c.txt", "sub/d", "name with spaces"}; return n[g.below(5)]; }
    bool busy(const std::string &n) { for (auto &h : open) if (h.name == n) return true; return false; }
    void op() {
        std::string n = name();
        switch (open.empty() ? g.below(5) : g.below(14)) {
            case 0: {
                if (busy(n)) return;
                std::string s = bytes(g, 40);
                if (g.chance(1, 30)) {
                    // a large file, no two places of which are alike
                    uint32_t x = (uint32_t)g.below(1000) + 1;
                    for (int k = (int)g.range(2000, 20000); k > 0; --k) { x = x * 1664525u + 1013904223u; for (int q = 0; q < 8; ++q) s += (char)(x >> (8 + 3 * q)); }
                    ++big;
                }
                text += "w" + std::to_string(trace.size()) + " := write_file(" + path(n) + ", " + strEx(g, tab, s) + ")\n";
                out("w" + std::to_string(trace.size()), "true");
                disk[n] = s;
                ++written;
                break;
            }
            case 1:
                if (busy(n)) return;
                if (disk.count(n)) { ++readBack; out("read_file(" + path(n) + ")", quote(disk[n])); }
                else out("read_file(" + path(n) + ") == null", "true");
                break;
            case 2:  // errors
                switch (g.below(7)) {
                    case 6: {
                        // nothing can be written there
                        if (access("/dev/full", W_OK) != 0) break;
                        std::string b = bytes(g, 30);
                        if (g.chance(1, 6)) b += std::string((size_t)g.range(4000, 9000), 'x');
                        out("write_file(\"/dev/full\", " + strEx(g, tab, b) + ")", b.empty() ? "true" : "false");
                        break;
                    }
                    case 0: out("read_file(" + path("missing") + ") == null", "true"); break;
                    case 1: out("read_file(" + path("sub") + ") == null", "true"); break;
                    case 2: out("write_file(" + path("nodir/x") + ", \"text\")", "false"); break;
                    case 3: out("write_file(" + path("sub") + ", \"text\")", "false"); break;
                    case 4: out("fopen(" + path("missing") + ", \"r\") == null", "true"); break;
                    default: out("fopen(" + path("nodir/x") + ", \"w\") == null", "true"); break;
                }
                break;
            case 3: case 4: {
                if (busy(n) || open.size() > 3) return;
                static const char *modes[] = {"r", "rb", "w", "wb", "a", "r+", "w+", "a+", "rb+", "wb+"};
                std::string m = modes[g.below(10)];
                if (m[0] == 'r' && !disk.count(n)) { out("fopen(" + path(n) + ", " + lit(m) + ") == null", "true"); return; }
                bool plus = m.find('+') != std::string::npos;
                H h{strf("f%d", handles++), n, m[0] == 'r' || plus, m[0] != 'r' || plus, m[0] == 'a', 0, 0};
                text += h.var + " := fopen(" + path(n) + ", " + lit(m) + ")\n";
                if (m[0] == 'w') disk[n] = "";
                if (m[0] == 'a') { disk[n]; h.pos = disk[n].size(); h.last = 3; }
                out(h.var + " == null", "false");
                open.push_back(h);
                break;
            }
            default: {
                size_t k = g.below(open.size());
                H &h = open[k];
                std::string &d = disk[h.name];
                switch (g.below(7)) {
                    case 0: text += "fclose(" + h.var + ")\n"; open.erase(open.begin() + k); break;
                    case 1: {
                        // what lies behind the end becomes zeros when it is written to
                        size_t p = g.chance(1, 10) ? d.size() + g.below(20) : g.below(d.size() + 1);
                        text += strf("fseek(%s, %zu)\n", h.var.c_str(), p);
                        h.pos = p;
                        h.last = 0;
                        break;
                    }
                    case 2: {
                        if (h.rd && g.chance(1, 4)) {
                            // all of it
                            out(strf("fread(%s, fsize(%s))", h.var.c_str(), h.var.c_str()), quote(d));
                            h.pos = d.size();
                            h.last = 1;
                            if (!d.empty()) ++readBack;
                            break;
                        }
                        // the position is the start afterwards
                        out("fsize(" + h.var + ")", std::to_string(d.size()));
                        h.pos = 0;
                        h.last = 0;
                        if (g.coin()) break;
                        size_t p = g.below(d.size() + 1);
                        text += strf("fseek(%s, %zu)\n", h.var.c_str(), p);
                        h.pos = p;
                        break;
                    }
                    case 3: case 4: {
                        if (!h.rd) return;
                        if (h.last >= 2) { size_t p = g.below(d.size() + 1); text += strf("fseek(%s, %zu)\n", h.var.c_str(), p); h.pos = p; }
                        int64_t n = (int64_t)(g.chance(1, 4) ? d.size() + g.below(10) : g.below((d.size() > 3000 && g.chance(4, 5) ? 300 : d.size()) + 2));
                        if (g.chance(1, 25)) n = -g.range(1, 100);   // nothing
                        std::string r = n > 0 && h.pos < d.size() ? d.substr(h.pos, n) : "";
                        out(strf("fread(%s, %lld)", h.var.c_str(), (long long)n), quote(r));
                        h.pos += r.size();
                        h.last = 1;
                        if (!r.empty()) ++readBack;
                        break;
                    }
                    default: {
                        if (!h.wr) return;
                        if (h.last == 1) { size_t p = g.below(d.size() + 1); text += strf("fseek(%s, %zu)\n", h.var.c_str(), p); h.pos = p; }
                        std::string s = bytes(g, 20);
                        std::string x = strEx(g, tab, s);
                        if (g.chance(1, 3)) {
                            int64_t n = g.chance(1, 4) ? (int64_t)s.size() + g.range(1, 10) : (int64_t)g.below(s.size() + 1);
                            if (g.chance(1, 12)) n = -g.range(1, 100);   // nothing
                            if (g.chance(1, 12)) n = (int64_t)1 << g.range(31, 62);   // everything
                            text += strf("fwrite(%s, %s, %lld)\n", h.var.c_str(), x.c_str(), (long long)n);
                            s = s.substr(0, n < 0 ? 0 : n);
                        } else text += "fwrite(" + h.var + ", " + x + ")\n";
                        if (h.app) h.pos = d.size();
                        if (!s.empty()) {
                            if (h.pos > d.size()) d.resize(h.pos, '\0');
                            if (h.pos + s.size() > d.size()) d.resize(h.pos + s.size());
                            d.replace(h.pos, s.size(), s);
                            ++written;
                        }
                        h.pos += s.size();
                        h.last = 2;
                        break;
                    }
                }
            }
        }
    }
};
// How many files the process has open
int openFiles() {
    int n = 0;
    for (int i = 0; i < 1024; ++i) if (fcntl(i, F_GETFD) != -1) ++n;
    return n;
}
std::string slurp(const std::string &p, bool &ok) {
    std::string r;
    FILE *f = fopen(p.c_str(), "rb");
    ok = f;
    if (!f) return r;
    int ch;
    while ((ch = getc(f)) != EOF) r += (char)ch;
    fclose(f);
    return r;
}
void files(Gen &g, Case &c, bool longer) {
    Scratch s;
    F f(g, s.dir);
    int n = (int)(longer ? g.range(25, 90) : g.range(2, 25));
    for (int i = 0; i < n; ++i) f.op();
    for (auto &h : f.open) f.text += "fclose(" + h.var + ")\n";
    for (auto &d : f.disk) f.out("read_file(" + f.path(d.first) + ")", quote(d.second));
    std::string shown = f.text;
    for (size_t p; (p = shown.find(s.dir)) != std::string::npos;) shown.replace(p, s.dir.size(), "DIR");
    c.say(shown);
    sayStrings(c, f.tab);
    c.nontrivial = f.written >= 1 && f.readBack >= 1;
    c.labelIf(f.big > 0, "large file");
    table() = &f.tab;
    Host h;
    Tiny_BindStandardIO(h.state);
    bindStrings(h.state);
    h.mustCompile(f.text);
    int before = openFiles();
    Thread t(h);
    t.start();
    if (g.coin()) { do t.t->maxNumObjects = 0; while (t.step()); } else t.run();
    compareTrace(f.trace, t.trace);
    // a file left open would let later operations fail once there are too many
    PBT_CHECK(openFiles() == before, "%d files were open before and %d are afterwards", before, openFiles());
    for (auto &d : f.disk) {
        bool ok;
        std::string got = slurp(s.dir + "/" + d.first, ok);
        PBT_CHECK(ok, "%s is missing", d.first.c_str());
        if (got != d.second) pbt::fail(d.first + " contains " + differ(d.second, got));
    }
    t.destroy();
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain", t.ctx.live.size());
}

// ---- files of several GB, most of them a hole
void hugeFiles(Gen &g, Case &c) {
    Scratch s;
    std::string p = s.dir + "/huge";
    int64_t size = (g.coin() ? (int64_t)1 << g.range(31, 34) : (int64_t)g.below((uint64_t)1 << 34)) + g.range(-20, 20);
    if (size < 100) size += 100;
    std::map<int64_t, char> m;   // the bytes which are not zero
    FILE *f = fopen(p.c_str(), "wb");
    if (!f) pbt::fail("no scratch file");
    fclose(f);
    struct stat st;
    signal(SIGXFSZ, SIG_IGN);   // a limit on the size of files is no concern of ours
    if (truncate(p.c_str(), size) != 0 || stat(p.c_str(), &st) != 0 || st.st_blocks > 2048) { unlink(p.c_str()); c.label("no room"); return; }
    f = fopen(p.c_str(), "rb+");
    std::vector<int64_t> marks;
    for (int k = (int)g.range(1, 5); k > 0; --k) {
        int64_t at = (int64_t)g.below((uint64_t)size - 8);
        if (g.chance(1, 3)) at = size - 8 - (int64_t)g.below(20);
        marks.push_back(at);
        fseeko(f, at, SEEK_SET);
        for (int q = 0; q < 8; ++q) { char ch = (char)(1 + g.below(255)); putc(ch, f); m[at + q] = ch; }
        // what is there when the upper half of the position is lost
        int64_t low = at & 0x7fffffff;
        if (low + 8 > size) continue;
        fseeko(f, low, SEEK_SET);
        for (int q = 0; q < 8; ++q) { char ch = (char)(1 + g.below(255)); putc(ch, f); m[low + q] = ch; }
    }
    fclose(f);
    StrTable tab;
    std::string text = "f := fopen(" + strEx(g, tab, p, 1) + ", \"r+\")\n";
    std::vector<std::string> want;
    bool far = false;
    for (int k = (int)g.range(2, 12); k > 0; --k) {
        int64_t at = marks[g.below(marks.size())] + g.range(-4, 4);
        if (at < 0) at = 0;
        switch (g.below(4)) {
            case 0: text += "emit(fsize(f))\n"; want.push_back("emit " + std::to_string(size)); break;
            case 1: {
                std::string b = bytes(g, 10);
                text += strf("fseek(f, %lld)\nfwrite(f, ", (long long)at) + strEx(g, tab, b) + ")\n";
                for (size_t q = 0; q < b.size(); ++q) { m[at + (int64_t)q] = b[q]; size = std::max(size, at + (int64_t)q + 1); }
                break;
            }
            default: {
                int64_t n = (int64_t)g.below(14);
                std::string r;
                for (int64_t q = at; q < at + n && q < size; ++q) r += m.count(q) ? m[q] : '\0';
                text += strf("fseek(f, %lld)\n", (long long)at);
                text += strf("emit(fread(f, %lld))\n", (long long)n);
                want.push_back("emit " + quote(r));
                far |= at > INT32_MAX && n > 0;
            }
        }
    }
    text += "fclose(f)\n";
    std::string shown = text;
    for (size_t q; (q = shown.find(s.dir)) != std::string::npos;) shown.replace(q, s.dir.size(), "DIR");
    c.say(shown);
    sayStrings(c, tab);
    c.nontrivial = far;
    table() = &tab;
    Host h;
    Tiny_BindStandardIO(h.state);
    bindStrings(h.state);
    h.mustCompile(text);
    Thread t(h);
    t.start();
    t.run();
    compareTrace(want, t.trace);
    f = fopen(p.c_str(), "rb");
    for (auto &b : m) {
        fseeko(f, b.first, SEEK_SET);
        int ch = getc(f);
        if (ch != (unsigned char)b.second) { fclose(f); pbt::fail(strf("byte %lld of the file is %d, expected %d", (long long)b.first, ch, (unsigned char)b.second)); }
    }
    fclose(f);
    t.destroy();
    t.ctx.check("thread context");
    PBT_CHECK(t.ctx.live.empty(), "%zu blocks remain", t.ctx.live.size());
}
}  // namespace

int main(int argc, char **argv) {
    Property p;
    p.id = "C25";
    p.title = "Formatted output and file I/O transfer exactly the given bytes";
    p.assumptions = {"printf has an argument of the right kind for each directive", "between reading and writing a file the position is set (asking for its size sets it to the start)", "a file has one handle at a time"};
    p.families.push_back({"printf", "at least two directives", printing, 15000, 1500000});
    p.families.push_back({"input", "at least two lines", input, 8000, 800000});
    p.families.push_back({"files", "something was written and something read back", [](Gen &g, Case &c) { files(g, c, false); }, 8000, 900000});
    p.families.push_back({"long files", "something was written and something read back", [](Gen &g, Case &c) { files(g, c, true); }, 2000, 250000});
    p.families.push_back({"huge files", "something beyond the first 2 GB was read", hugeFiles, 3000, 300000});
    return run(argc, argv, p);
}
