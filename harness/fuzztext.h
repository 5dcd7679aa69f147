// Damaged program texts: token-level and byte-level edits of valid ones, and free token sequences.
#pragma once
#include "lang.h"

namespace lang {

inline std::vector<std::string> roughTokens(const std::string &s) {
    std::vector<std::string> r;
    size_t i = 0;
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
    while (i < s.size()) {
        size_t b = i;
        if (isspace((unsigned char)s[i])) { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
        else if (word(s[i])) { while (i < s.size() && word(s[i])) ++i; }
        else if (s[i] == '"') { ++i; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') ++i; ++i; } ++i; if (i > s.size()) i = s.size(); }
        else if (s[i] == '\'' && i + 2 < s.size() && s[i + 1] != '\\' && s[i + 2] == '\'') i += 3;
        else if (s[i] == '\'' && i + 3 < s.size() && s[i + 1] == '\\' && s[i + 3] == '\'') i += 4;
        else if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') ++i; }
        else {
            static const char *two[] = {":=", "::", "==", "!=", "<=", ">=", "&&", "||", "->", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "<<", ">>"};
            ++i;
            for (auto t : two) if (s.compare(b, 2, t) == 0) i = b + 2;
        }
        r.push_back(s.substr(b, i - b));
    }
    return r;
}
inline const std::vector<std::string> &tokenPool() {
    static const std::vector<std::string> v = {
        "func", "if", "else", "while", "for", "return", "struct", "new", "null", "true", "false", "break", "continue", "use", "as", "cast",
        "(", ")", "{", "}", "[", "]", ",", ";", ":", "::", ":=", "=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "&&", "||", "!", "<<", ">>",
        "->", ".", "?", "...", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "0", "1", "255", "256", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "0x1F", "0x", "1.5", "1.", ".5", "1e5",
        "'a'", "'\\n'", "''", "'", "\"str\"", "\"", "\"\\", "\"\\n\"", "\"\\q\"", "int", "float", "str", "bool", "any", "void", "x", "y", "foo", "T", "T?", "_", "emit", "ti", "KI", "array", "json", "delegate", "dict",
        "//", "// c\n", "/*", "#", "@", "$", "`", "~", "^", "\\", "\n", "\t", " ", "\xff", "\xc3\xa9", "int?", "a_b", "main", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"};
    return v;
}
// A few edits; the outcome may or may not be valid.
inline std::string mutateText(pbt::Gen &g, const std::string &src, int maxEdits = 5) {
    std::vector<std::string> t = roughTokens(src);
    int n = (int)g.range(1, maxEdits);
    const auto &pool = tokenPool();
    for (int i = 0; i < n; ++i) {
        if (t.empty()) t.push_back("x");
        size_t at = g.below(t.size());
        switch (g.below(11)) {
            case 0: t.erase(t.begin() + at); break;
            case 1: t.insert(t.begin() + at, pool[g.below(pool.size())]); break;
            case 2: t[at] = pool[g.below(pool.size())]; break;
            case 3: t.insert(t.begin() + at, t[g.below(t.size())]); break;
            case 4: std::swap(t[at], t[g.below(t.size())]); break;
            case 5: t[at] = t[g.below(t.size())]; break;
            case 6: {  // repeat or drop a stretch
                size_t len = 1 + g.below(12);
                if (at + len > t.size()) len = t.size() - at;
                std::vector<std::string> piece(t.begin() + at, t.begin() + at + len);
                if (g.coin()) t.erase(t.begin() + at, t.begin() + at + len);
                else t.insert(t.begin() + g.below(t.size() + 1), piece.begin(), piece.end());
                break;
            }
            case 7: t.resize(at); break;
            case 8: t.erase(t.begin(), t.begin() + at); break;
            case 9: {  // bytes
                std::string &s = t[at];
                if (s.empty()) break;
                size_t k = g.below(s.size());
                switch (g.below(3)) {
                    case 0: s[k] = (char)(1 + g.below(255)); break;
                    case 1: s.erase(k, 1); break;
                    default: s.insert(k, 1, (char)(1 + g.below(255))); break;
                }
                break;
            }
            default: t.insert(t.begin() + at, " "); t.insert(t.begin() + at, pool[g.below(pool.size())]); break;
        }
        if (t.size() > 6000) t.resize(6000);
    }
    std::string r;
    for (auto &x : t) r += x;
    for (char &c : r) if (!c) c = '0';
    return r;
}
}  // namespace lang
