// A minimal JSON reader and writer for the harness protocol (one value per line).
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum K { N, B, I, S, A, O } k = N;
    bool b = false;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J> > o;

    static J str(const std::string& x) { J j; j.k = S; j.s = x; return j; }
    static J num(long long x) { J j; j.k = I; j.i = x; return j; }
    static J boolean(bool x) { J j; j.k = B; j.b = x; return j; }
    static J arr() { J j; j.k = A; return j; }
    static J obj() { J j; j.k = O; return j; }
    J& add(const std::string& key, J v) { o.emplace_back(key, std::move(v)); return *this; }
    J& push(J v) { a.emplace_back(std::move(v)); return *this; }
    bool has(const char* key) const { for (auto& p : o) if (p.first == key) return true; return false; }
    const J& operator[](const char* key) const {
        for (auto& p : o) if (p.first == key) return p.second;
        throw std::runtime_error(std::string("harness: no field ") + key);
    }
    const J& operator[](size_t n) const { return a.at(n); }
    const J& operator[](int n) const { return a.at(size_t(n)); }
    size_t size() const { return a.size(); }
};

struct JReader {
    const char* p;
    explicit JReader(const std::string& s) : p(s.c_str()) {}
    void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') ++p; }
    void need(char c) { ws(); if (*p != c) throw std::runtime_error("harness: bad json"); ++p; }
    static void utf8(std::string& o, unsigned c) {
        if (c < 0x80) o += char(c);
        else if (c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xF0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    }
    unsigned hex4() { unsigned v = 0; for (int n = 0; n < 4; ++n) { char c = *p++; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
    std::string string() {
        need('"');
        std::string r;
        while (*p && *p != '"') {
            if (*p == '\\') {
                ++p;
                switch (*p++) {
                    case 'n': r += '\n'; break;
                    case 't': r += '\t'; break;
                    case 'r': r += '\r'; break;
                    case 'b': r += '\b'; break;
                    case 'f': r += '\f'; break;
                    case 'u': {
                        unsigned c = hex4();
                        if (c >= 0xD800 && c < 0xDC00 && p[0] == '\\' && p[1] == 'u') { p += 2; c = 0x10000 + ((c - 0xD800) << 10) + (hex4() - 0xDC00); }
                        utf8(r, c);
                        break;
                    }
                    default: r += p[-1];
                }
            } else r += *p++;
        }
        need('"');
        return r;
    }
    J value() {
        ws();
        J j;
        if (*p == '{') {
            ++p; j.k = J::O; ws();
            if (*p == '}') { ++p; return j; }
            for (;;) { ws(); std::string k = string(); need(':'); j.o.emplace_back(k, value()); ws(); if (*p == ',') { ++p; continue; } need('}'); return j; }
        }
        if (*p == '[') {
            ++p; j.k = J::A; ws();
            if (*p == ']') { ++p; return j; }
            for (;;) { j.a.emplace_back(value()); ws(); if (*p == ',') { ++p; continue; } need(']'); return j; }
        }
        if (*p == '"') { j.k = J::S; j.s = string(); return j; }
        if (!strncmp(p, "true", 4)) { p += 4; j.k = J::B; j.b = true; return j; }
        if (!strncmp(p, "false", 5)) { p += 5; j.k = J::B; return j; }
        if (!strncmp(p, "null", 4)) { p += 4; return j; }
        char* e; j.k = J::I; j.i = strtoll(p, &e, 10); if (e == p) throw std::runtime_error("harness: bad json"); p = e;
        return j;
    }
};

inline void jstr(std::string& out, const std::string& s) {
    out += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { out += '\\'; out += char(c); }
        else if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += char(c);
    }
    out += '"';
}
inline void jwrite(std::string& out, const J& j) {
    switch (j.k) {
        case J::N: out += "null"; break;
        case J::B: out += j.b ? "true" : "false"; break;
        case J::I: out += std::to_string(j.i); break;
        case J::S: jstr(out, j.s); break;
        case J::A: out += '['; for (size_t n = 0; n < j.a.size(); ++n) { if (n) out += ','; jwrite(out, j.a[n]); } out += ']'; break;
        case J::O: out += '{'; for (size_t n = 0; n < j.o.size(); ++n) { if (n) out += ','; jstr(out, j.o[n].first); out += ':'; jwrite(out, j.o[n].second); } out += '}'; break;
    }
}
#endif
