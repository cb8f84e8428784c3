// The C interface as a client sees it: results, options and what is done with them (spec/Calls.tla).
#ifndef VERIF_CALLS_H
#define VERIF_CALLS_H
#include <cstdlib>
#include <string>
#include "drafter.h"
#include "model.h"

namespace calls
{
    static drafter_result* results[3];
    static drafter_parse_options* popts[2];
    static drafter_serialize_options* sopts[2];

    static const std::string& text(const IElement* e, bool& ok)
    {
        static const std::string none;
        auto n = dynamic_cast<const NumberElement*>(e);
        ok = ok && n && !n->empty() && n->meta().begin() == n->meta().end();
        return n ? n->get().get() : none;
    }

    // [location, length] or, with their positions, [location, length, line, column, last line, last column]
    static J range(const IElement* r, bool& ok)
    {
        J x = J::arr();
        auto k = kids(*r);
        ok = ok && k.size() == 2 && dynamic_cast<const ArrayElement*>(r);
        if (!ok) return x;
        for (auto e : k) x.push(J::num(atoll(text(e, ok).c_str())));
        for (auto e : k) {
            size_t n = 0;
            for (auto& p : e->attributes()) {
                ok = ok && p.first == (n++ ? "column" : "line");
                x.push(J::num(atoll(text(p.second.get(), ok).c_str())));
            }
            ok = ok && (n == 0 || n == 2);
        }
        return x;
    }

    // a source map in short; shown like any other element where it is not of the shape of one
    static J shortly(const IElement* e, const J& full);
    static J info(const InfoElements& x, const J& full)
    {
        J r = J::arr();
        size_t n = 0;
        for (auto& p : x) {
            const J& all = full[n++]["el"];
            J el;
            if (p.first == "sourceMap") {
                bool ok = dynamic_cast<const ArrayElement*>(p.second.get());
                J maps = J::arr();
                auto a = ok ? kids(*p.second) : std::vector<const IElement*>();
                ok = ok && a.size() == 1 && a[0]->element() == "sourceMap" && p.second->element() == "array";
                if (ok) for (auto y : kids(*a[0])) maps.push(range(y, ok));
                el = ok ? J::obj().add("maps", maps) : all;
            } else
                el = shortly(p.second.get(), all);
            r.push(J::obj().add("k", J::str(p.first)).add("el", el));
        }
        return r;
    }
    static J shortly(const IElement* e, const J& full)
    {
        if (!e) return full;
        J r = J::obj();
        for (auto& p : full.o) {
            if (p.first == "m") r.add("m", info(e->meta(), p.second));
            else if (p.first == "a") r.add("a", info(e->attributes(), p.second));
            else if (p.first == "c") {
                auto k = kids(*e);
                J c = J::arr();
                for (size_t i = 0; i < p.second.size(); ++i) c.push(i < k.size() ? shortly(k[i], p.second[i]) : p.second[i]);
                r.add("c", c);
            } else r.add(p.first, p.second);
        }
        return r;
    }

    static J shortly(const IElement* e) { return e ? shortly(e, show(e)) : nil(); }

    // ---- what was written, read back: [k, v, ks, c] as in spec/Values.tla
    static J value(const char* k, const std::string& v = "", J ks = J::arr(), J c = J::arr())
    {
        return J::obj().add("k", J::str(k)).add("v", J::str(v)).add("ks", ks).add("c", c);
    }

    struct Unreadable {};

    class Reader
    {
        const std::string& s;
        size_t i = 0;
        void ws() { while (i < s.size() && strchr(" \n\r\t", s[i])) ++i; }
        char at() const { return i < s.size() ? s[i] : '\0'; }
        bool take(char c) { if (at() != c) return false; ++i; return true; }
        void need(char c) { if (!take(c)) throw Unreadable(); }
        static void utf8(std::string& o, unsigned c)
        {
            if (c < 0x80) o += char(c);
            else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
            else { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
        }

    public:
        explicit Reader(const std::string& t) : s(t) {}
        std::string string()
        {
            std::string o;
            need('"');
            while (at() != '"') {
                if (i >= s.size()) throw Unreadable();
                char c = s[i++];
                if (c != '\\') { o += c; continue; }
                c = at();
                ++i;
                size_t n = c == 'u' ? 4 : c == 'x' ? 2 : c == 'U' ? 8 : 0;
                if (n) { utf8(o, unsigned(strtoul(s.substr(i, n).c_str(), nullptr, 16))); i += n; continue; }
                switch (c) {
                    case 'n': o += '\n'; break;
                    case 't': o += '\t'; break;
                    case 'r': o += '\r'; break;
                    case 'b': o += '\b'; break;
                    case 'f': o += '\f'; break;
                    case 'a': o += '\a'; break;
                    case 'v': o += '\v'; break;
                    case 'e': o += '\x1b'; break;
                    case '0': o += '\0'; break;
                    case 'N': utf8(o, 0x85); break;
                    case '_': utf8(o, 0xA0); break;
                    case 'L': utf8(o, 0x2028); break;
                    case 'P': utf8(o, 0x2029); break;
                    case '"': case '\\': case '/': o += c; break;
                    default: throw Unreadable();
                }
            }
            ++i;
            return o;
        }
        J scalar()
        {
            if (at() == '"') return value("string", string());
            size_t b = i;
            while (i < s.size() && !strchr(",]} \n", s[i])) ++i;
            const std::string w = s.substr(b, i - b);
            if (w == "null" || w == "true" || w == "false") return value(w.c_str());
            if (w.empty() || !strchr("-+.0123456789", w[0])) throw Unreadable();
            return value("number", w);
        }
        J json()
        {
            ws();
            J ks = J::arr(), c = J::arr();
            if (take('[')) {
                ws();
                if (take(']')) return value("array");
                do c.push(json()); while ((ws(), take(',')));
                need(']');
                return value("array", "", ks, c);
            }
            if (take('{')) {
                ws();
                if (take('}')) return value("object");
                do {
                    ws();
                    ks.push(J::str(string()));
                    ws();
                    need(':');
                    c.push(json());
                } while ((ws(), take(',')));
                need('}');
                return value("object", "", ks, c);
            }
            return scalar();
        }
        // a block of lines that begin in the column the text stands at
        size_t column() const { size_t b = s.rfind('\n', i ? i - 1 : 0); return b == std::string::npos || b >= i ? i : i - b - 1; }
        bool next(size_t col) // goes on to the next line if it begins in that column
        {
            if (at() != '\n') return false;
            size_t j = i + 1;
            while (j < s.size() && s[j] == ' ') ++j;
            if (j >= s.size() || s[j] == '\n' || j - i - 1 != col) return false;
            i = j;
            return true;
        }
        J behind(size_t col) // what stands behind a dash or a key
        {
            if (take(' ')) {
                if (s.compare(i, 2, "{}") == 0) { i += 2; return value("object"); }
                if (s.compare(i, 2, "[]") == 0) { i += 2; return value("array"); }
                if (s.compare(i, 2, "- ") == 0 || s.compare(i, 2, "-\n") == 0) return block();
                size_t j = i;
                if (at() == '"') { string(); bool key = at() == ':'; i = j; if (key) return block(); return scalar(); }
                while (j < s.size() && isalpha(static_cast<unsigned char>(s[j]))) ++j;
                return j < s.size() && s[j] == ':' ? block() : scalar();
            }
            if (at() != '\n') throw Unreadable();
            size_t j = i + 1;
            while (j < s.size() && s[j] == ' ') ++j;
            if (j - i - 1 <= col) throw Unreadable();
            i = j;
            return block();
        }
        J block()
        {
            const size_t col = column();
            J ks = J::arr(), c = J::arr();
            if (at() == '-' && (i + 1 >= s.size() || s[i + 1] == ' ' || s[i + 1] == '\n')) {
                do { need('-'); c.push(behind(col)); } while (next(col) && at() == '-');
                return value("array", "", ks, c);
            }
            do {
                std::string k;
                if (at() == '"') k = string();
                else while (isalpha(static_cast<unsigned char>(at()))) k += s[i++];
                need(':');
                ks.push(J::str(k));
                c.push(behind(col));
            } while (next(col));
            return value("object", "", ks, c);
        }
        bool end() { ws(); return i == s.size(); }
    };

    static J written(char* out)
    {
        if (!out) return J::obj().add("f", J::str("none")).add("v", nil());
        const std::string s = out;
        free(out);
        const bool json = !s.empty() && s[0] == '{';
        try {
            Reader r(s);
            J v = json ? r.json() : r.block();
            if (r.end()) return J::obj().add("f", J::str(json ? "json" : "yaml")).add("v", v);
        } catch (Unreadable) {
        }
        return J::obj().add("f", J::str("unreadable")).add("v", J::str(s));
    }

    // ---- the calls
    template <typename T> static T* of(T* const* a, const J& i) { return i.i > 0 ? a[i.i - 1] : nullptr; }

    static J call(const J& r)
    {
        const std::string op = r["op"].s;
        J res = J::obj();
        if (op == "popts") {
            const std::string act = r["act"].s;
            auto& p = popts[r["slot"].i - 1];
            if (act == "init") { drafter_free_parse_options(p); p = drafter_init_parse_options(); }
            else if (act == "free") { drafter_free_parse_options(p); p = nullptr; }
            else if (act == "name") drafter_set_name_required(p);
            else if (act == "bodies") drafter_set_skip_gen_bodies(p);
            else drafter_set_skip_gen_body_schemas(p);
        } else if (op == "sopts") {
            const std::string act = r["act"].s;
            auto& p = sopts[r["slot"].i - 1];
            if (act == "init") { drafter_free_serialize_options(p); p = drafter_init_serialize_options(); }
            else if (act == "free") { drafter_free_serialize_options(p); p = nullptr; }
            else if (act == "maps") drafter_set_sourcemaps_included(p);
            else drafter_set_format(p, act == "json" ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
        } else if (op == "read" || op == "check") {
            std::string t = r["text"].s;
            auto f = op == "read" ? drafter_parse_blueprint : drafter_check_blueprint;
            static char before[8]; // what the caller left in the output is of no concern
            drafter_result* out = reinterpret_cast<drafter_result*>(before);
            const size_t to = size_t(r["out"].i);
            int rc = f(r["null"].b ? nullptr : t.c_str(), to ? &out : nullptr, of(popts, r["opts"]));
            std::fill(t.begin(), t.end(), '#'); // the text is not needed any more
            if (out == reinterpret_cast<drafter_result*>(before)) {
                out = nullptr;
                if (to && rc != DRAFTER_EINVALID_INPUT) rc = -99; // no answer given
            }
            res.add("rc", J::num(rc));
            if (to) {
                drafter_free_result(results[to - 1]);
                results[to - 1] = out;
                res.add("tree", shortly(out));
            }
        } else if (op == "readto") {
            const std::string t = r["text"].s;
            char before[] = "before";
            char* out = before;
            int rc = drafter_parse_blueprint_to(r["null"].b ? nullptr : t.c_str(), r["want"].b ? &out : nullptr, of(popts, r["opts"]), of(sopts, r["sopts"]));
            if (out == before) {
                out = nullptr;
                if (r["want"].b && rc != DRAFTER_EINVALID_INPUT) rc = -99;
            }
            res.add("rc", J::num(rc)).add("x", written(out));
        } else if (op == "write") {
            res.add("x", written(drafter_serialize(of(results, r["h"]), of(sopts, r["sopts"]))));
        } else if (op == "free") {
            drafter_free_result(of(results, r["h"]));
            if (r["h"].i) results[r["h"].i - 1] = nullptr;
        } else if (op == "look") {
            res.add("tree", shortly(of(results, r["h"])));
        } else
            throw std::runtime_error("harness: unknown operation " + op);
        return res;
    }

    static void reset()
    {
        for (auto& x : results) { drafter_free_result(x); x = nullptr; }
        for (auto& x : popts) { drafter_free_parse_options(x); x = nullptr; }
        for (auto& x : sopts) { drafter_free_serialize_options(x); x = nullptr; }
    }
}
#endif
