// Harness for the parser: executes the operations of spec/Blue.tla on the real code, through its C interface.
#include <sstream>
#include "model.h"
#include "calls.h"
#include "grammar.h"
#include "loop.h"

// ---- the lines a source map names, without the blanks around them and without empty ones
static std::string source;
static std::vector<size_t> chars; // where each character of the source begins

static void readSource(const std::string& s)
{
    source = s;
    chars.clear();
    for (size_t i = 0; i < s.size(); ++i)
        if ((static_cast<unsigned char>(s[i]) & 0xC0) != 0x80) chars.push_back(i);
    chars.push_back(s.size());
}

static size_t number(const IElement* e)
{
    auto n = dynamic_cast<const NumberElement*>(e);
    return n && !n->empty() ? size_t(strtoull(n->get().get().c_str(), nullptr, 10)) : 0;
}

template <typename F> static void ranges(const IElement& map, F f)
{
    for (auto a : kids(map))
        for (auto r : kids(*a)) {
            auto k = kids(*r);
            if (k.size() == 2) f(number(k[0]), number(k[1]));
        }
}

static J lines(const IElement& map)
{
    std::string x;
    ranges(map, [&](size_t b, size_t n) {
        size_t e = std::min(b + n, chars.size() - 1);
        if (b < e) x += source.substr(chars[b], chars[e] - chars[b]);
    });
    J l = J::arr();
    std::istringstream s(x);
    for (std::string t; std::getline(s, t);) {
        size_t b = t.find_first_not_of(" \t\r"), e = t.find_last_not_of(" \t\r");
        if (b != std::string::npos) l.push(J::str(t.substr(b, e - b + 1)));
    }
    return l;
}

static const IElement* part(const InfoElements& x, const char* k)
{
    for (auto& p : x) if (p.first == k) return p.second.get();
    return nullptr;
}

static J strip(J e, const IElement* of, bool maps);
static J stripInfo(const J& l, const InfoElements& of, bool maps)
{
    J r = J::arr();
    size_t i = 0;
    for (auto& p : of) {
        const J& x = l[i++];
        if (p.first == "sourceMap") {
            if (maps) r.push(J::obj().add("k", J::str(p.first)).add("el", J::obj().add("lines", lines(*p.second))));
        } else
            r.push(J::obj().add("k", x["k"]).add("el", strip(x["el"], p.second.get(), maps)));
    }
    std::stable_sort(r.a.begin(), r.a.end(), [](const J& x, const J& y) { return x["k"].s < y["k"].s; });
    return r;
}
// the shown element, without source maps or with what they name
static J strip(J e, const IElement* of, bool maps)
{
    if (!of) return e;
    J r = J::obj();
    auto k = kids(*of);
    for (auto& p : e.o) {
        if (p.first == "m") r.add("m", stripInfo(p.second, of->meta(), maps));
        else if (p.first == "a") r.add("a", stripInfo(p.second, of->attributes(), maps));
        else if (p.first == "c") {
            J c = J::arr();
            for (size_t i = 0; i < p.second.size(); ++i) c.push(i < k.size() ? strip(p.second[i], k[i], maps) : p.second[i]);
            r.add("c", c);
        } else r.add(p.first, p.second);
    }
    return r;
}

static long long lineOf(size_t c)
{
    long long n = 1;
    for (size_t i = 0; i < c && i + 1 < chars.size(); ++i) n += source[chars[i]] == '\n';
    return n;
}

static J note(const IElement& e)
{
    std::string cls;
    if (auto c = part(e.meta(), "classes"))
        for (auto k : kids(*c)) if (auto s = dynamic_cast<const StringElement*>(k)) cls += s->get().get();
    long long line = 0;
    if (auto m = part(e.attributes(), "sourceMap")) {
        bool first = true;
        ranges(*m, [&](size_t b, size_t) { if (first) line = lineOf(b); first = false; });
    }
    auto code = part(e.attributes(), "code");
    return J::obj().add("cls", J::str(cls)).add("code", J::num((long long)number(code))).add("line", J::num(line));
}

static drafter_parse_options* options(const J& o)
{
    auto p = drafter_init_parse_options();
    if (o["name"].b) drafter_set_name_required(p);
    if (o["bodies"].b) drafter_set_skip_gen_bodies(p);
    if (o["schemas"].b) drafter_set_skip_gen_body_schemas(p);
    return p;
}

static J parse(const J& r)
{
    auto opts = options(r["opts"]);
    const std::string text = r["text"].s;
    readSource(text);
    drafter_result* res = nullptr;
    int rc = drafter_parse_blueprint(text.c_str(), &res, opts);
    J notes = J::arr(), ast = nil();
    long long cats = 0;
    if (res) {
        for (auto k : kids(*res)) {
            if (k->element() == "annotation") notes.push(note(*k));
            else { ++cats; ast = strip(show(k), k, r["opts"]["maps"].b); }
        }
    }
    J out = J::obj().add("rc", J::num(rc)).add("cats", J::num(cats)).add("ast", ast).add("notes", notes);
    drafter_free_result(res);
    drafter_free_parse_options(opts);
    return out;
}

static J handle(const J& r)
{
    const std::string op = r["op"].s;
    J res = J::obj();
    if (op == "parse") res = parse(r);
    else if (op == "uri" || op == "media" || op == "sign") res = grammar::apply(r);
    else if (op == "reset" || op == "load") calls::reset();
    else {
        res = calls::call(r);
        if (op == "read" || op == "check") {
            readSource(r["text"].s);
            J nl = J::arr();
            for (size_t i = 0; i + 1 < chars.size(); ++i) if (source[chars[i]] == '\n') nl.push(J::num((long long)i + 1));
            res.add("len", J::num((long long)chars.size() - 1)).add("octets", J::num((long long)source.size())).add("nl", nl);
        }
    }
    return J::obj().add("res", res);
}

int main()
{
    return serve(handle);
}
