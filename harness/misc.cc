// Harness for what surrounds the element library: source ranges, positions, UTF-8, the markdown tree, media types, regular
// expressions, reports and options.  Executes the operations of spec/Tools.tla on the real code.
#include <iostream>
#include <new>
#include <sstream>
#include "model.h"
#include "ByteBuffer.h"
#include "MarkdownNode.h"
#include "RegexMatch.h"
#include "Section.h"
#include "SourceAnnotation.h"
#include "SourceMapUtils.h"
#include "apib/syntax/MediaType.h"
#include "backend/MediaTypeS11n.h"
#include "backend/Backend.h"
#include "options.h"
#include "reporting.h"
#include "ConversionContext.h"
#include "utils/Utf8.h"
#include "loop.h"

// what snowcrash.cc defines (not built here)
const int snowcrash::SourceAnnotation::OK = 0;

static const int NSETS = 2, NNODES = 3;
static mdp::BytesRangeSet sets[NSETS];
struct Node { // a node that keeps its address
    alignas(mdp::MarkdownNode) unsigned char room[sizeof(mdp::MarkdownNode)];
    bool made = false;
    mdp::MarkdownNode& get() { return *reinterpret_cast<mdp::MarkdownNode*>(room); }
    void drop() { if (made) get().~MarkdownNode(); made = false; }
};
static Node nodes[NNODES];
static drafter_parse_options popt;
static drafter_serialize_options sopt;

static std::string bytes(const J& j) { std::string s; for (auto& x : j.a) s += char(x.i); return s; }
static J showBytes(const std::string& s) { J l = J::arr(); for (unsigned char c : s) l.push(J::num(c)); return l; }
static mdp::BytesRangeSet ranges(const J& j)
{
    mdp::BytesRangeSet r;
    for (auto& x : j.a) r.push_back(mdp::BytesRange(size_t(x[0].i), size_t(x[1].i)));
    return r;
}
static J showRanges(const std::vector<mdp::Range>& r)
{
    J l = J::arr();
    for (auto& x : r) l.push(J::arr().push(J::num((long long)x.location)).push(J::num((long long)x.length)));
    return l;
}
static int slotOf(const mdp::MarkdownNode* n)
{
    for (int i = 0; i < NNODES; ++i) if (n == &nodes[i].get()) return i + 1;
    return -1;
}
static mdp::MarkdownNode* parentArg(const J& j) { return j.i ? &nodes[j.i - 1].get() : nullptr; }
static mdp::MarkdownNode literal(const J& j)
{
    mdp::MarkdownNode n(mdp::MarkdownNodeType(j["type"].i), parentArg(j["parent"]), j["text"].s, int(j["data"].i));
    n.sourceMap = ranges(j["map"]);
    for (auto& k : j["kids"].a) n.children().push_back(literal(k));
    return n;
}
static J show(const mdp::MarkdownNode& n)
{
    J k = J::arr();
    for (auto& c : n.children()) k.push(show(c));
    return J::obj().add("type", J::num(n.type)).add("text", J::str(n.text)).add("data", J::num(n.data)).add("map", showRanges(n.sourceMap))
        .add("parent", J::num(n.hasParent() ? slotOf(&n.parent()) : 0)).add("kids", k);
}
static mdp::MarkdownNode& nodeAt(const J& s, const J& path)
{
    mdp::MarkdownNode* n = &nodes[s.i - 1].get();
    for (auto& x : path.a) n = &n->children().at(size_t(x.i - 1));
    return *n;
}
static bool throwsNoParent(mdp::MarkdownNode& n)
{
    int count = 0;
    try { n.parent(); } catch (const char*) { ++count; }
    try { const mdp::MarkdownNode& c = n; c.parent(); } catch (const char*) { ++count; }
    return count == 2;
}

static apib::syntax::media_type mediaType(const J& j)
{
    apib::syntax::media_type m;
    m.type = bytes(j["type"]);
    m.subtype = bytes(j["subtype"]);
    m.suffix = bytes(j["suffix"]);
    for (auto& p : j["params"].a) m.parameters.emplace_back(bytes(p[0]), bytes(p[1]));
    return m;
}

template <typename F> static std::string captured(F f)
{
    std::ostringstream o;
    auto was = std::cerr.rdbuf(o.rdbuf());
    f();
    std::cerr.rdbuf(was);
    return o.str();
}
static snowcrash::SourceAnnotation annotation(const J& j)
{
    return snowcrash::SourceAnnotation(j["message"].s, int(j["code"].i), ranges(j["location"]));
}
static J show(const snowcrash::SourceAnnotation& a)
{
    return J::obj().add("message", J::str(a.message)).add("code", J::num(a.code)).add("location", showRanges(a.location));
}
static snowcrash::Report report(const J& j)
{
    snowcrash::Report r;
    r.error = annotation(j["error"]);
    for (auto& w : j["warnings"].a) r.warnings.push_back(annotation(w));
    return r;
}
static J show(const snowcrash::Report& r)
{
    J w = J::arr();
    for (auto& x : r.warnings) w.push(show(x));
    return J::obj().add("error", show(r.error)).add("warnings", w);
}

static J decoded(const std::string& s, int how)
{
    using namespace drafter::utils::utf8;
    J l = J::arr();
    if (how == 0) {
        for (auto it = s.begin(); it != s.end();) {
            auto r = decode_one(it, s.end());
            l.push(J::arr().push(J::num(r.first)).push(J::num(r.second - it)));
            if (r.second <= it || r.second > s.end()) break;
            it = r.second;
        }
        return l;
    }
    using It = input_iterator<std::string::const_iterator>;
    It e{ s.end(), s.end() };
    It i = how == 1 ? It(s) : It{ s.begin(), s.end() };
    while (i != e && l.size() <= s.size()) {
        if (how == 2) l.push(J::num(*i++));
        else {
            l.push(J::num(*i.operator->()));
            ++i;
        }
    }
    return l;
}

static J state()
{
    J s = J::arr(), n = J::arr(), o = J::arr();
    for (auto& x : sets) s.push(showRanges(x));
    for (auto& x : nodes) n.push(x.made ? J::arr().push(show(x.get())) : J::arr());
    auto cp = &popt;
    auto cs = &sopt;
    o.push(J::boolean(drafter::is_name_required(cp))).push(J::boolean(drafter::is_skip_gen_bodies(cp)))
        .push(J::boolean(drafter::is_skip_gen_body_schemas(cp))).push(J::boolean(drafter::are_sourcemaps_included(cs)))
        .push(J::boolean(drafter::get_format(cs) == DRAFTER_SERIALIZE_JSON));
    return J::obj().add("sets", s).add("nodes", n).add("opts", o);
}

static void setOption(int i, bool b)
{
    if (i == 1) popt.flags.set(drafter_parse_options::NAME_REQUIRED, b);
    else if (i == 2) popt.flags.set(drafter_parse_options::SKIP_GEN_BODIES, b);
    else if (i == 3) popt.flags.set(drafter_parse_options::SKIP_GEN_BODY_SCHEMAS, b);
    else if (i == 4) sopt.flags.set(drafter_serialize_options::SOURCEMAPS_INCLUDED, b);
    else sopt.format = b ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML;
}

static void clear()
{
    for (auto& x : sets) x.clear();
    for (auto& x : nodes) x.drop();
    popt = drafter_parse_options{};
    sopt = drafter_serialize_options{};
}

static void perform(const std::string& op, const J& r, J& res)
{
    // ---- byte ranges
    if (op == "index") {
        mdp::ByteBufferCharacterIndex x;
        for (long long i = 0; i < r["n"].i; ++i) x.push_back(7); // what an earlier document left behind
        mdp::BuildCharacterIndex(x, bytes(r["doc"]));
        J l = J::arr();
        for (auto i : x) l.push(J::num((long long)i));
        res.add("x", l);
    } else if (op == "chars") {
        const std::string doc = bytes(r["doc"]);
        mdp::ByteBufferCharacterIndex x;
        mdp::BuildCharacterIndex(x, doc);
        res.add("x", showRanges(mdp::BytesRangeSetToCharactersRangeSet(ranges(r["rs"]), doc)));
        res.add("y", showRanges(mdp::BytesRangeSetToCharactersRangeSet(ranges(r["rs"]), x)));
    } else if (op == "anychars") { // neither the document nor the ranges are well-formed: any answer will do
        const std::string doc = bytes(r["doc"]);
        mdp::ByteBufferCharacterIndex x;
        mdp::BuildCharacterIndex(x, doc);
        mdp::BytesRangeSetToCharactersRangeSet(ranges(r["rs"]), doc);
        mdp::BytesRangeSetToCharactersRangeSet(ranges(r["rs"]), x);
    } else if (op == "rset") sets[r["d"].i - 1] = ranges(r["rs"]);
    else if (op == "rappend") sets[r["d"].i - 1].append(sets[r["s"].i - 1]);
    else if (op == "rmap") res.add("x", showBytes(mdp::MapBytesRangeSet(sets[r["s"].i - 1], bytes(r["doc"]))));
    // ---- lines and columns
    else if (op == "lines") {
        J l = J::arr();
        for (auto i : drafter::GetLinesEndIndex(bytes(r["doc"]))) l.push(J::num((long long)i));
        res.add("x", l);
    } else if (op == "pos" || op == "anypos") {
        auto p = drafter::GetLineFromMap(drafter::GetLinesEndIndex(bytes(r["doc"])), mdp::Range(size_t(r["loc"].i), size_t(r["len"].i)));
        if (op == "pos")
            res.add("x", J::arr().push(J::num((long long)p.fromLine)).push(J::num((long long)p.fromColumn)).push(J::num((long long)p.toLine)).push(J::num((long long)p.toColumn)));
    }
    // ---- markdown nodes
    else if (op == "mnew") {
        Node& n = nodes[r["d"].i - 1];
        mdp::MarkdownNode* parent = parentArg(r["parent"]);
        n.drop();
        if (r["full"].b) new (n.room) mdp::MarkdownNode(mdp::MarkdownNodeType(r["type"].i), parent, r["text"].s, int(r["data"].i));
        else new (n.room) mdp::MarkdownNode();
        n.made = true;
    } else if (op == "mcopy") {
        Node& n = nodes[r["d"].i - 1];
        n.drop();
        new (n.room) mdp::MarkdownNode(static_cast<const mdp::MarkdownNode&>(nodeAt(r["s"], r["q"])));
        n.made = true;
    } else if (op == "massign") {
        mdp::MarkdownNode& d = nodeAt(r["d"], r["p"]);
        res.add("b", J::boolean(&(d = static_cast<const mdp::MarkdownNode&>(nodeAt(r["s"], r["q"]))) == &d));
    } else if (op == "mtype") nodeAt(r["d"], r["p"]).type = mdp::MarkdownNodeType(r["x"].i);
    else if (op == "mtext") nodeAt(r["d"], r["p"]).text = r["x"].s;
    else if (op == "mdata") nodeAt(r["d"], r["p"]).data = int(r["x"].i);
    else if (op == "mmap") nodeAt(r["d"], r["p"]).sourceMap.append(ranges(r["rs"]));
    else if (op == "mparent") nodeAt(r["d"], r["p"]).setParent(parentArg(r["parent"]));
    else if (op == "mpush") nodeAt(r["d"], r["p"]).children().push_back(literal(r["el"]));
    else if (op == "mpushcopy") nodeAt(r["d"], r["p"]).children().push_back(nodeAt(r["s"], r["q"]));
    else if (op == "mera") {
        auto& c = nodeAt(r["d"], r["p"]).children();
        c.erase(c.begin() + (r["i"].i - 1));
    } else if (op == "mask") {
        mdp::MarkdownNode& n = nodeAt(r["d"], r["p"]);
        res.add("b", J::boolean(n.hasParent()));
        if (n.hasParent()) {
            const mdp::MarkdownNode& c = n;
            res.add("x", J::num(&n.parent() == &c.parent() ? slotOf(&n.parent()) : -2));
        } else
            res.add("x", J::num(throwsNoParent(n) ? 0 : -3));
    }
    // ---- UTF-8
    else if (op == "decode") {
        J l = J::arr();
        for (auto& d : r["docs"].a) {
            const std::string s = bytes(d);
            J x = J::arr();
            for (int how = 0; how < 4; ++how) x.push(decoded(s, how));
            l.push(x);
        }
        res.add("x", l);
    } else if (op == "encode") {
        J l = J::arr();
        for (auto& c : r["cps"].a) {
            std::string s;
            drafter::utils::utf8::encode(drafter::utils::utf8::codepoint(c.i), std::back_inserter(s));
            l.push(showBytes(s));
        }
        res.add("x", l);
    }
    // ---- media types
    else if (op == "media") {
        const apib::syntax::media_type m = mediaType(r["mt"]);
        res.add("json", J::boolean(apib::isJSON(m))).add("schema", J::boolean(apib::isJSONSchema(m)))
            .add("x", showBytes(apib::backend::serialize(m)));
        std::ostringstream o;
        o << "<";
        apib::backend::operator<<(o, m) << ">";
        if (o.str() != "<" + apib::backend::serialize(m) + ">") res.add("stream", J::str(o.str()));
    }
    // ---- regular expressions
    else if (op == "regex") {
        const std::string t = r["t"].s, x = r["x"].s;
        res.add("b", J::boolean(snowcrash::RegexMatch(t, x)));
        snowcrash::CaptureGroups g{ "left", "behind" };
        bool m = r["n"].i == 8 ? snowcrash::RegexCapture(t, x, g) : snowcrash::RegexCapture(t, x, g, size_t(r["n"].i));
        res.add("m", J::boolean(m));
        J l = J::arr();
        if (m) for (auto& s : g) l.push(J::str(s));
        res.add("g", l).add("first", J::str(snowcrash::RegexCaptureFirst(t, x)));
    } else if (op == "section") {
        res.add("x", J::str(snowcrash::SectionName(snowcrash::SectionType(r["i"].i))));
    }
    // ---- reports
    else if (op == "report") {
        EP e = build(r["el"]);
        res.add("x", J::str(captured([&] { PrintReport(e.get(), bytes(r["doc"]), r["lines"].b, int(r["error"].i)); })));
        res.add("el", show(e.get()));
    } else if (op == "treport") {
        const snowcrash::Report t = report(r["r"]);
        res.add("x", J::str(captured([&] { PrintReport(t, bytes(r["doc"]), r["lines"].b); })));
        res.add("r", show(t));
    } else if (op == "radd") {
        snowcrash::Report a = report(r["r"]), b = report(r["s"]);
        res.add("b", J::boolean(&(a += b) == &a)).add("r", show(a)).add("s", show(b));
        snowcrash::Report c(a), d;
        d = a;
        a.error.message = "changed";
        a.warnings.clear();
        res.add("c", show(c)).add("d", show(d));
    }
    else if (op == "warn") { // what a conversion gathers
        drafter::ConversionContext context("");
        const snowcrash::Report t = report(r["r"]);
        for (auto& w : t.warnings) context.warn(w);
        J l = J::arr();
        for (auto& w : context.warnings()) l.push(show(w));
        res.add("x", l).add("r", show(t));
    }
    // ---- options
    else if (op == "opt") setOption(int(r["i"].i), r["b"].b);
    else if (op == "noopt") {
        J o = J::arr();
        o.push(J::boolean(drafter::is_name_required(nullptr))).push(J::boolean(drafter::is_skip_gen_bodies(nullptr)))
            .push(J::boolean(drafter::is_skip_gen_body_schemas(nullptr))).push(J::boolean(drafter::are_sourcemaps_included(nullptr)))
            .push(J::boolean(drafter::get_format(nullptr) == DRAFTER_SERIALIZE_JSON));
        res.add("x", o);
    } else
        throw std::runtime_error("harness: unknown operation " + op);
}

static J handle(const J& r)
{
    const std::string op = r["op"].s;
    J res = J::obj();
    if (op == "load" || op == "reset") {
        clear();
        if (op == "load") {
            const J& st = r["st"];
            for (int i = 0; i < NSETS; ++i) sets[i] = ranges(st["sets"][i]);
            for (int i = 0; i < NNODES; ++i)
                if (st["nodes"][i].size()) { // addresses first, links afterwards
                    new (nodes[i].room) mdp::MarkdownNode();
                    nodes[i].made = true;
                }
            for (int i = 0; i < NNODES; ++i)
                if (st["nodes"][i].size()) nodes[i].get() = literal(st["nodes"][i][0]);
            for (int i = 0; i < 5; ++i) setOption(i + 1, st["opts"][i].b);
        }
    } else
        perform(op, r, res);
    return J::obj().add("res", res).add("st", state());
}

int main()
{
    return serve(handle);
}
