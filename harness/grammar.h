// The small languages inside a blueprint: URI templates, media types and signatures (spec/Grammar.tla).
#ifndef VERIF_GRAMMAR_H
#define VERIF_GRAMMAR_H
#include "json.h"
#include "grammar/Uritemplate.h"
#include "snowcrash/UriTemplateParser.h"
#include "snowcrash/SignatureSectionProcessor.h"
#include <apib/parser/MediaTypeParser.h>
#include "backend/MediaTypeS11n.h"

namespace grammar
{
static std::string octets(const J& j) { std::string s; for (auto& x : j.a) s += char(x.i); return s; }
static J show(const std::string& s) { J l = J::arr(); for (unsigned char c : s) l.push(J::num(c)); return l; }
static J showAll(const std::vector<std::string>& v) { J l = J::arr(); for (auto& s : v) l.push(show(s)); return l; }

namespace ut = apib::parser::uritemplate;

static J show(const ut::state::invalid& x)
{
    return J::obj().add("k", J::str("invalid")).add("x", show(x.content)).add("at", J::num((long long)x.position));
}

struct Var {
    J operator()(const ut::state::invalid& x) const { return show(x); }
    J operator()(const ut::state::variable& x) const
    {
        return J::obj().add("k", J::str("var")).add("x", show(x.name)).add("prefix", J::num((long long)x.prefix)).add("explode", J::boolean(x.explode));
    }
};

struct Part {
    J operator()(const mpark::monostate&) const { return J::obj().add("k", J::str("nothing")); }
    J operator()(const ut::state::invalid& x) const { return show(x); }
    J operator()(const std::string& x) const { return J::obj().add("k", J::str("text")).add("x", show(x)); }
    J operator()(const ut::state::expression& x) const
    {
        static const char* ops[] = { "noop", "reserved_chars", "fragment", "label", "path", "path_param", "query_param", "query_continue", "reserved" };
        J l = J::arr();
        for (auto& v : x.variables) l.push(mpark::visit(Var{}, v));
        return J::obj().add("k", J::str("expr")).add("op", J::str(ops[int(x.type)])).add("vars", l).add("open", J::boolean(x.missing_expression_close));
    }
};

static J uri(const std::string& x)
{
    ut::state::uritemplate parts;
    tao::pegtl::memory_input<> in(x, "");
    try {
        tao::pegtl::parse<ut::match_grammar, ut::action>(in, parts);
    } catch (const tao::pegtl::parse_error&) {
        parts.emplace_back();
    }
    J l = J::arr();
    for (auto& p : parts) l.push(mpark::visit(Part{}, p));
    snowcrash::ParsedURITemplate out;
    mdp::CharactersRangeSet where;
    where.push_back(mdp::CharactersRange(3, 4));
    snowcrash::URITemplateParser::parse(x, where, out);
    J w = J::arr();
    for (auto& n : out.report.warnings) {
        // all have one code and the place given
        const bool usual = n.code == snowcrash::URIWarning && n.location.size() == 1 && n.location[0].location == 3 && n.location[0].length == 4;
        w.push(usual ? show(n.message) : J::num(n.code));
    }
    if (out.report.error.code) w.push(J::num(out.report.error.code));
    return J::obj().add("scheme", show(out.scheme)).add("host", show(out.host)).add("path", show(out.path)).add("parts", l).add("warnings", w);
}

static J media(const std::string& x)
{
    const auto m = apib::parser::parseMediaType(x);
    J p = J::arr();
    for (auto& q : m.parameters) p.push(J::arr().push(show(q.first)).push(show(q.second)));
    J j = J::obj().add("type", show(m.type)).add("subtype", show(m.subtype)).add("suffix", show(m.suffix)).add("params", p);
    std::ostringstream s;
    apib::backend::operator<<(s, m);
    return J::obj().add("m", j).add("text", show(s.str())).add("json", J::boolean(apib::isJSON(m))).add("schema", J::boolean(apib::isJSONSchema(m)));
}

static J sign(const J& r)
{
    using namespace snowcrash;
    const std::string x = octets(r["x"]), before = octets(r["before"]);
    mdp::ByteBuffer text = x;
    mdp::MarkdownNode node(mdp::ParagraphMarkdownNodeType, nullptr, text);
    mdp::MarkdownNodes all;
    all.push_back(node);
    Blueprint b;
    SectionParserData pd(0, x, b);
    unsigned traits = 0;
    for (int i = 0; i < 4; ++i) if (r["tr"][i].b) traits |= 1u << i;
    Report report;
    const auto s = scpl::SignatureSectionProcessorBase<Blueprint>::parseSignature(all.begin(), pd,
        scpl::SignatureTraits(traits, scpl::Delimiters(char(r["mark"][0].i), before)), report);
    long long w = 0;
    for (auto& n : report.warnings) w += n.code == EmptyDefinitionWarning ? 1 : 100;
    return J::obj().add("identifier", show(s.identifier)).add("value", show(s.value)).add("values", showAll(s.values))
        .add("attributes", showAll(s.attributes)).add("content", show(s.content)).add("rest", show(s.remainingContent)).add("warnings", J::num(w));
}

static J apply(const J& r)
{
    const std::string& op = r["op"].s;
    return op == "uri" ? uri(octets(r["x"])) : op == "media" ? media(octets(r["x"])) : sign(r);
}
}
#endif
