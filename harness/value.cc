// Harness for the values: executes the operations of spec/Values.tla on the real code.
#include <sstream>
#include "model.h"
#include "refract/JsonSchema.h"
#include "refract/JsonValue.h"
#include "refract/SerializeSo.h"
#include "utils/so/JsonIo.h"
#include "utils/so/Value.h"
#include "utils/so/YamlIo.h"
#include "loop.h"

namespace so = drafter::utils::so;
using so::Value;

static Value vals[3];

// ---- text is either a string or a list of octets
static std::string text(const J& j)
{
    if (j.k != J::A) return j.s;
    std::string r;
    for (auto& x : j.a) r += char(x.i);
    return r;
}
static J octets(const std::string& s)
{
    J l = J::arr();
    for (unsigned char c : s) l.push(J::num(c));
    return l;
}
static J plain(const std::string& s) { return J::str(s); }

static Value read(const J& j)
{
    const std::string& k = j["k"].s;
    if (k == "null") return so::Null{};
    if (k == "true") return so::True{};
    if (k == "false") return so::False{};
    if (k == "string") return so::String{ text(j["v"]) };
    if (k == "number") return so::Number{ text(j["v"]) };
    if (k == "array") {
        so::Array a;
        for (auto& x : j["c"].a) a.data.emplace_back(read(x));
        return a;
    }
    if (k == "object") {
        so::Object o;
        for (size_t i = 0; i < j["c"].size(); ++i) o.data.emplace_back(text(j["ks"][i]), read(j["c"][i]));
        return o;
    }
    throw std::runtime_error("harness: unknown kind of value " + k);
}

template <typename T> const T* as(const Value& v) { return mpark::get_if<T>(&v); }

static J show(const Value& v)
{
    std::string k, x;
    J ks = J::arr(), c = J::arr();
    if (as<so::Null>(v)) k = "null";
    else if (as<so::True>(v)) k = "true";
    else if (as<so::False>(v)) k = "false";
    else if (auto p = as<so::String>(v)) { k = "string"; x = p->data; }
    else if (auto p = as<so::Number>(v)) { k = "number"; x = p->data; }
    else if (auto p = as<so::Array>(v)) {
        k = "array";
        for (auto& e : p->data) c.push(show(e));
    } else if (auto p = as<so::Object>(v)) {
        k = "object";
        for (auto& e : p->data) { ks.push(J::str(e.first)); c.push(show(e.second)); }
    }
    return J::obj().add("k", J::str(k)).add("v", J::str(x)).add("ks", ks).add("c", c);
}

static Value& at(Value& v, const J& path)
{
    Value* p = &v;
    for (auto& i : path.a) {
        if (auto o = mpark::get_if<so::Object>(p)) p = &o->data.at(size_t(i.i - 1)).second;
        else p = &mpark::get<so::Array>(*p).data.at(size_t(i.i - 1));
    }
    return *p;
}

template <typename F> static J twice(const J& r, J& res, F f)
{
    EP e = build(r["el"]);
    J a = show(f(*e));
    J b = show(f(*e));
    std::string x, y;
    jwrite(x, a);
    jwrite(y, b);
    res.add("v", a).add("again", J::boolean(x == y)).add("el", show(e.get()));
    return res;
}

static void perform(const std::string& op, const J& r, J& res)
{
    auto dst = [&]() -> Value& { return at(vals[r["d"].i - 1], r["p"]); };
    auto src = [&]() -> Value& { return at(vals[r["s"].i - 1], r["q"]); };
    if (op == "vlit") vals[r["d"].i - 1] = read(r["el"]);
    else if (op == "vcopy") { Value v(src()); vals[r["d"].i - 1] = std::move(v); }
    else if (op == "vassign") { if (r["b"].b) dst() = src(); else { Value v(src()); dst() = v; } }
    else if (op == "vmove") { vals[r["d"].i - 1] = std::move(vals[r["s"].i - 1]); vals[r["s"].i - 1] = so::Null{}; }
    else if (op == "vput") {
        auto& o = mpark::get<so::Object>(dst());
        const std::string k = r["k"].s;
        if (r["how"].s == "pair") so::emplace_unique(o, so::Object::container_type::value_type(k, read(r["el"])));
        else if (r["how"].s == "copy") { const Value v = read(r["el"]); so::emplace_unique(o, k, v); }
        else so::emplace_unique(o, k, read(r["el"]));
    } else if (op == "vitem") so::emplace_unique(mpark::get<so::Array>(dst()), read(r["el"]));
    else if (op == "vfind") {
        auto& o = mpark::get<so::Object>(dst());
        Value* p = so::find(o, r["k"].s);
        long long n = 0;
        for (size_t i = 0; i < o.data.size(); ++i) if (&o.data[i].second == p) n = (long long)i + 1;
        res.add("n", J::num(n)).add("none", J::boolean(!p));
        if (p && r["set"].b) *p = read(r["el"]);
    } else if (op == "veq") {
        const Value &x = dst(), &y = src();
        res.add("b", J::boolean(x == y)).add("sym", J::boolean(y == x));
    } else if (op == "json") {
        std::ostringstream s;
        const Value v = read(r["el"]);
        if (r["packed"].b) so::serialize_json(s, v, so::packed{});
        else so::serialize_json(s, v);
        res.add("x", octets(s.str()));
    } else if (op == "yaml") {
        std::ostringstream s;
        const Value v = read(r["el"]);
        so::serialize_yaml(s, v);
        res.add("x", octets(s.str()));
    } else if (op == "body") twice(r, res, [](const IElement& e) { return generateJsonValue(e); });
    else if (op == "schema") twice(r, res, [](const IElement& e) { return Value(schema::generateJsonSchema(e)); });
    else if (op == "tree") twice(r, res, [&](const IElement& e) { return serialize::renderSo(e, r["b"].b); });
    else throw std::runtime_error("harness: unknown operation " + op);
}

static J handle(const J& r)
{
    const std::string op = r["op"].s;
    J res = J::obj();
    if (op == "load")
        for (size_t i = 0; i < 3; ++i) vals[i] = read(r["vals"][i]);
    else if (op == "reset")
        for (auto& v : vals) v = so::Null{};
    else
        perform(op, r, res);
    J st = J::arr();
    for (auto& v : vals) st.push(show(v));
    return J::obj().add("res", res).add("vals", st);
}

int main()
{
    return serve(handle);
}
