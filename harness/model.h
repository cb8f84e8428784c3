// Building element trees from their model (JSON) and projecting them back.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include <map>
#include <memory>
#include "refract/Element.h"
#include "refract/InfoElements.h"
#include "refract/Utils.h"
#include "json.h"

using namespace refract;
using EP = std::unique_ptr<IElement>;

template <typename T> struct Kind;
#define KIND(T, S) template <> struct Kind<T> { static const char* name() { return S; } };
KIND(NullElement, "null") KIND(BooleanElement, "boolean") KIND(NumberElement, "number") KIND(StringElement, "string")
KIND(RefElement, "ref") KIND(HolderElement, "holder") KIND(MemberElement, "member") KIND(ArrayElement, "array")
KIND(EnumElement, "enum") KIND(ObjectElement, "object") KIND(ExtendElement, "extend") KIND(OptionElement, "option")
KIND(SelectElement, "select")
#undef KIND

template <typename T> struct Type { using type = T; };

// f(Type<XElement>{}) for the kind of that name
template <typename F>
void byName(const std::string& t, F f)
{
#define ONE(T) if (t == Kind<T>::name()) { f(Type<T>{}); return; }
    ONE(NullElement) ONE(BooleanElement) ONE(NumberElement) ONE(StringElement) ONE(RefElement) ONE(HolderElement)
    ONE(MemberElement) ONE(ArrayElement) ONE(EnumElement) ONE(ObjectElement) ONE(ExtendElement) ONE(OptionElement)
    ONE(SelectElement)
#undef ONE
    throw std::runtime_error("harness: unknown kind " + t);
}
// f(XElement&) for the dynamic type of e, determined by the language and not by the library
template <typename E, typename F>
void byType(E& e, F f)
{
#define ONE(T) if (auto p = dynamic_cast<typename std::conditional<std::is_const<E>::value, const T*, T*>::type>(&e)) { f(*p); return; }
    ONE(NullElement) ONE(BooleanElement) ONE(NumberElement) ONE(StringElement) ONE(RefElement) ONE(HolderElement)
    ONE(MemberElement) ONE(ArrayElement) ONE(EnumElement) ONE(ObjectElement) ONE(ExtendElement) ONE(OptionElement)
    ONE(SelectElement)
#undef ONE
    throw std::runtime_error("harness: unknown element type");
}

template <typename T> using DataOf = typename std::decay<T>::type::ValueType;
template <typename D> struct IsList : dsd::is_iterable<D> {};

inline EP build(const J& j);
inline J show(const IElement* e);

// ---- data
inline void fill(dsd::Null&, const J&) {}
inline void fill(dsd::Boolean& d, const J& e) { d = dsd::Boolean(e["v"].s == "true"); }
inline void fill(dsd::Number& d, const J& e) { d = dsd::Number(e["v"].s); }
inline void fill(dsd::String& d, const J& e) { d = dsd::String(e["v"].s); }
inline void fill(dsd::Ref& d, const J& e) { d = dsd::Ref(e["v"].s); }
inline void fill(dsd::Holder& d, const J& e) { auto x = build(e["c"][0]); d = x ? dsd::Holder(std::move(x)) : dsd::Holder(); }
inline void fill(dsd::Enum& d, const J& e) { auto x = build(e["c"][0]); d = x ? dsd::Enum(std::move(x)) : dsd::Enum(); }
inline void fill(dsd::Member& d, const J& e)
{
    auto k = build(e["c"][0]);
    auto v = build(e["c"][1]);
    if (k) d = dsd::Member(std::move(k), std::move(v));
    else if (v) { dsd::Member m; m.value(std::move(v)); d = std::move(m); }
    else d = dsd::Member();
}
inline void fill(dsd::Select& d, const J& e)
{
    for (auto& c : e["c"].a) {
        auto x = build(c);
        d.insert(d.end(), std::unique_ptr<OptionElement>(dynamic_cast<OptionElement*>(x.release())));
    }
}
template <typename D> void fill(D& d, const J& e)
{
    for (auto& c : e["c"].a) d.insert(d.end(), build(c));
}

inline void fillInfo(InfoElements& x, const J& l)
{
    for (auto& p : l.a) x.set(p["k"].s, build(p["el"]));
}

inline EP build(const J& j)
{
    const std::string& t = j["t"].s;
    if (t == "nil") return nullptr;
    EP r;
    byName(t, [&](auto tag) {
        using T = typename decltype(tag)::type;
        auto e = std::unique_ptr<T>(new T());
        if (j["s"].b) {
            DataOf<T> d;
            fill(d, j);
            e.reset(new T(std::move(d)));
        }
        e->element(j["n"].s);
        fillInfo(e->meta(), j["m"]);
        fillInfo(e->attributes(), j["a"]);
        r = std::move(e);
    });
    return r;
}

// ---- projection
inline void showData(const dsd::Null&, std::string&, J&) {}
inline void showData(const dsd::Boolean& d, std::string& v, J&) { v = d.get() ? "true" : "false"; }
inline void showData(const dsd::Number& d, std::string& v, J&) { v = d.get(); }
inline void showData(const dsd::String& d, std::string& v, J&) { v = d.get(); }
inline void showData(const dsd::Ref& d, std::string& v, J&) { v = d.symbol(); }
inline void showData(const dsd::Holder& d, std::string&, J& c) { c.push(show(d.data())); }
inline void showData(const dsd::Enum& d, std::string&, J& c) { c.push(show(d.value())); }
inline void showData(const dsd::Member& d, std::string&, J& c) { c.push(show(d.key())); c.push(show(d.value())); }
template <typename D> void showData(const D& d, std::string&, J& c)
{
    for (auto& p : d) c.push(show(p.get()));
}
inline J showInfo(const InfoElements& x)
{
    J l = J::arr();
    for (auto& p : x) l.push(J::obj().add("k", J::str(p.first)).add("el", show(p.second.get())));
    return l;
}
inline J nil()
{
    return J::obj().add("t", J::str("nil")).add("n", J::str("")).add("m", J::arr()).add("a", J::arr())
        .add("s", J::boolean(false)).add("v", J::str("")).add("c", J::arr());
}
inline J show(const IElement* e)
{
    if (!e) return nil();
    J r = J::obj();
    std::string v;
    J c = J::arr();
    byType(*e, [&](auto& x) {
        r.add("t", J::str(Kind<typename std::decay<decltype(x)>::type>::name()));
        if (!x.empty()) showData(x.get(), v, c);
    });
    r.add("n", J::str(e->element())).add("m", showInfo(e->meta())).add("a", showInfo(e->attributes()))
        .add("s", J::boolean(!e->empty())).add("v", J::str(v)).add("c", c);
    return r;
}

// ---- children and paths
inline std::vector<const IElement*> kids(const IElement& e)
{
    std::vector<const IElement*> r;
    byType(e, [&](auto& x) {
        using D = DataOf<decltype(x)>;
        if (x.empty()) return;
        if constexpr (IsList<D>::value) for (auto& p : x.get()) r.push_back(p.get());
        else if constexpr (std::is_same<D, dsd::Member>::value) { r.push_back(x.get().key()); r.push_back(x.get().value()); }
        else if constexpr (std::is_same<D, dsd::Enum>::value) r.push_back(x.get().value());
        else if constexpr (std::is_same<D, dsd::Holder>::value) r.push_back(x.get().data());
    });
    return r;
}
inline const IElement* at(const IElement* e, const J& path)
{
    for (auto& step : path.a) {
        const std::string& w = step[0].s;
        size_t n = size_t(step[1].i - 1);
        if (w == "m") e = (e->meta().begin() + n)->second.get();
        else if (w == "a") e = (e->attributes().begin() + n)->second.get();
        else e = kids(*e).at(n);
        if (!e) throw std::runtime_error("harness: path ends in nothing");
    }
    return e;
}
#endif
