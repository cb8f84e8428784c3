// Harness for the element library: executes the operations of spec/Machine.tla on the real code.
#include <set>
#include <sstream>
#include "model.h"
#include "ElementComparator.h"
#include "SourceAnnotation.h"
#include "refract/ComparableVisitor.h"
#include "refract/ElementSize.h"
#include "refract/ElementUtils.h"
#include "refract/Exception.h"
#include "refract/ExpandVisitor.h"
#include "refract/FilterVisitor.h"
#include "refract/InfoElementsUtils.h"
#include "refract/IsExpandableVisitor.h"
#include "refract/Iterate.h"
#include "refract/PrintVisitor.h"
#include "refract/Query.h"
#include "refract/Registry.h"
#include "refract/SerializeSo.h"
#include "refract/TypeQueryVisitor.h"
#include "refract/VisitorUtils.h"
#include "loop.h"

static EP slots[4];
static std::unique_ptr<Registry> reg(new Registry);
static std::vector<std::string> universe;

static IElement* slot(const J& r, const char* f) { return slots[r[f].i - 1].get(); }
static EP& slotRef(const J& r, const char* f) { return slots[r[f].i - 1]; }
static IElement* target(const J& r) { return const_cast<IElement*>(at(slot(r, "d"), r["p"])); }
static const IElement* source(const J& r) { return at(slot(r, "s"), r["q"]); }
static InfoElements& info(IElement* e, const std::string& w) { return w == "m" ? e->meta() : e->attributes(); }

template <typename D> struct Items {
    std::vector<const void*> before;
    explicit Items(D& d) { for (auto& p : d) before.push_back(p.get()); }
    J kept(D& d)
    {
        J l = J::arr();
        for (auto& p : d) {
            long long n = 0;
            for (size_t i = 0; i < before.size(); ++i) if (before[i] == p.get()) n = (long long)i + 1;
            l.push(J::num(n));
        }
        return l;
    }
};
static J infoKept(const std::vector<const void*>& before, InfoElements& x)
{
    J l = J::arr();
    for (auto& p : x) {
        long long n = 0;
        for (size_t i = 0; i < before.size(); ++i) if (before[i] == p.second.get()) n = (long long)i + 1;
        l.push(J::num(n));
    }
    return l;
}
static std::vector<const void*> infoPtrs(InfoElements& x)
{
    std::vector<const void*> r;
    for (auto& p : x) r.push_back(p.second.get());
    return r;
}

template <typename P> P cast(EP e) { return P(dynamic_cast<typename P::element_type*>(e.release())); }

// f(data) for a set list-like element
template <typename F> void onList(IElement* e, F f)
{
    byType(*e, [&](auto& x) {
        using D = DataOf<decltype(x)>;
        if constexpr (IsList<D>::value) f(x.get());
        else throw std::runtime_error("harness: not a list");
    });
}
// f(X&, const X&) for two elements of one kind
template <typename F> void onPair(IElement* l, const IElement* r, F f)
{
    byType(*l, [&](auto& x) {
        using T = typename std::decay<decltype(x)>::type;
        auto y = dynamic_cast<const T*>(r);
        if (!y) throw std::runtime_error("harness: kinds differ");
        f(x, const_cast<T&>(*y));
    });
}


#include "elem_ops.h"

static J handle(const J& r)
{
    const std::string op = r["op"].s;
    J res = J::obj();
    if (op == "universe") {
        universe.clear();
        for (auto& n : r["names"].a) universe.push_back(n.s);
        return res;
    }
    if (op == "load") { // not an operation of the model: establishes a state
        for (size_t i = 0; i < 4; ++i) slots[i] = i < r["slots"].size() ? build(r["slots"][i]) : nullptr;
        reg.reset(new Registry);
        std::set<std::string> want;
        for (auto& e : r["reg"].a) want.insert(e["k"].s);
        for (const char* n : { "boolean", "number", "string", "array", "object", "enum", "null" })
            if (!want.erase(n)) reg->remove(n);
        for (auto& e : r["reg"].a)
            if (want.count(e["k"].s)) reg->add(build(e["el"]));
    } else if (op == "reset") {
        for (auto& s : slots) s.reset();
        reg.reset(new Registry);
    } else
        perform(op, r, res);
    J st = J::arr();
    for (auto& s : slots) st.push(show(s.get()));
    J rg = J::arr();
    for (auto& n : universe)
        if (auto e = reg->find(n)) rg.push(J::obj().add("k", J::str(n)).add("el", show(e)));
    return J::obj().add("res", res).add("slots", st).add("reg", rg);
}

int main()
{
    return serve(handle);
}
