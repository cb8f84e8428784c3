// One function per group of operations; included by elem.cc only.

static J pathsOf(const IElement* root, const std::vector<const IElement*>& visited);

// -------------------------------------------------------------- visitors of the harness
struct Recorder {
    std::vector<const IElement*> seen;
    std::vector<std::string> kinds;
    void operator()(const IElement& e) { seen.push_back(&e); kinds.push_back("element"); }
    template <typename D> void operator()(const Element<D>& e)
    {
        seen.push_back(&e);
        kinds.push_back(Kind<Element<D> >::name());
    }
};
struct NameOf {
    const IElement** who;
    int* calls;
    template <typename D> std::string operator()(const Element<D>& e) const { *who = &e; ++*calls; return Kind<Element<D> >::name(); }
};
struct VoidOf {
    const IElement** who;
    int* calls;
    std::string* kind;
    template <typename D> void operator()(const Element<D>& e) { *who = &e; ++*calls; *kind = Kind<Element<D> >::name(); }
};
struct SelfOf {
    template <typename D> const IElement& operator()(const Element<D>& e) const { return e; }
};
struct FirstArg {
    template <typename D> const std::string& operator()(const Element<D>&) const { static const std::string s = Kind<Element<D> >::name(); return s; }
};

static const char* queryName(TypeQueryVisitor::ElementType t)
{
    switch (t) {
        case TypeQueryVisitor::Null: return "null";
        case TypeQueryVisitor::Holder: return "holder";
        case TypeQueryVisitor::String: return "string";
        case TypeQueryVisitor::Number: return "number";
        case TypeQueryVisitor::Boolean: return "boolean";
        case TypeQueryVisitor::Array: return "array";
        case TypeQueryVisitor::Member: return "member";
        case TypeQueryVisitor::Object: return "object";
        case TypeQueryVisitor::Enum: return "enum";
        case TypeQueryVisitor::Ref: return "ref";
        case TypeQueryVisitor::Extend: return "extend";
        case TypeQueryVisitor::Option: return "option";
        case TypeQueryVisitor::Select: return "select";
    }
    return "?";
}

static void walk(const IElement* e, std::vector<int>& path, std::map<const IElement*, std::vector<int> >& out)
{
    out[e] = path;
    auto k = kids(*e);
    for (size_t i = 0; i < k.size(); ++i)
        if (k[i]) {
            path.push_back(int(i) + 1);
            walk(k[i], path, out);
            path.pop_back();
        }
}
static J pathsOf(const IElement* root, const std::vector<const IElement*>& visited)
{
    std::map<const IElement*, std::vector<int> > where;
    std::vector<int> path;
    walk(root, path, where);
    J l = J::arr();
    for (auto v : visited) {
        J p = J::arr();
        auto it = where.find(v);
        if (it == where.end()) p.push(J::num(-1)); // an element that is not in the content
        else for (int i : it->second) p.push(J::num(i));
        l.push(p);
    }
    return l;
}

// -------------------------------------------------------------- ownership and content
static bool performTree(const std::string& op, const J& r, J& res)
{
    if (op == "lit") slotRef(r, "d") = build(r["el"]);
    else if (op == "drop") slotRef(r, "d").reset();
    else if (op == "clone") {
        auto c = source(r)->clone(int(r["f"].i));
        slotRef(r, "d") = std::move(c);
    } else if (op == "clonet") { // refract::clone on the static type
        EP c;
        byType(*source(r), [&](auto& x) { c = refract::clone(x, int(r["f"].i)); });
        slotRef(r, "d") = std::move(c);
    } else if (op == "copy") {
        EP c;
        byType(*source(r), [&](auto& x) { using T = typename std::decay<decltype(x)>::type; c.reset(new T(x)); });
        slotRef(r, "d") = std::move(c);
    } else if (op == "move") {
        EP c;
        byType(*slot(r, "s"), [&](auto& x) { using T = typename std::decay<decltype(x)>::type; c.reset(new T(std::move(x))); });
        slotRef(r, "s").reset();
        slotRef(r, "d") = std::move(c);
    } else if (op == "assign") onPair(target(r), source(r), [&](auto& x, auto& y) { x = static_cast<const typename std::decay<decltype(y)>::type&>(y); });
    else if (op == "massign") {
        onPair(target(r), slot(r, "s"), [&](auto& x, auto& y) { x = std::move(y); });
        slotRef(r, "s").reset();
    } else if (op == "setdata") byType(*target(r), [&](auto& x) {
        DataOf<decltype(x)> d;
        fill(d, r["el"]);
        x.set(d);
    });
    else if (op == "setdef") byType(*target(r), [&](auto& x) { x.set(); });
    else if (op == "name") target(r)->element(r["x"].s);
    else if (op == "mk") {
        EP e;
        const std::string how = r["how"].s, x = r["x"].s, n = r["n"].s;
        byName(r["t"].s, [&](auto tag) {
            using T = typename decltype(tag)::type;
            using D = DataOf<T>;
            if (how == "empty") e = make_empty<T>();
            else if (how == "new") e.reset(new T());
            else if (how == "default") e = make_element<T>();
            else if (how == "named") e.reset(new T(n, D{}));
            else if (how == "gen") e = generate_element<T>([](D&) {});
            else if constexpr (std::is_same<D, dsd::String>::value) {
                if (how == "prim") e = from_primitive(x);
                else if (how == "primt") e = from_primitive_t(n, x);
                else e = make_element<T>(x);
            } else if constexpr (std::is_same<D, dsd::Boolean>::value) {
                if (how == "prim") e = from_primitive(x == "true");
                else if (how == "primt") e = from_primitive_t(n, x == "true");
                else e = make_element<T>(x == "true");
            } else if constexpr (std::is_same<D, dsd::Number>::value) {
                long long v = atoll(x.c_str());
                if (how == "prim") e = make_element<T>(v);
                else if (how == "primt") e.reset(new T(n, D{ v }));
                else e = make_element<T>(x);
            } else if constexpr (std::is_same<D, dsd::Ref>::value) {
                if (how == "primt") e.reset(new T(n, D{ x }));
                else e = make_element<T>(x);
            } else
                throw std::runtime_error("harness: mk " + how);
        });
        slotRef(r, "d") = std::move(e);
    } else if (op == "reserved") {
        res.add("b", J::boolean(isReserved(r["x"].s))).add("b2", J::boolean(isReserved(r["x"].s.c_str())));
    } else
        return false;
    return true;
}

// -------------------------------------------------------------- meta and attributes
static bool performInfo(const std::string& op, const J& r, J& res)
{
    static const std::set<std::string> mine{ "iset", "isetc", "ierase", "ieraseat", "iclaim", "iclaimat", "iclear", "icopy", "imove", "iclone",
        "iswap", "inew", "inewm", "ifind" };
    if (!mine.count(op)) return false;
    IElement* e = target(r);
    InfoElements& x = info(e, r["w"].s);
    auto before = infoPtrs(x);
    bool kept = true;
    if (op == "iset") {
        IElement& ref = x.set(r["k"].s, build(r["el"]));
        auto it = x.find(r["k"].s);
        res.add("b", J::boolean(it != x.end() && it->second.get() == &ref));
    } else if (op == "isetc") {
        IElement& ref = x.set(r["k"].s, *source(r));
        auto it = x.find(r["k"].s);
        res.add("b", J::boolean(it != x.end() && it->second.get() == &ref));
    } else if (op == "ierase") x.erase(r["k"].s);
    else if (op == "ieraseat") x.erase(x.begin() + (r["i"].i - 1));
    else if (op == "iclaim" || op == "iclaimat") {
        const void* was = nullptr;
        EP c;
        if (op == "iclaim") {
            auto it = x.find(r["k"].s);
            if (it != x.end()) was = it->second.get();
            c = x.claim(r["k"].s);
        } else {
            auto it = x.begin() + (r["i"].i - 1);
            was = it->second.get();
            c = x.claim(it);
        }
        res.add("b", J::boolean(c.get() == was));
        res.add("kept", infoKept(before, x));
        kept = false;
        slotRef(r, "j") = std::move(c);
    } else if (op == "iclear") x.clear();
    else if (op == "icopy" || op == "imove" || op == "iclone" || op == "iswap" || op == "inew" || op == "inewm") {
        InfoElements& y = info(const_cast<IElement*>(source(r)), r["u"].s);
        kept = false;
        if (op == "icopy") x = static_cast<const InfoElements&>(y);
        else if (op == "imove") { x = std::move(y); if (&x != &y) y.clear(); }
        else if (op == "iclone") x.clone(y);
        else if (op == "iswap") { using std::swap; swap(x, y); }
        else if (op == "inew") { InfoElements z(static_cast<const InfoElements&>(y)); swap(x, z); }
        else { InfoElements z(std::move(y)); y.clear(); swap(x, z); }
    } else if (op == "ifind") {
        const InfoElements& cx = x;
        auto it = x.find(r["k"].s);
        auto ct = cx.find(r["k"].s);
        res.add("n", J::num(it == x.end() ? 0 : it - x.begin() + 1)).add("n2", J::num(ct == cx.end() ? 0 : ct - cx.begin() + 1));
        res.add("len", J::num((long long)x.size())).add("b", J::boolean(x.empty())).add("it", J::num(std::distance(cx.begin(), cx.end())));
    } else
        return false;
    if (kept) res.add("kept", infoKept(before, x));
    return true;
}

// -------------------------------------------------------------- containers
static bool performList(const std::string& op, const J& r, J& res)
{
    if (op == "push" || op == "pushs" || op == "ins" || op == "inss" || op == "era" || op == "erange" || op == "clr" || op == "lst"
        || op == "take") {
        onList(target(r), [&](auto& d) {
            using D = typename std::decay<decltype(d)>::type;
            using V = typename D::value_type;
            Items<D> items(d);
            if (op == "push") d.push_back(cast<V>(build(r["el"])));
            else if (op == "pushs") d.push_back(cast<V>(std::move(slotRef(r, "s"))));
            else if (op == "ins") {
                auto it = d.insert(d.begin() + (r["i"].i - 1), cast<V>(build(r["el"])));
                res.add("n", J::num(it - d.begin() + 1));
            } else if (op == "inss") {
                auto it = d.insert(d.begin() + (r["i"].i - 1), cast<V>(std::move(slotRef(r, "s"))));
                res.add("n", J::num(it - d.begin() + 1));
            } else if (op == "era") {
                auto it = d.erase(d.begin() + (r["i"].i - 1));
                res.add("n", J::num(it - d.begin() + 1));
            } else if (op == "erange") {
                auto it = d.erase(d.begin() + (r["i"].i - 1), d.begin() + (r["j"].i - 1));
                res.add("n", J::num(it - d.begin() + 1));
            } else if (op == "clr") d.clear();
            else if (op == "take") {
                auto it = d.begin() + (r["i"].i - 1);
                V c = std::move(*it);
                d.erase(it);
                J k = items.kept(d);
                slotRef(r, "j") = std::move(c);
                res.add("kept", k);
                return;
            } else {
                const D& cd = d;
                res.add("len", J::num((long long)d.size())).add("b", J::boolean(d.empty())).add("it", J::num(std::distance(cd.begin(), cd.end())));
            }
            res.add("kept", items.kept(d));
        });
    } else if (op == "addm" || op == "find") {
        byType(*target(r), [&](auto& x) {
            if constexpr (std::is_same<DataOf<decltype(x)>, dsd::Object>::value) {
                dsd::Object& d = x.get();
                Items<dsd::Object> items(d);
                auto it = op == "addm" ? d.addMember(r["k"].s, build(r["el"])) : d.find(r["k"].s);
                res.add("n", J::num(it == d.end() ? 0 : it - d.begin() + 1)).add("kept", items.kept(d));
            }
        });
    } else if (op == "dswap" || op == "dcopy" || op == "dmove") {
        onPair(target(r), source(r), [&](auto& x, auto& y) {
            using D = DataOf<decltype(x)>;
            using std::swap;
            if (op == "dcopy") x.get() = static_cast<const D&>(y.get());
            else if (op == "dmove") { x.get() = std::move(y.get()); y.get() = D{}; }
            else swap(x.get(), y.get());
        });
    } else if (op == "mval" || op == "mclaim") {
        byType(*target(r), [&](auto& x) {
            if constexpr (std::is_same<DataOf<decltype(x)>, dsd::Member>::value) {
                if (op == "mval") x.get().value(build(r["el"]));
                else {
                    auto was = x.get().value();
                    auto c = x.get().claim();
                    res.add("b", J::boolean(c.get() == was));
                    slotRef(r, "j") = std::move(c);
                }
            }
        });
    } else if (op == "eclaim") {
        byType(*target(r), [&](auto& x) {
            using D = DataOf<decltype(x)>;
            if constexpr (std::is_same<D, dsd::Enum>::value || std::is_same<D, dsd::Holder>::value) {
                const IElement* was = nullptr;
                if constexpr (std::is_same<D, dsd::Enum>::value) was = x.get().value();
                else was = x.get().data();
                auto c = x.get().claim();
                res.add("b", J::boolean(c.get() == was));
                slotRef(r, "j") = std::move(c);
            }
        });
    } else
        return false;
    return true;
}

// -------------------------------------------------------------- comparison, merging, expansion, registry
struct Ignore {
    std::vector<std::string> keys;
    bool operator()(const std::string& k) const
    {
        for (auto& x : keys) if (x == k) return true;
        return false;
    }
};
static bool performRelations(const std::string& op, const J& r, J& res)
{
    if (op == "eq") {
        const IElement &l = *slot(r, "d"), &y = *at(slot(r, "s"), r["q"]), &x = *at(&l, r["p"]);
        res.add("b", J::boolean(x == y)).add("ne", J::boolean(x != y)).add("sym", J::boolean(y == x));
    } else if (op == "teq") {
        const IElement &x = *target(r), &y = *source(r);
        if (r["mode"].s == "default") {
            res.add("b", J::boolean(drafter::Equal(x, y))).add("sym", J::boolean(drafter::Equal(y, x)));
        } else {
            std::set<std::string> a, m;
            for (auto& k : r["ia"].a) a.insert(k.s);
            for (auto& k : r["im"].a) m.insert(k.s);
            using drafter::detail::IgnoreKeys;
            auto eq = [&](const IElement& p, const IElement& q) {
                auto a1 = a; auto m1 = m;
                return drafter::Equal(p, q, IgnoreKeys(std::move(a1)), IgnoreKeys(std::move(m1)));
            };
            res.add("b", J::boolean(eq(x, y))).add("sym", J::boolean(eq(y, x)));
        }
    } else if (op == "ieq") { // information elements alone
        const IElement &x = *target(r), &y = *source(r);
        res.add("b", J::boolean(x.meta() == y.meta())).add("b2", J::boolean(x.attributes() == y.attributes()));
        res.add("n", J::boolean(x.meta() != y.meta())).add("n2", J::boolean(x.attributes() != y.attributes()));
    } else if (op == "deq") { // contents alone, of two elements of one kind
        bool e = false, e2 = false;
        onPair(target(r), source(r), [&](auto& x, auto& y) { e = x.get() == y.get(); e2 = y.get() == x.get(); });
        res.add("b", J::boolean(e)).add("sym", J::boolean(e2));
    } else if (op == "merge") {
        auto ext = dynamic_cast<const ExtendElement*>(source(r));
        EP m;
        bool err = false;
        try { m = ext->get().merge(); } catch (const LogicError&) { err = true; }
        res.add("err", J::boolean(err));
        slotRef(r, "d") = std::move(m);
    } else if (op == "expand") {
        std::string err;
        EP m;
        bool none = false;
        try {
            ExpandVisitor v(*reg);
            if (r.has("by") && r["by"].b) VisitBy(*source(r), v);
            else Visit(v, *source(r));
            m = v.get();
            none = !m;
        } catch (const snowcrash::Error& e) {
            auto b = e.message.find('\''), f = e.message.rfind('\'');
            err = b == std::string::npos || f == b ? "?" : e.message.substr(b + 1, f - b - 1);
            if (e.code != snowcrash::MSONError) err = "?code";
            if (err.empty()) err = "?";
        }
        res.add("err", J::str(err)).add("none", J::boolean(none));
        slotRef(r, "d") = std::move(m);
    } else if (op == "expandable") {
        IsExpandableVisitor v, w;
        VisitBy(*source(r), v);
        Visit(w, *source(r));
        res.add("b", J::boolean(v.get())).add("b2", J::boolean(w.get()));
    } else if (op == "radd") {
        std::string out;
        try { out = reg->add(std::move(slotRef(r, "s"))) ? "ok" : "taken"; } catch (const LogicError&) { out = "error"; }
        slotRef(r, "s").reset();
        res.add("x", J::str(out));
    } else if (op == "rfind") {
        const Registry& cr = *reg;
        auto e = cr.find(r["k"].s);
        res.add("el", show(e)).add("b", J::boolean(e == cr.find(r["k"].s)));
    } else if (op == "rremove") res.add("b", J::boolean(reg->remove(r["k"].s)));
    else if (op == "rclear") reg->clear();
    else if (op == "rroot") {
        auto e = FindRootAncestor(r["k"].s, *reg);
        res.add("el", show(e));
    } else
        return false;
    return true;
}

// -------------------------------------------------------------- queries
// a cardinal as its four bytes from the lowest, or nothing if open
static J card(cardinal c)
{
    J j = J::arr();
    if (!(c == cardinal::open()))
        for (int k = 0; k < 4; ++k) j.push(J::num(c.data() >> 8 * k & 255));
    return j;
}

template <typename T> void valueOf(const T& e, J& res)
{
    const IElement* v = GetValue<T>()(e);
    res.add("el", show(v)).add("self", J::boolean(v == &e));
    res.add("sample", show(GetSample(e))).add("default", show(GetDefault(e)));
}
static bool performQueries(const std::string& op, const J& r, J& res)
{
    if (op == "visit") {
        const IElement& e = *source(r);
        Recorder by, ifc;
        VisitBy(e, by);
        Visit(ifc, e);
        auto joined = [](const std::vector<std::string>& l) { std::string s; for (auto& x : l) s += (s.empty() ? "" : " ") + x; return s; };
        bool same = by.seen == std::vector<const IElement*>{ &e } && ifc.seen == std::vector<const IElement*>{ &e };
        res.add("by", J::str(joined(by.kinds))).add("ifc", J::str(joined(ifc.kinds)));
        Recorder typed;
        byType(e, [&](auto& x) { Visit(typed, x); });
        same = same && typed.seen == std::vector<const IElement*>{ &e };
        res.add("typed", J::str(joined(typed.kinds)));
        const IElement* who = nullptr;
        int calls = 0;
        std::string name = visit(e, NameOf{ &who, &calls });
        same = same && who == &e && calls == 1;
        std::string vname;
        who = nullptr;
        calls = 0;
        visit(e, VoidOf{ &who, &calls, &vname });
        same = same && who == &e && calls == 1;
        same = same && &visit(e, SelfOf{}) == &e;
        const std::string& ref = visit(e, FirstArg{});
        res.add("ret", J::str(name)).add("void", J::str(vname)).add("ref", J::str(ref));
        TypeQueryVisitor q1, q2, q3;
        VisitBy(e, q1);
        Visit(q2, e);
        e.content(*std::unique_ptr<Visitor>(new Visitor(q3)));
        res.add("q", J::str(queryName(q1.get()))).add("q2", J::str(queryName(q2.get()))).add("q3", J::str(queryName(q3.get())));
        J casts = J::arr(), gets = J::arr();
        bool nothing = true;
        for (const char* t : { "array", "boolean", "enum", "extend", "holder", "member", "null", "number", "object", "option", "ref", "select", "string" })
            byName(t, [&](auto tag) {
                using T = typename decltype(tag)::type;
                const T* c = TypeQueryVisitor::as<T>(&e);
                const T* cc = TypeQueryVisitor::as<const T>(&e);
                T* m = TypeQueryVisitor::as<T>(const_cast<IElement*>(&e));
                if (c || m || cc) {
                    casts.push(J::str(t));
                    same = same && (const IElement*)c == &e && (const IElement*)m == &e && (const IElement*)cc == &e;
                }
                const T* g = refract::get<const T>(&e);
                T* gm = refract::get<T>(const_cast<IElement*>(&e));
                if (g || gm) {
                    gets.push(J::str(t));
                    same = same && (const IElement*)g == &e && (const IElement*)gm == &e;
                }
                nothing = nothing && !TypeQueryVisitor::as<T>((const IElement*)nullptr) && !TypeQueryVisitor::as<T>((IElement*)nullptr);
            });
        res.add("casts", casts).add("gets", gets).add("same", J::boolean(same)).add("nothing", J::boolean(nothing));
    } else if (op == "walk") {
        const IElement& e = *source(r);
        Recorder all, kidsOnly;
        Iterate<Recursive> a(all);
        a(e);
        res.add("all", pathsOf(&e, all.seen));
        J k = J::arr();
        for (auto& x : all.kinds) k.push(J::str(x));
        res.add("kinds", k);
        FilterVisitor fa(query::Element(r["x"].s));
        Iterate<Recursive> b(fa);
        b(e);
        res.add("fall", pathsOf(&e, fa.elements())).add("fempty", J::boolean(fa.empty()));
        bool kidsOk = !e.empty();
        if (kidsOk) {
            Iterate<Children> c(kidsOnly);
            c(e);
            res.add("kids", pathsOf(&e, kidsOnly.seen));
            FilterVisitor fk(query::Element(r["x"].s));
            Iterate<Children> d(fk);
            d(e);
            res.add("fkids", pathsOf(&e, fk.elements()));
        }
    } else if (op == "size") {
        res.add("n", card(sizeOf(*source(r), r["b"].b)));
    } else if (op == "card") {
        auto c = [](const J& n) {
            unsigned x = 0;
            for (size_t k = n.size(); k--;) x = x << 8 | unsigned(n[k].i);
            return n.size() ? cardinal{ x } : cardinal::open();
        };
        auto x = c(r["i"]), y = c(r["j"]);
        res.add("sum", card(x + y)).add("mul", card(x * y)).add("eq", J::boolean(x == y)).add("ne", J::boolean(x != y));
        res.add("fin", J::boolean(finite(x))).add("zero", card(cardinal())).add("empty", card(cardinal::empty()));
    } else if (op == "value") {
        byType(*source(r), [&](auto& x) {
            using T = typename std::decay<decltype(x)>::type;
            valueOf<T>(x, res);
        });
    } else if (op == "uvalue") { // the utilities of the back end
        const IElement& e = *source(r);
        res.add("sample", show(findFirstSample(e))).add("default", show(findDefault(e))).add("value", show(findValue(e)));
        res.add("self", J::boolean(findValue(e) == &e)).add("hasd", J::boolean(hasDefault(e))).add("defs", J::boolean(definesValue(e)));
    } else if (op == "inherits") {
        res.add("b", J::boolean(inheritsFixed(*source(r))));
    } else if (op == "rkey") {
        res.add("x", J::str(renderKey(*source(r))));
    } else if (op == "uset") { // setters of the utilities
        IElement& e = *target(r);
        const std::string how = r["how"].s;
        if (how == "fixed") setFixedTypeAttribute(e);
        else if (how == "ta") setTypeAttribute(e, r["x"].s);
        else if (how == "default") setDefault(e, build(r["el"]));
        else if (how == "sample") addSample(e, build(r["el"]));
        else if (how == "enum") addEnumeration(e, build(r["el"]));
    } else if (op == "attrs") {
        const IElement& e = *source(r);
        const std::string x = r["x"].s;
        res.add("ta", J::boolean(HasTypeAttribute(e, x))).add("ta2", J::boolean(hasTypeAttr(e, x.c_str())));
        res.add("fix", J::boolean(hasFixedTypeAttr(e))).add("fixt", J::boolean(hasFixedTypeTypeAttr(e)));
        res.add("req", J::boolean(hasRequiredTypeAttr(e))).add("opt", J::boolean(hasOptionalTypeAttr(e))).add("nul", J::boolean(hasNullableTypeAttr(e)));
        res.add("var", J::boolean(IsVariableProperty(e))).add("var2", J::boolean(isVariable(e))).add("lit", J::boolean(IsLiteral(e)));
    } else if (op == "descr") {
        auto d = GetDescription(*source(r));
        res.add("el", show(d));
        auto c = FindCollectionMemberValue<const StringElement>(source(r)->meta(), r["k"].s);
        auto a = FindCollectionMemberValue<const ArrayElement>(source(r)->attributes(), r["k"].s);
        res.add("cm", show(c)).add("ca", show(a));
    } else if (op == "appinfo") {
        InfoElements& x = info(target(r), r["w"].s);
        AppendInfoElement<ArrayElement>(x, r["k"].s, dsd::String(r["x"].s));
    } else if (op == "bykey") {
        byType(*source(r), [&](auto& x) {
            if constexpr (std::is_same<DataOf<decltype(x)>, dsd::Object>::value) {
                const IElement* f = FindMemberByKey(x, r["k"].s);
                long long n = 0, i = 0;
                for (auto& p : x.get()) { ++i; if (p.get() == f && f) n = i; }
                res.add("n", J::num(n)).add("none", J::boolean(!f));
            }
        });
    } else if (op == "keystr") {
        auto m = dynamic_cast<const MemberElement*>(source(r));
        std::string x;
        try { x = GetKeyAsString(*m); } catch (const LogicError&) { x = "!"; }
        res.add("x", J::str(x));
    } else if (op == "cmp") {
        ComparableVisitor k(r["k"].s, ComparableVisitor::key), v(r["k"].s, ComparableVisitor::value), d(r["k"].s);
        VisitBy(*source(r), k);
        VisitBy(*source(r), v);
        VisitBy(*source(r), d);
        res.add("b", J::boolean(k.get())).add("b2", J::boolean(v.get())).add("b3", J::boolean(d.get()));
    } else if (op == "dump") {
        std::ostringstream o;
        PrintVisitor p(int(r["i"].i), o, r["b"].b);
        if (r["how"].s == "call") p(*source(r));
        else Visit(p, *source(r));
        J l = J::arr();
        std::string s = o.str(), cur;
        for (char c : s)
            if (c == '\n') { l.push(J::str(cur)); cur.clear(); }
            else cur += c;
        if (!cur.empty()) l.push(J::str(cur + "<no newline>"));
        res.add("l", l);
    } else
        return false;
    return true;
}

static void perform(const std::string& op, const J& r, J& res)
{
    if (performTree(op, r, res) || performInfo(op, r, res) || performList(op, r, res) || performRelations(op, r, res) || performQueries(op, r, res))
        return;
    throw std::runtime_error("harness: unknown operation " + op);
}
