// C01, C10, C11, C12, C16, C17: more of everything than any table is likely to have room for: thousands of
// items in one container, of attributes and elements, hundreds of types, converters, derived classes.
// Built for one of ITEMS, ATTRIBUTES, CONVERTERS, TYPES, GRAPH (--judge graph | cast)
#include "many.h"
#include <set>

template<int N> int fn(int x) { return 100 * x + N; }
template<int N> int over(Tag<N> const &) { return 7000 + N; }
enum class Kind { A, B };

constexpr int FNS = 64, OVERLOADS = 72;
#ifdef MANY_TYPES
template<typename> struct Table;
template<int ...N> struct Table<std::integer_sequence<int, N...>>
{
    static std::vector<MetaType_ID> ids() { return {metaTypeId<Tag<N>>()...}; }
    static std::vector<MetaType_ID> cref_ids() { return {metaTypeId<Tag<N> const &>()...}; }
    static std::vector<std::string> names() { return {std::string(type_name<Tag<N>>())...}; }
};
using Tags = std::make_integer_sequence<int, TAGS>;
#endif

static int (*fns[FNS])(int);
template<int ...N> void fill(std::integer_sequence<int, N...>) { ((fns[N] = fn<N>), ...); }

static std::string item_name(char const *what, int i, Rng &r)
{
    // several forms, so that names share prefixes, suffixes and lengths
    switch (r.below(4))
    {
    case 0: return fmt("%s%d", what, i);
    case 1: return fmt("%d%s", i, what);
    case 2: return fmt("%s_with_a_name_too_long_to_be_kept_inside_a_string_%06d", what, i);
    default: return fmt("%s %c %d", what, 'a' + i % 26, i);
    }
}

#ifdef MANY_ITEMS
// --- items of one container -----------------------------------------------------------------
static int vars[4096];

struct List
{
    char const *what;
    std::function<void(std::string const &, int)> define;
    std::function<std::size_t()> count;
    std::function<MetaItem const *(std::size_t)> at;
    std::function<MetaItem const *(std::string const &)> by_name;
    std::function<void(MetaItem const *, int)> use;
    std::vector<std::string> names{};
    std::vector<MetaItem const *> items{};

    void judge(std::size_t i, char const *when)
    {
        auto *x = at(i), *y = by_name(names[i]);
        auto key = [&](char const *k) { return std::string(what) + ":" + k; };
        auto text = [&] { return fmt("%s %zu of %zu (%s), %s", what, i, names.size(), names[i].c_str(), when); };
        check(x == items[i], key("index"), text());
        check(y == items[i], key("name"), text());
        if (x != items[i] || !x) return;
        if (x->name().compare(0, names[i].size(), names[i]) != 0) viol(key("own-name"), text());
        eval(hash_str(names[i]) + i, true, 2);
    }
    void add(std::string const &name, int i)
    {
        define(name, i);
        names.push_back(name);
        auto n = count();
        if (!check(n == names.size(), std::string(what) + ":count", fmt("%zu %s, expected %zu", n, what, names.size()))) { names.pop_back(); return; }
        items.push_back(at(n - 1));
        check(items.back(), std::string(what) + ":lost", name);
    }
};

template<int ...N> static void overloads(bool inside, std::integer_sequence<int, N...>)
{
    auto g = global_define();
    auto n = g._namespace("many");
    if (inside) { auto c = n._class<Host>("Host"); (c._method("over", &over<N>), ...); }
    else (n._method("over", &over<N>), ...);
}
template<int N> static void judge_overload(MetaContainer const *c)
{
    auto *m = c->template getMethod<Tag<N> const &>("over");
    if (!check(m != nullptr, "overload:lost", fmt("overload %d", N))) return;
    Tag<N> t;
    check(m->invoke(t).template to<int>() == 7000 + N, "overload:another", fmt("overload %d is %s", N, m->name().c_str()));
    eval(comb(9, N));
}
template<int ...N> static void judge_overloads(MetaContainer const *c, std::integer_sequence<int, N...>)
{
    (judge_overload<N>(c), ...);
    auto *first = c->getMethod("over");
    check(first && first == c->template getMethod<Tag<0> const &>("over"), "overload:first", "the plain name does not give the first");
}

static void items(Rng &r)
{
    bool inside = r.chance(1, 2);
    fill(std::make_integer_sequence<int, FNS>{});
    { auto g = global_define(); g._namespace("many")._class<Host>("Host"); }
    MetaContainer const *c = MetaNamespace::global()->getNamespace("many");
    if (inside) c = c->getClass("Host");
    if (!check(c, "container-lost", "")) return;
    auto cls = groups().classes;
    auto in_namespace = [&](auto f) {
        auto g = global_define();
        auto n = g._namespace("many");
        if (inside) { auto h = n._class<Host>("Host"); f(h); }
        else f(n);
    };
    std::vector<List> lists = {
        {"methods", [&](auto &name, int i) { in_namespace([&](auto &d) { d._method(name, fns[i % FNS]); }); },
         [&] { return c->methodCount(); }, [&](std::size_t i) { return c->getMethod(i); }, [&](auto &name) { return c->getMethod(name); },
         [&](MetaItem const *m, int i) { check(static_cast<MetaMethod const *>(m)->invoke(i % 1000).template to<int>() == 100 * (i % 1000) + i % FNS, "methods:another", m->name()); }},
        {"properties", [&](auto &name, int i) { in_namespace([&](auto &d) { d._property(name, &vars[i]); }); },
         [&] { return c->propertyCount(); }, [&](std::size_t i) { return c->getProperty(i); }, [&](auto &name) { return c->getProperty(name); },
         [&](MetaItem const *p, int i) { vars[i] = 31 * i; check(static_cast<MetaProperty const *>(p)->get().template to<int>() == 31 * i, "properties:another", p->name()); }},
        {"enums", [&](auto &name, int) { in_namespace([&](auto &d) { d.template _enum<Kind>(name); }); },
         [&] { return c->enumCount(); }, [&](std::size_t i) { return c->getEnum(i); }, [&](auto &name) { return c->getEnum(name); }, {}},
        {"classes", [&](auto &name, int i) { cls[i].define(inside, name); },
         [&] { return c->classCount(); }, [&](std::size_t i) { return c->getClass(i); }, [&](auto &name) { return c->getClass(name); },
         [&](MetaItem const *x, int i) { check(MetaClass::find(cls[i].id) == x && static_cast<MetaClass const *>(x)->metaTypeId() == cls[i].id, "classes:type", x->name()); }},
    };
    if (!inside)
        lists.push_back({"namespaces", [&](auto &name, int) { auto g = global_define(); g._namespace("many")._namespace(name); },
         [&] { return c->namespaceCount(); }, [&](std::size_t i) { return c->getNamespace(i); }, [&](auto &name) { return c->getNamespace(name); }, {}});
    else
        lists.push_back({"constructors", [&](auto &name, int) { auto g = global_define(); g._namespace("many")._class<Host>("Host").template _constructor<int>(name); },
         [&] { return c->constructorCount() - 3; }, [&](std::size_t i) { return c->getConstructor(i + 3); }, [&](auto &name) { return c->getConstructor(name + "(int)") ? c->getConstructor(name + "(int)") : c->getConstructor(name); }, {}});
    // in a namespace that has its class already, the class comes first
    std::size_t hidden = inside ? 0 : 1;
    lists[3].count = [&, hidden] { return c->classCount() - hidden; };
    lists[3].at = [&, hidden](std::size_t i) { return c->getClass(i + hidden); };
    int most = int(r.range(1030, 1500));
    std::vector<int> next(lists.size());
    std::vector<int> turn;
    for (std::size_t l = 0; l < lists.size(); ++l)
        for (int i = 0; i < (l == 3 ? TAGS : most); ++i) turn.push_back(int(l));
    r.shuffle(turn);
    std::size_t done = 0;
    for (int l : turn)
    {
        auto &L = lists[l];
        int i = next[l]++;
        at("define", fmt("%s %d", L.what, i));
        auto name = item_name(L.what, i, r);
        if (std::find(L.names.begin(), L.names.end(), name) != L.names.end()) name += "'";
        L.add(name, i);
        auto n = L.names.size();
        if ((n & (n - 1)) == 0 || (n & (n + 1)) == 0 || ++done % 97 == 0)
            for (std::size_t k : {std::size_t(0), std::size_t(r.below(n)), std::size_t(r.below(n)), n / 2, n - 1}) L.judge(k, "while growing");
    }
    for (auto &L : lists)
    {
        for (std::size_t i = 0; i < L.items.size(); ++i)
        {
            at("look", fmt("%s %zu", L.what, i));
            L.judge(i, "at the end");
            if (L.use && L.items[i]) L.use(L.items[i], int(i));
        }
        check(L.at(L.items.size()) == nullptr, std::string(L.what) + ":past-the-end", "");
        check(L.by_name("nonesuch") == nullptr, std::string(L.what) + ":unknown", "");
        cov_max(std::string(L.what) + " of one container", L.items.size());
    }
    std::size_t k = 0;
    c->for_each_method([&](MetaMethod const *m) { check(k < lists[0].items.size() && lists[0].items[k] == m, "methods:iteration", m->name()); ++k; return true; });
    check(k == lists[0].items.size(), "methods:iteration", "number");
    overloads(inside, std::make_integer_sequence<int, OVERLOADS>{});
    judge_overloads(c, std::make_integer_sequence<int, OVERLOADS>{});
    // namespaces within namespaces
    std::string path;
    MetaContainer const *at_ = MetaNamespace::global();
    path = at_->qualifiedName();
    int depth = int(r.range(40, 48));
    {
        auto g = global_define();
        static std::vector<std::string> names;
        for (int i = 0; i < depth; ++i) names.push_back(item_name("level", i, r));
        // a deferred definition starts at its own container
        static int at_level;
        at_level = 0;
        struct Step
        {
            static void next(meta_define<void> d)
            {
                if (at_level >= int(names.size())) return;
                auto x = d._namespace(names[at_level++]);
                x._lazy([](meta_define<void> e) { next(e); });
            }
        };
        g._namespace("deep")._lazy([](meta_define<void> d) { Step::next(d); });
        at_ = at_->getNamespace("deep");
        path += "::deep";
        for (int i = 0; i < depth && at_; ++i)
        {
            at("look", fmt("level %d", i));
            auto *n = at_->getNamespace(names[i]);
            if (!check(n != nullptr, "levels:lost", fmt("level %d", i))) return;
            path += "::" + names[i];
            check(n->qualifiedName() == path && n->owner() == at_ && n == at_->getNamespace(std::size_t(0)), "levels:name", n->qualifiedName());
            eval(comb(8, i));
            at_ = n;
        }
        cov_max("levels of namespaces", std::uint64_t(depth));
    }
}

#endif

#ifdef MANY_ATTRIBUTES
// --- attributes and elements ----------------------------------------------------------------------
static void attributes(Rng &r)
{
    struct Entry { std::string name; long value; variant const *seen; };
    for (int enumeration = 0; enumeration < 2; ++enumeration)
    {
        std::vector<Entry> e;
        std::map<std::string, std::size_t> index;
        MetaNamespace const *ns = nullptr;
        MetaEnum const *en = nullptr;
        { auto g = global_define(); g._namespace("attributed").template _enum<Kind>("Kind"); }
        ns = MetaNamespace::global()->getNamespace("attributed");
        en = ns->getEnum("Kind");
        int most = int(r.range(1100, 2500));
        auto value_of = [](variant const &v) { return v.is<long>() ? v.cref<long>() : v.is<std::string>() ? std::atol(v.cref<std::string>().c_str()) : -1; };
        auto count = [&] { return enumeration ? en->elementCount() : ns->attributeCount(); };
        auto by_index = [&](std::size_t i) -> variant const & { return enumeration ? en->element(i) : ns->attribute(i); };
        auto name_at = [&](std::size_t i) { return enumeration ? en->elementName(i) : ns->attributeName(i); };
        auto by_name = [&](std::string const &s) -> variant const & { return enumeration ? en->element(s) : ns->attribute(s); };
        std::string kind = enumeration ? "elements" : "attributes";
        auto judge = [&](std::size_t i) {
            auto &x = e[i];
            auto text = [&] { return fmt("%s %zu of %zu (%s)", kind.c_str(), i, e.size(), x.name.c_str()); };
            check(name_at(i) == x.name, kind + ":name", text());
            check(value_of(by_index(i)) == x.value, kind + ":index", text());
            check(value_of(by_name(x.name)) == x.value, kind + ":by-name", text());
            check(&by_index(i) == x.seen && value_of(*x.seen) == x.value, kind + ":reference", text());
            eval(hash_str(x.name) + std::uint64_t(x.value), true, 3);
        };
        for (int step = 0; step < most + most / 3; ++step)
        {
            auto g = global_define();
            long v = r.range(0, 1000000);
            bool again = e.size() > 4 && r.chance(1, 4);
            auto name = again ? e[r.below(e.size())].name : item_name(enumeration ? "e" : "a", step, r);
            at("set", name);
            bool text = r.chance(1, 3);
            auto put = [&](auto value) {
                if (enumeration) g._namespace("attributed").template _enum<Kind>("Kind")._element(name, value);
                else g._namespace("attributed")._attribute(name, value);
            };
            if (text) put(std::to_string(v)); else put(v);
            auto it = index.find(name);
            if (it == index.end())
            {
                index[name] = e.size();
                check(count() == e.size() + 1, kind + ":count", fmt("%zu, expected %zu", count(), e.size() + 1));
                e.push_back({name, v, &by_index(e.size())});
            }
            else e[it->second].value = v;
            judge(it == index.end() ? e.size() - 1 : it->second);
            if (step % 16 == 0) judge(r.below(e.size()));
        }
        check(count() == e.size(), kind + ":count", fmt("%zu, expected %zu", count(), e.size()));
        for (std::size_t i = 0; i < e.size(); ++i) judge(i);
        std::size_t k = 0;
        auto each = [&](auto name, variant const &v) {
            check(k < e.size() && e[k].name == name && value_of(v) == e[k].value, kind + ":iteration", std::string(name));
            ++k;
            return true;
        };
        if (enumeration) en->for_each_element([&](auto name, variant const &v) { return each(name, v); });
        else ns->for_each_attribute([&](auto name, variant const &v) { return each(name, v); });
        check(k == e.size(), kind + ":iteration", fmt("%zu of %zu", k, e.size()));
        check(by_index(e.size()).empty() && by_name("nonesuch").empty() && name_at(e.size()).empty(), kind + ":past-the-end", "");
        cov_max(kind + " of one item", e.size());
    }
}

#endif

#ifdef MANY_CONVERTERS
// --- converters -------------------------------------------------------------------------------------
static void converters(Rng &r)
{
    auto ops = groups().converters;
    std::vector<int> salt(TAGS, -1);
    std::size_t live = 0;
    auto judge = [&](int i) {
        int x = int(r.below(1000));
        check(ops[i].has() == (salt[i] >= 0), "has", fmt("pair %d with %zu registered", i, live));
        long want = salt[i] < 0 ? -1 : x + 1000 * i + salt[i], got = ops[i].use(x);
        check(got == want, "result", fmt("pair %d with %zu registered: %ld, expected %ld", i, live, got, want));
        eval(comb(comb(7, i), std::uint64_t(live)), true, 2);
    };
    for (int round = 0; round < 3; ++round)
    {
        std::vector<int> order(TAGS);
        for (int i = 0; i < TAGS; ++i) order[i] = i;
        r.shuffle(order);
        for (int i : order)
        {
            int s = int(r.below(900));
            at("register", fmt("pair %d", i));
            bool got = ops[i].reg(s);
            check(got == (salt[i] < 0), "register", fmt("pair %d with %zu registered: %d", i, live, int(got)));
            if (salt[i] < 0) { salt[i] = s; ++live; }
            judge(i);
            judge(int(r.below(TAGS)));
        }
        cov_max("converters at a time", live);
        for (int i = 0; i < TAGS; ++i) judge(i);
        r.shuffle(order);
        for (int i : order)
        {
            if (round < 2 ? r.chance(1, 3) : false) continue;
            ops[i].unreg();
            if (salt[i] >= 0) --live;
            salt[i] = -1;
            judge(i);
            judge(int(r.below(TAGS)));
        }
        for (int i = 0; i < TAGS; ++i) judge(i);
    }
}

#endif

#ifdef MANY_GRAPH
// --- graph ------------------------------------------------------------------------------------------
template<int N> struct Base { DECLARE_CLASSINFO public: virtual ~Base() {} int n = N; };
template<typename> struct Wide;
template<int ...N> struct Wide<std::integer_sequence<int, N...>>: Base<N>... { DECLARE_CLASSINFO };
constexpr int SPOKES = TAGS, WIDE = 66;
using TheWide = Wide<std::make_integer_sequence<int, WIDE>>;
static void graph_spokes(Rng &r)
{
    { auto g = global_define(); g._namespace("graph")._class<Hub>("Hub"); }
    auto spokes = groups().spokes;
    std::vector<int> order(SPOKES);
    for (int i = 0; i < SPOKES; ++i) order[i] = i;
    r.shuffle(order);
    auto *hub = MetaClass::find(metaTypeId<Hub>());
    for (std::size_t k = 0; k < order.size(); ++k)
    {
        spokes[order[k]].define();
        if (r.chance(1, 5)) spokes[order[r.below(k + 1)]].define();
        auto c = MetaClass::find(spokes[order[k]].id);
        check(hub->derivedClassCount() == k + 1 && hub->derivedClass(k) == c, "derived", fmt("%zu derived classes, expected %zu", hub->derivedClassCount(), k + 1));
        check(c && c->baseClassCount() == 1 && c->baseClass(0) == hub && c->inheritedFrom(hub) && !hub->inheritedFrom(c), "base", fmt("spoke %d", order[k]));
        eval(comb(6, std::uint64_t(order[k])));
    }
    for (std::size_t k = 0; k < order.size(); ++k) check(hub->derivedClass(k) == MetaClass::find(spokes[order[k]].id), "derived", fmt("derived class %zu", k));
    cov_max("derived of one class", hub->derivedClassCount());
}
template<int ...N> static void graph_wide(Rng &r, std::integer_sequence<int, N...>)
{
    ([] { auto g = global_define(); g._namespace("graph")._class<Base<N>>(fmt("Base%d", N)); }(), ...);
    { auto g = global_define(); g._namespace("graph")._class<TheWide>("Wide"); }
    std::vector<std::function<void()>> link = {[] { auto g = global_define(); g._namespace("graph")._class<TheWide>("Wide").template _base<Base<N>>(); }...};
    std::vector<MetaType_ID> ids = {metaTypeId<Base<N>>()...};
    std::vector<int> order(WIDE);
    for (int i = 0; i < WIDE; ++i) order[i] = i;
    r.shuffle(order);
    auto *wide = MetaClass::find(metaTypeId<TheWide>());
    cov_max("bases of one class", WIDE);
    for (int k = 0; k < WIDE; ++k)
    {
        link[order[k]]();
        if (r.chance(1, 4)) link[order[r.below(k + 1)]]();
        check(wide->baseClassCount() == std::size_t(k + 1), "bases", fmt("%zu bases, expected %d", wide->baseClassCount(), k + 1));
        for (int j = 0; j < WIDE; ++j)
        {
            auto *b = MetaClass::find(ids[order[j]]);
            check(wide->inheritedFrom(b) == (j <= k), "inherited", fmt("base %d of %d", j, k + 1));
            if (j <= k) check(wide->baseClass(j) == b, "bases", fmt("base %d of %d", j, k + 1));
            eval(comb(comb(5, j), std::uint64_t(k)));
        }
    }
    if (opt("--judge", "") != "cast") return;
    auto *w = new TheWide;
    (check(meta_cast<Base<N>>(w) == static_cast<Base<N> *>(w), "address", fmt("base %d", N)), ...);
    variant v{*w};
    ([&] {
        auto *inside = &v.cref<Base<N>>();
        check(inside == static_cast<Base<N> const *>(&v.cref<TheWide>()) && inside->n == N, "variant-address", fmt("base %d", N));
        eval(comb(4, N));
    }(), ...);
    delete w;
}

#endif

#ifdef MANY_TYPES
// --- types ----------------------------------------------------------------------------------------------
static void types(Rng &)
{
    auto ids = Table<Tags>::ids();
    auto crefs = Table<Tags>::cref_ids();
    auto names = Table<Tags>::names();
    std::set<std::size_t> all;
    for (auto &list : {ids, crefs})
        for (auto id : list) all.insert(id.value());
    check(all.size() == 2 * TAGS && !all.count(MetaType_ID{}.value()), "shared-id", fmt("%zu ids of %d types", all.size(), 2 * TAGS));
    for (int i = 0; i < TAGS; ++i)
    {
        MetaType t{ids[i]}, c{crefs[i]};
        check(t.typeName() == names[i] && MetaType{names[i]}.typeId() == ids[i], "name", names[i]);
        check(t.decayId() == ids[i] && c.decayId() == ids[i], "decay", names[i]);
        eval(comb(4, i));
    }
    check(Table<Tags>::ids() == ids, "changed-id", "");
    cov_max("types", all.size());
}

#endif

int main(int argc, char **argv)
{
    init(argc, argv);
    std::string judge = opt("--judge", "items");
    auto r = case_rng(S().shard);
    begin_case(S().shard, "many", judge);
#ifdef MANY_ITEMS
    items(r);
#endif
#ifdef MANY_ATTRIBUTES
    attributes(r);
#endif
#ifdef MANY_CONVERTERS
    converters(r);
#endif
#ifdef MANY_TYPES
    types(r);
#endif
#ifdef MANY_GRAPH
    if (judge == "graph") graph_spokes(r);
    graph_wide(r, std::make_integer_sequence<int, WIDE>{});
#endif
    sample("large numbers: " + judge);
    return finish();
}
