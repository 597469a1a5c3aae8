// Constructors whose parameters are related to the constructed class itself: classes derived from it, its base,
// pointers to it, containers of it, itself with something more.
#include "rv.h"
#include <rtti/metadefine.h>
#include <memory>

using namespace rv;
using rtti::MetaClass;
using rtti::variant;

namespace {
template<int K> struct Derived;
template<int K> struct Holder;
template<int K> struct Root { int root = 900 + K; virtual ~Root() = default; DECLARE_CLASSINFO };

struct Came { int how = 0; void const *from = nullptr; int seen = 0; };
template<bool> struct MayThrow { MayThrow() = default; MayThrow(MayThrow const &) {} MayThrow(MayThrow &&) noexcept(false) {} MayThrow &operator=(MayThrow const &) = default; };
template<> struct MayThrow<false> {};

template<int K> struct Made : Root<K>
{
    static constexpr bool big = K & 1, throwing = K & 2;
    int v = 0;
    Came came;
    MayThrow<throwing> may;
    char pad[big ? 100 : 1] = {};

    explicit Made(int v, std::nullptr_t) : v(v) {}
    Made() { came.how = 1; }
    Made(Made const &o) : Root<K>(o), v(o.v), came{2, &o, o.v} {}
    Made(Made &&o) noexcept(!throwing) : v(o.v), came(o.came) { if (!came.how || came.how > 99) came = {3, &o, o.v}; }
    Made(Derived<K> const &d);
    Made(Derived<K> &&d);
    Made(Root<K> const &r) : v(r.root), came{6, &r, r.root} {}
    Made(Made const &o, int n) : v(o.v + n), came{7, &o, n} {}
    Made(Made &&o, int n) : v(o.v - n), came{8, &o, n} {}
    Made(int n, Made const &o) : v(n), came{9, &o, n} {}
    Made(Made const &a, Made const &b) : v(a.v * 1000 + b.v), came{10, &a, b.v} {}
    Made(Made *p) : v(p ? p->v : -1), came{11, p, 0} {}
    Made(Made const *p) : v(p ? p->v : -1), came{12, p, 0} {}
    Made(std::vector<Made> const &l) : v(int(l.size())), came{13, &l, l.empty() ? 0 : l.front().v} {}
    Made(Holder<K> const &h);
    Made(Derived<K> const *p, bool);
    Made(std::unique_ptr<Made> &&p) : v(p->v), came{16, p.get(), p->v} {}
    bool operator==(Made const &o) const { return v == o.v; }
    DECLARE_CLASSINFO
};
template<int K> struct Derived : Made<K> { int w; explicit Derived(int w) : Made<K>(w + 1, nullptr), w(w) { this->came.how = 100; } DECLARE_CLASSINFO };
template<int K> struct Holder { Made<K> held{5, nullptr}; };
template<int K> Made<K>::Made(Derived<K> const &d) : v(d.w), came{4, &d, d.w} {}
template<int K> Made<K>::Made(Derived<K> &&d) : v(d.w), came{5, &d, d.w} { d.w = -1; }
template<int K> Made<K>::Made(Holder<K> const &h) : v(h.held.v), came{14, &h, 0} {}
template<int K> Made<K>::Made(Derived<K> const *p, bool b) : v(p->w), came{15, p, b} {}

template<int K> void family(Rng &rng)
{
    using M = Made<K>;
    using D = Derived<K>;
    auto text = fmt("class %d", K);
    { auto g = rtti::global_define(); g._class<Root<K>>(fmt("rel::Root%d", K)); }
    std::vector<int> order{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    rng.shuffle(order);
    for (int o : order) text += fmt(" %d", o);
    begin_case(-100 - K, "related", text);
    std::vector<std::string> names;
    {
        auto g = rtti::global_define();
        auto c = g._class<M>(fmt("rel::Made%d", K));
        c.template _base<Root<K>>();
        auto add = [&](int o, auto sig, auto def) { (void)o; names.push_back(sig()); def(); };
        for (int o : order) switch (o)
        {
#define ADD(n, ...) case n: add(n, [] { return std::string(rtti::signature<__VA_ARGS__>::get(rtti::CONSTRUCTOR_SIG)); }, [&] { c.template _constructor<__VA_ARGS__>(); }); break;
            ADD(4, D const &) ADD(5, D &&) ADD(6, Root<K> const &) ADD(7, M const &, int) ADD(8, M &&, int) ADD(9, int, M const &)
            ADD(10, M const &, M const &) ADD(11, M *) ADD(12, M const *) ADD(13, std::vector<M> const &) ADD(14, Holder<K> const &)
            ADD(15, D const *, bool) ADD(16, std::unique_ptr<M> &&)
        }
    }
    { auto g = rtti::global_define(); g._class<D>(fmt("rel::Derived%d", K)).template _base<M>(); }
    auto m = MetaClass::find(rtti::metaTypeId<M>());
    if (!check(m != nullptr, "related:class", text)) return;
    check(m->constructorCount() == 3 + names.size(), "related:count", fmt("%zu constructors", m->constructorCount()) + text);
    if (!check(m->defaultConstructor() && m->copyConstructor() && m->moveConstructor(), "related:special", text)) return;
    for (std::size_t i = 0; i < names.size(); ++i)
    {
        auto c = m->getConstructor(names[i]);
        check(c && c != m->copyConstructor() && c != m->moveConstructor() && m->getConstructor(i + 3) == c, "related:lookup", names[i]);
    }
    eval(hash_str(text), true);

    auto judge = [&](char const *what, rtti::MetaConstructor const *c, int how, void const *from, int v, int seen, auto &&...args) {
        begin_case(-100 - K, "related", text + " " + what);
        if (!check(c != nullptr, std::string("related:lookup ") + what, text)) return;
        try
        {
            auto r = c->invoke(std::forward<decltype(args)>(args)...);
            auto p = r.template data<M>();
            if (!check(p && r.typeId() == rtti::metaTypeId<M>(), std::string("related:result ") + what, text)) return;
            check(p->came.how == how, std::string("related:which ") + what, text + fmt(" constructor %d ran", p->came.how));
            if (p->came.how == how)
                check((!from || p->came.from == from) && p->v == v && p->came.seen == seen, std::string("related:arguments ") + what, text + fmt(" %d %d", p->v, p->came.seen));
        }
        catch (std::exception const &e) { check(false, std::string("related:refused ") + what, text + e.what()); }
        eval(hash_str(std::string(what) + text), true);
        cov("related constructors invoked");
    };
    auto refuse = [&](char const *what, rtti::MetaConstructor const *c, auto &&...args) {
        begin_case(-100 - K, "related", text + " " + what);
        if (!c) return;
        bool refused = false;
        try { c->invoke(std::forward<decltype(args)>(args)...); }
        catch (rtti::runtime_error const &) { refused = true; }
        catch (...) {}
        check(refused, std::string("related:accepted ") + what, text);
        eval(hash_str(std::string(what) + text), true);
        cov("related constructors refused");
    };
    int n = rng.range(1, 500), k = rng.range(1, 50);
    M a(n, nullptr), b(k, nullptr);
    M const ca(n, nullptr);
    D d(n), dm(k);
    D const cd(n);
    Holder<K> h;
    Root<K> root;
    std::vector<M> list;
    for (int i = 0; i < k % 5; ++i) list.emplace_back(n + i, nullptr);
    int first = list.empty() ? 0 : n;
    judge("default", m->defaultConstructor(), 1, nullptr, 0, 0);
    judge("copy", m->copyConstructor(), 2, &a, n, n, a);
    judge("copy const", m->copyConstructor(), 2, &ca, n, n, ca);
    judge("move", m->moveConstructor(), 3, nullptr, k, k, M(k, nullptr));
    judge("copy of derived", m->copyConstructor(), 2, static_cast<M *>(&d), n + 1, n + 1, d);
    judge("from derived", m->template getConstructor<D const &>(), 4, &d, n, n, d);
    judge("from const derived", m->template getConstructor<D const &>(), 4, &cd, n, n, cd);
    judge("from moved derived", m->template getConstructor<D &&>(), 5, &dm, k, k, std::move(dm));
    check(dm.w == -1, "related:moved", text);
    judge("from base", m->template getConstructor<Root<K> const &>(), 6, &root, root.root, root.root, root);
    judge("from base of itself", m->template getConstructor<Root<K> const &>(), 6, static_cast<Root<K> *>(&a), root.root, root.root, a);
    judge("copy and more", m->template getConstructor<M const &, int>(), 7, &a, n + k, k, a, k);
    judge("move and more", m->template getConstructor<M &&, int>(), 8, &b, 0, k, std::move(b), k);
    judge("more and copy", m->template getConstructor<int, M const &>(), 9, &ca, k, k, k, ca);
    judge("two of itself", m->template getConstructor<M const &, M const &>(), 10, &ca, n * 1000 + n, n, ca, a);
    judge("two the same", m->template getConstructor<M const &, M const &>(), 10, &a, n * 1000 + n, n, a, a);
    judge("pointer", m->template getConstructor<M *>(), 11, &a, n, 0, &a);
    judge("pointer to const", m->template getConstructor<M const *>(), 12, &ca, n, 0, &ca);
    judge("pointer to const from pointer", m->template getConstructor<M const *>(), 12, &a, n, 0, &a);
    judge("list", m->template getConstructor<std::vector<M> const &>(), 13, &list, int(list.size()), first, list);
    judge("holder", m->template getConstructor<Holder<K> const &>(), 14, &h, 5, 0, h);
    judge("pointer to derived", m->template getConstructor<D const *, bool>(), 15, &d, n, 1, &d, true);
    judge("owner", m->template getConstructor<std::unique_ptr<M> &&>(), 16, nullptr, n, n, std::make_unique<M>(n, nullptr));
    refuse("move of lvalue", m->moveConstructor(), a);
    refuse("derived from base", m->template getConstructor<D const &>(), root);
    refuse("moved derived from lvalue", m->template getConstructor<D &&>(), d);
    refuse("pointer from const", m->template getConstructor<M *>(), &ca);
    refuse("copy without more", m->template getConstructor<M const &, int>(), a);
    refuse("default with more", m->defaultConstructor(), k);
    // the constructors with one parameter are conversions as well
    {
        begin_case(-100 - K, "related", text + " conversions");
        variant const from[] = {list, h, &a, static_cast<M const *>(&ca)};
        int how[] = {13, 14, 11, 12};
        for (int i = 0; i < 4; ++i)
        {
            if (i == 3) how[i] = 0;           // one converter serves pointers of either constness
            bool ok = false;
            try
            {
                auto r = from[i].template to<M>();
                ok = r.came.how == how[i] || (i >= 2 && (r.came.how == 11 || r.came.how == 12));
            }
            catch (rtti::bad_cast const &) { ok = i >= 2; }
            check(ok, fmt("related:conversion %d", i), text);
            eval(comb(i, K), true);
        }
    }
}
} // namespace

void related(int round)
{
    auto rng = case_rng(round, 77);
    family<0>(rng);
    family<1>(rng);
    family<2>(rng);
    family<3>(rng);
}
