// Attributes of namespaces, classes and enums and elements of enums, against ordered maps.
#include "alloc_hook.h"
#include "forked.h"
#include <rtti/metadefine.h>

using namespace rv;
using rtti::MetaItem;
using rtti::MetaNamespace;
using rtti::variant;

namespace {
using Small = Tr<1, 8, Full>;
using Large = Tr<2, 200, Full>;
using MoveOnly = Tr<3, 8, CanMove | MoveNoexcept>;
using Fragile = Tr<4, 8, CanCopy | CanMove | CanAssign | HasEq>;    // throwing move
template<int I> struct Cls { int x; };
enum class En { A };

enum Kind { INT, STRING, SMALL, LARGE, MOVEONLY, FRAGILE, REFERENCE, CREFERENCE, POINTER, EMPTY, KINDS };
char const *const kind_names[] = {"int", "string", "small", "large", "move-only", "fragile", "reference", "constant reference", "pointer", "empty"};

Large *pool() { static auto *p = new std::vector<Large>; if (p->empty()) { p->reserve(16); for (int i = 0; i < 16; ++i) p->emplace_back(i); } return p->data(); }

struct Value { int kind = EMPTY, n = 0; };
struct Entry { std::string name; Value v; };
std::string text(Value v) { return fmt("%s %d", kind_names[v.kind], v.n); }
std::string words(int n) { return std::string(30, char('a' + n % 26)) + std::to_string(n); }

bool holds(variant const &v, Value w)
{
    Monitoring mon;
    switch (w.kind)
    {
    case INT: return v.is<int>() && *v.data<int>() == w.n;
    case STRING: return v.is<std::string>() && *v.data<std::string>() == words(w.n);
    case SMALL: return v.is<Small>() && v.data<Small>()->value() == w.n;
    case LARGE: return v.is<Large>() && v.data<Large>()->value() == w.n && v.data<Large>() != pool() + w.n % 16;
    case MOVEONLY: return v.is<MoveOnly>() && v.data<MoveOnly>()->value() == w.n;
    case FRAGILE: return v.is<Fragile>() && v.data<Fragile>()->value() == w.n;
    case REFERENCE: case CREFERENCE: return v.data<Large>() == pool() + w.n % 16;
    case POINTER: return v.is<Large *>() && *v.data<Large *>() == pool() + w.n % 16;
    default: return v.empty() && !v.typeId().valid();
    }
}
variant make(Value w)
{
    switch (w.kind)
    {
    case INT: return variant{w.n};
    case STRING: return variant{words(w.n)};
    case SMALL: return variant{Small(w.n)};
    case LARGE: return variant{Large(w.n)};
    case MOVEONLY: return variant{MoveOnly(w.n)};
    case FRAGILE: return variant{Fragile(w.n)};
    case REFERENCE: return variant{std::ref(pool()[w.n % 16])};
    case CREFERENCE: return variant{std::cref(pool()[w.n % 16])};
    case POINTER: return variant{pool() + w.n % 16};
    default: return variant{};
    }
}

// the four maps
enum Which { OF_NAMESPACE, OF_CLASS, OF_ENUM, ELEMENTS, MAPS };
char const *const which_names[] = {"attribute of a namespace", "attribute of a class", "attribute of an enum", "element"};
struct Map
{
    int which;
    rtti::MetaNamespace const *ns;
    MetaItem const *item;
    std::vector<Entry> model;
    std::vector<variant const *> handed;       // first seen addresses, by index
    std::vector<std::string const *> handed_names;

    rtti::MetaEnum const *en() const { return static_cast<rtti::MetaEnum const *>(item); }
    std::size_t count() const { return which == ELEMENTS ? en()->elementCount() : item->attributeCount(); }
    variant const &at(std::size_t i) const { return which == ELEMENTS ? en()->element(i) : item->attribute(i); }
    std::string const &name(std::size_t i) const { return which == ELEMENTS ? en()->elementName(i) : item->attributeName(i); }
    variant const &at(std::string_view n) const { return which == ELEMENTS ? en()->element(n) : item->attribute(n); }
    template<typename F> void each(F f) const
    {
        if (which == ELEMENTS) en()->for_each_element([&](std::string const &n, variant const &v) { return f(std::string_view(n), v); });
        else item->for_each_attribute([&](std::string_view n, variant const &v) { return f(n, v); });
    }
    template<typename V> void set(std::string_view n, V &&v) const
    {
        auto g = rtti::global_define();
        using D = std::decay_t<V>;
        if (which == OF_NAMESPACE) g._namespace("n")._attribute(n, std::forward<V>(v));
        else if (which == OF_CLASS) g._namespace("n")._class<Cls<0>>("c")._attribute(n, std::forward<V>(v));
        else if (which == OF_ENUM) g._namespace("n")._enum<En>("e")._attribute(n, std::forward<V>(v));
        else if constexpr (std::is_same_v<D, variant> && !std::is_rvalue_reference_v<V &&>) g._namespace("n")._enum<En>("e")._element(n, variant{v});
        else if constexpr (std::is_same_v<D, variant> && std::is_const_v<std::remove_reference_t<V>>) g._namespace("n")._enum<En>("e")._element(n, variant{v});
        else g._namespace("n")._enum<En>("e")._element(n, std::forward<V>(v));
    }
    Entry *find(std::string const &n)
    {
        for (auto &e : model) if (e.name == n) return &e;
        return nullptr;
    }
    void assign(std::string const &n, Value v)
    {
        if (n.empty()) return;
        if (auto e = find(n)) e->v = v;
        else model.push_back({n, v});
    }
};

struct Loan
{
    std::string buf;
    std::string_view view;
    explicit Loan(std::string const &n) : buf("\x7f" + n + "tail"), view(std::string_view(buf).substr(1, n.size())) {}
    ~Loan() { std::memset(&buf[0], '#', buf.size()); }
    operator std::string_view() const { return view; }
};

struct Case
{
    Rng &rng;
    std::vector<Map> maps;
    std::string log;
    std::vector<std::string> names;
    long looks = 0;
    explicit Case(Rng &r) : rng(r) {}
    bool ok(bool good, char const *key, Map const &m, std::string const &what)
    {
        ++looks;
        if (good) return true;
        return check(false, key, std::string(which_names[m.which]) + " " + what + " after: " + log.substr(log.size() > 400 ? log.size() - 400 : 0));
    }
    void note(std::string t)
    {
        for (auto &c : t) if (!c) c = '0';
        log += t + "; ";
    }
    std::string name()
    {
        if (rng.chance(1, 3)) { names.push_back("k" + std::to_string(names.size()) + (rng.chance(1, 4) ? std::string(40, 'x') : "")); return names.back(); }
        return names[rng.below(names.size())];
    }
    void verify(Map &m, bool full)
    {
        auto n = m.count();
        if (!ok(n == m.model.size(), "count", m, fmt("%zu entries instead of %zu", n, m.model.size()))) return;
        for (std::size_t k = 0; k < n; ++k)
        {
            // all of a few, a few of many
            if (!full && n > 24 && k + 4 < n && !rng.chance(24, unsigned(n))) continue;
            auto &e = m.model[k];
            auto &v = m.at(k);
            ok(m.name(k) == e.name, "order", m, fmt("%zu is %s instead of %s", k, m.name(k).c_str(), e.name.c_str()));
            ok(holds(v, e.v), "value", m, e.name + " is not " + text(e.v));
            ok(&m.at(e.name) == &v, "name-and-index", m, e.name);
            if (k < m.handed.size() && m.handed[k]) ok(m.handed[k] == &v && m.handed_names[k] == &m.name(k), "handed-out-reference-is-stale", m, e.name);
            else if (k >= m.handed.size()) { m.handed.resize(k + 1); m.handed_names.resize(k + 1); }
            m.handed[k] = &v;
            m.handed_names[k] = &m.name(k);
        }
        // what has been handed out is read without asking again
        for (std::size_t k = 0; k < m.handed.size(); ++k)
            if (m.handed[k] && (full || m.handed.size() < 24 || rng.chance(24, unsigned(m.handed.size()))))
                ok(holds(*m.handed[k], m.model[k].v) && *m.handed_names[k] == m.model[k].name, "handed-out-reference-not-current", m, m.model[k].name);
        for (auto k : {n, n + 1, std::size_t(-1)}) ok(m.at(k).empty() && m.name(k).empty(), "index-out-of-range", m, "");
        for (auto s : {std::string("nonesuch"), std::string(), std::string("a\0", 2), std::string(500, 'q')}) ok(m.find(s) || m.at(s).empty(), "unknown-name", m, s);
        if (!m.model.empty())
        {
            auto &e = m.model[rng.below(m.model.size())];
            for (auto s : {e.name + " ", e.name.substr(0, e.name.size() - 1), e.name + std::string(1, '\0')}) ok(m.find(s) || m.at(s).empty(), "unknown-name", m, s);
            Loan l(e.name);
            ok(&m.at(std::string_view(l)) == m.handed[std::size_t(&e - m.model.data())] || n > 24, "name-and-index", m, e.name);
        }
        std::size_t stop = rng.chance(1, 2) ? rng.below(n + 1) : std::size_t(-1), seen = 0;
        bool right = true;
        m.each([&](std::string_view name, variant const &v) {
            right = right && seen < n && name == m.model[seen].name && &v == (m.handed[seen] ? m.handed[seen] : &v) && holds(v, m.model[seen].v);
            return seen++ != stop;
        });
        ok(right && seen == std::min(n, stop == std::size_t(-1) ? n : stop + 1), "iteration", m, fmt("%zu of %zu", seen, n));
    }

    template<typename V> void raw(Map &m, std::string const &n, V &&v)
    {
        if (rng.chance(1, 2)) { Loan l(n); m.set(l, std::forward<V>(v)); }
        else m.set(n, std::forward<V>(v));
    }
    void set(Map &m, std::string const &n, Value w)
    {
        auto way = rng.below(8);
        note(fmt("%s %s = %s (%d)", which_names[m.which], n.c_str(), text(w).c_str(), int(way)));
        bool single = w.kind == MOVEONLY;
        if (way == 0 || single) raw(m, n, make(w));
        else if (way == 1) { auto v = make(w); raw(m, n, v); ok(holds(v, w), "source-changed", m, text(w)); }
        else if (way == 2) { auto const v = make(w); raw(m, n, v); ok(holds(v, w), "source-changed", m, text(w)); }
        else if (way == 3) { auto v = make(w); raw(m, n, std::move(v)); }
        else if (way == 4) { auto const v = make(w); raw(m, n, std::move(v)); ok(holds(v, w), "source-changed", m, text(w)); }
        else
        {
            // plain values
            if (w.kind == INT) { int i = w.n; way == 5 ? raw(m, n, i) : raw(m, n, int(w.n)); }
            else if (w.kind == STRING) { auto s = words(w.n); auto const &c = s; way == 5 ? raw(m, n, c) : way == 6 ? raw(m, n, s) : raw(m, n, words(w.n)); }
            else if (w.kind == SMALL) { Small s(w.n); way == 5 ? raw(m, n, s) : raw(m, n, Small(w.n)); }
            else if (w.kind == LARGE) { Large s(w.n); way == 5 ? raw(m, n, std::as_const(s)) : raw(m, n, Large(w.n)); }
            else if (w.kind == FRAGILE) { Fragile s(w.n); way == 5 ? raw(m, n, s) : raw(m, n, Fragile(w.n)); }
            else if (w.kind == REFERENCE) raw(m, n, std::ref(pool()[w.n % 16]));
            else if (w.kind == CREFERENCE) raw(m, n, std::cref(pool()[w.n % 16]));
            else if (w.kind == POINTER) raw(m, n, pool() + w.n % 16);
            else raw(m, n, make(w));
        }
        m.assign(n, w);
    }
    Value value() { return {int(rng.below(KINDS)), int(rng.below(1000))}; }

    void step()
    {
        auto &m = rng.pick(maps);
        auto op = rng.below(100);
        if (op < 55) set(m, rng.chance(1, 40) ? "" : name(), value());
        else if (op < 62)
        {
            // from another entry, or the same one
            auto &o = rng.pick(maps);
            if (o.model.empty()) return;
            auto k = rng.below(o.model.size());
            if (o.model[k].v.kind == MOVEONLY) return;
            auto n = &o == &m && rng.chance(1, 3) ? o.model[k].name : name();
            note(fmt("%s %s = that of %s", which_names[m.which], n.c_str(), o.model[k].name.c_str()));
            auto w = o.model[k].v;
            if (n == o.model[k].name && &o == &m) m.set(o.name(k), o.at(k));       // name from the same storage, too
            else raw(m, n, o.at(k));
            m.assign(n, w);
        }
        else if (op < 68)
        {
            // many at once
            int n = rng.range(5, rng.chance(1, 5) ? 400 : 60);
            note(fmt("%d new ones", n));
            auto old = log;
            for (int k = 0; k < n; ++k)
            {
                names.push_back("m" + std::to_string(names.size()));
                Value w{INT, k};
                m.set(names.back(), k);
                m.assign(names.back(), w);
            }
            log = old;
        }
        else if (op < 80)
        {
            // a copy that throws: nothing changes
            int kind = rng.chance(1, 2) ? LARGE : FRAGILE;
            Value w{kind, rng.range(1, 900)};
            auto v = make(w);
            auto n = name();
            bool had = m.find(n) != nullptr;
            long nth = long(rng.below(3));
            note(fmt("%s %s = throwing %s (%ld)", which_names[m.which], n.c_str(), text(w).c_str(), nth));
            bool thrown = false;
            faults().arm(nth);
            try { m.set(n, std::as_const(v)); }
            catch (Injected const &) { thrown = true; }
            faults().off();
            ok(thrown == faults().fired, "exception-swallowed", m, n);
            if (!thrown) m.assign(n, w);
            else cov(had ? "failed overwrites" : "failed additions");
        }
        else if (op < 90)
        {
            auto n = name();
            Value w{rng.chance(1, 2) ? INT : LARGE, rng.range(1, 900)};
            bool had = m.find(n) != nullptr;
            long nth = long(rng.below(8));
            note(fmt("%s %s = %s, allocation %ld fails", which_names[m.which], n.c_str(), text(w).c_str(), nth));
            bool fired[2] = {};
            std::size_t left = 0;
            for (int r = 0; r < 2; ++r)
            {
                auto v = make(w);
                auto uid = ledger().next_uid;
                auto live = alloc::live();
                {
                    alloc::Scope s;
                    alloc::arm(nth);
                    try { m.set(n, std::as_const(v)); }
                    catch (std::bad_alloc const &) { fired[r] = true; }
                    alloc::off();
                }
                left = alloc::live() - live;
                if (!fired[r]) { m.assign(n, w); break; }
                ok(ledger().count_since(uid) == 0, "value-left-behind", m, n);
                ok(had || m.at(n).empty(), "half-added", m, n);
            }
            if (fired[1]) { ok(left == 0, "leak", m, n); cov("ran out of memory"); }
        }
        else if (op < 95)
        {
            // defining while iterating
            if (m.model.size() > 300) return;
            auto before = m.model;
            std::size_t seen = 0;
            bool right = true;
            note("iterate and add");
            auto old = log;
            int adds = rng.range(1, 20);
            m.each([&](std::string_view name, variant const &v) {
                if (seen < before.size()) right = right && name == before[seen].name && holds(v, m.model[seen].v);
                ++seen;
                if (adds-- > 0) set(m, this->name(), value());
                return true;
            });
            log = old;
            ok(right && seen >= before.size() && seen <= m.model.size(), "iteration-while-adding", m, "");
        }
        else verify(m, true);
    }
};

void one(long i, Rng &rng)
{
    begin_case(i, "entries", "");
    Case c(rng);
    pool();
    {
        auto g = rtti::global_define();
        g._namespace("n")._enum<En>("e");
    }
    {
        auto g = rtti::global_define();
        g._namespace("n")._class<Cls<0>>("c");
    }
    auto *ns = MetaNamespace::global()->getNamespace("n");
    MetaItem const *items[] = {ns, ns->getClass("c"), ns->getEnum("e"), ns->getEnum("e")};
    for (int k = 0; k < MAPS; ++k) c.maps.push_back({k, ns, items[k], {}, {}, {}});
    c.names = {"a", "b", "Attribute", "x y", "\xc3\xbc", std::string("a\0b", 3), std::string("a\0c", 3), std::string(80, 'l'), std::string(80, 'l') + "2", "::"};
    if (rng.chance(1, 4)) c.names.resize(3);
    for (int k = 0; k < KINDS; ++k) make({k, 1});
    auto uid = ledger().next_uid;
    int steps = rng.range(10, 150);
    for (int k = 0; k < steps; ++k)
    {
        at("entries", c.log.substr(c.log.size() > 600 ? c.log.size() - 600 : 0));
        c.step();
        for (auto &m : c.maps) c.verify(m, k + 1 == steps);
    }
    // only what the entries hold is alive
    std::size_t held = 0;
    for (auto &m : c.maps)
        for (auto &e : m.model) held += e.v.kind == SMALL || e.v.kind == LARGE || e.v.kind == MOVEONLY || e.v.kind == FRAGILE;
    auto live = ledger().count_since(uid);
    check(live == held, "objects-left-behind", fmt("%zu objects are alive instead of %zu, after: ", live, held) + c.log);
    std::size_t most = 0;
    for (auto &m : c.maps) most = std::max(most, m.model.size());
    cov_max("entries of one item", most);
    cov("operations", std::uint64_t(steps));
    eval(hash_str(c.log), true, c.looks);
    sample(c.log);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute.push_back("moved-from-object");
    forked_cases(std::stol(opt("--n", "800")), one);
    return finish();
}
