// Trees of deferred definitions looked at from one or many threads.
#include "forked.h"
#define RV_WRAP_LOCKS
#include "delays.h"
#include <rtti/metadefine.h>
#include <atomic>
#include <memory>
#include <set>
#include <thread>

using namespace rv;
using rtti::MetaClass;
using rtti::MetaContainer;
using rtti::MetaNamespace;
using rtti::variant;

namespace {
constexpr int CLASSES = 14;
constexpr int base_of(int i) { return i > 0 ? (i - 1) / 2 : -1; }
template<int I> struct Cls : virtual Cls<base_of(I)> { DECLARE_CLASSINFO };
template<> struct Cls<0> { virtual ~Cls() {} DECLARE_CLASSINFO };
template<typename T> struct index_of { static constexpr int value = -1; };
template<int I> struct index_of<Cls<I>> { static constexpr int value = I; };
enum class En { A };
int vars[64];
template<int T> int fn() { return T; }
int (*const fns[])() = {fn<0>, fn<1>, fn<2>, fn<3>, fn<4>, fn<5>, fn<6>, fn<7>};

enum What { METHOD, PROPERTY, ENUM, ATTRIBUTE, BASE, CHILD, PEEK, WHATS };
struct Op { int what; int n; };
struct Boom { int id; };

struct Node
{
    int id = 0, cls = -1;             // index of its class, or a namespace
    std::string name;
    Node *parent = nullptr;
    bool lazy = true, late = false;
    std::vector<Op> ops;
    int throws_at = -1;
    std::vector<Node *> children;
    std::atomic<int> ran{0}, running{0}, thrown{0}, exists{0}, based{0}, again{0};
    std::atomic<MetaContainer const *> real{nullptr};
    std::atomic<int> done{0};                 // operations done so far
    int complete() const { return throws_at >= 0 ? throws_at : int(ops.size()); }
    int count(int what, int upto) const
    {
        int n = 0;
        for (int k = 0; k < upto; ++k) n += ops[k].what == what;
        return n;
    }
    int last(int what, int upto) const
    {
        for (int k = upto; k-- > 0;) if (ops[k].what == what) return k;
        return -1;
    }
};

struct World
{
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<Node *> roots, late;
    std::atomic<Node *> class_node[CLASSES] = {};
    std::string log;
    bool threads = false;
    std::atomic<long> looks{0}, waited{0}, boomed{0}, inside{0}, refused{0}, first{0};
} *w;
constexpr auto rel = std::memory_order_relaxed;
thread_local Rng *rng_;
thread_local std::vector<Node *> stack_;

std::string what_text(Node const *n) { return fmt("%s %s%s%s", n->cls >= 0 ? "class" : "namespace", n->name.c_str(), n->lazy ? "" : " (immediate)", n->throws_at >= 0 ? " (throwing)" : ""); }
bool ok(bool good, char const *key, Node const *n, std::string const &text)
{
    w->looks.fetch_add(1, rel);
    if (good) return true;
    return check(false, key, what_text(n) + ": " + text + "; " + w->log);
}
std::string item_name(int what, int n) { static char const *const p[] = {"m", "p", "e", "a", "b", "n", ""}; return p[what] + std::to_string(n); }
bool mine(Node const *n) { return std::find(stack_.begin(), stack_.end(), n) != stack_.end(); }

void pause_a_bit()
{
    if (!w->threads) return;
    switch (rng_->below(8))
    {
    case 0: case 1: std::this_thread::yield(); break;
    case 2: usleep(useconds_t(rng_->below(120))); break;
    default: break;
    }
}

void look(Node *n, int how);
template<typename T, typename D> void run_ops(Node *n, D &d, int to);
template<typename T> void body(Node *n, rtti::meta_define<T> d)
{
    if (n->ran.fetch_add(1, rel) != 0) check(false, "run-twice", what_text(n) + "; " + w->log);
    if (n->running.fetch_add(1, rel) != 0) check(false, "run-while-running", what_text(n) + "; " + w->log);
    stack_.push_back(n);
    struct Leave { Node *n; ~Leave() { n->running.fetch_sub(1, rel); stack_.pop_back(); } } leave{n};
    run_ops<T>(n, d, n->complete());
    if (n->throws_at >= 0) { w->boomed.fetch_add(1, rel); throw Boom{n->id}; }
}

template<int I, typename D> void with_class(D &d, Node *c)
{
    if constexpr (!std::is_same_v<D, rtti::meta_define<Cls<I>>>)    // a class is not nested in itself
    {
        if (c->cls != I) return;
        auto k = d.template _class<Cls<I>>(c->name);
        c->real.store(MetaClass::find(rtti::metaTypeId<Cls<I>>()), rel);
        w->class_node[I].store(c, rel);
        if (c->lazy) k._lazy([c](rtti::meta_define<Cls<I>> x) { body<Cls<I>>(c, x); });
        else { c->ran.store(1, rel); run_ops<Cls<I>>(c, k, c->complete()); }
        c->exists.store(1, rel);
        d = k._end();
    }
}
template<typename D, int ...I> void any_class(D &d, Node *c, std::integer_sequence<int, I...>) { (with_class<I>(d, c), ...); }

constexpr bool may_nest(int cls) { return cls >= 0 && cls % 3 == 0; }
template<int I> void open_child(rtti::meta_define<Cls<I>> &d, Node *c) { any_class(d, c, std::make_integer_sequence<int, CLASSES>{}); }
void open_child(rtti::meta_define<void> &d, Node *c)
{
    if (c->cls >= 0) return any_class(d, c, std::make_integer_sequence<int, CLASSES>{});
    auto *owner = c->parent ? c->parent->real.load(rel) : MetaNamespace::global();
    auto x = d._namespace(c->name);
    c->real.store(owner->getNamespace(c->name), rel);
    if (c->lazy) x._lazy([c](rtti::meta_define<void> y) { body<void>(c, y); });
    else { c->ran.store(1, rel); run_ops<void>(c, x, c->complete()); }
    c->exists.store(1, rel);
    d = x._end();
}

template<typename T, typename D> void run_ops(Node *n, D &d, int to)
{
    for (int k = 0; k < to; ++k)
    {
        auto op = n->ops[k];
        auto name = item_name(op.what, op.n);
        switch (op.what)
        {
        case METHOD: d._method(name, fns[op.n % 8]); break;
        case PROPERTY: d._property(name, &vars[op.n % 64]); break;
        case ENUM:
        {
            auto e = d;             // so that attributes after it are still the container's
            e.template _enum<En>(name);
            break;
        }
        case ATTRIBUTE: d._attribute(name, op.n); break;
        case BASE:
            if constexpr (index_of<T>::value > 0)
                if (w->class_node[base_of(index_of<T>::value)].load(rel))
                {
                    d.template _base<Cls<base_of(index_of<T>::value)>>();
                    n->based.store(1, rel);
                }
            break;
        case CHILD:
            if constexpr (std::is_same_v<D, rtti::meta_define<void>> || (may_nest(index_of<T>::value) && std::is_same_v<D, rtti::meta_define<T>>))
                open_child(d, n->children[op.n]);
            break;
        case PEEK:
        {
            auto *t = w->nodes[op.n].get();
            if (t->exists.load(rel)) look(t, int(rng_->below(11)));
            break;
        }
        default: break;
        }
        n->done.store(k + 1, rel);
        pause_a_bit();
    }
}

template<int ...I> MetaClass const *find_class(int k, std::integer_sequence<int, I...>)
{
    MetaClass const *r = nullptr;
    ((k == I ? void(r = MetaClass::find(rtti::metaTypeId<Cls<I>>())) : void()), ...);
    return r;
}
MetaClass const *find_class(int k) { return find_class(k, std::make_integer_sequence<int, CLASSES>{}); }

/// One way of looking at the contents, of which the first c operations must be visible
/// (and if `exact`, nothing else).
void observe(Node *n, int how, int c, bool exact)
{
    auto *r = n->real.load(rel);
    auto counts = [&](std::size_t got, int what) { return exact ? got == std::size_t(n->count(what, c)) : got >= std::size_t(n->count(what, c)); };
    auto children = [&](bool cls, int upto) {
        std::vector<Node *> v;
        for (int k = 0; k < upto; ++k)
            if (n->ops[k].what == CHILD && (n->children[n->ops[k].n]->cls >= 0) == cls) v.push_back(n->children[n->ops[k].n]);
        return v;
    };
    auto *k = static_cast<MetaClass const *>(n->cls >= 0 ? r : nullptr);
    switch (how)
    {
    case 0: ok(counts(r->methodCount(), METHOD), "methods-missing", n, "methodCount"); break;
    case 1:
    {
        int l = n->last(METHOD, c);
        if (l < 0) { ok(r->getMethod("nonesuch") == nullptr, "methods-missing", n, ""); break; }
        auto *m = r->getMethod(item_name(METHOD, n->ops[l].n));
        if (ok(m != nullptr, "methods-missing", n, "getMethod by name")) ok(m->invoke().to<int>() == n->ops[l].n % 8, "method-wrong", n, "");
        break;
    }
    case 2:
    {
        int cnt = n->count(METHOD, c);
        if (!cnt) { r->getMethod(std::size_t(0)); break; }
        ok(r->getMethod(std::size_t(cnt - 1)) != nullptr, "methods-missing", n, "getMethod by index");
        break;
    }
    case 3:
    {
        std::size_t seen = 0;
        r->for_each_method([&](auto) { ++seen; return true; });
        ok(counts(seen, METHOD), "methods-missing", n, "for_each_method");
        break;
    }
    case 4:
    {
        int l = n->last(PROPERTY, c);
        auto *p = l < 0 ? nullptr : r->getProperty(item_name(PROPERTY, n->ops[l].n));
        ok(l < 0 || p, "properties-missing", n, "getProperty by name");
        ok(counts(r->propertyCount(), PROPERTY), "properties-missing", n, "propertyCount");
        break;
    }
    case 5:
    {
        int l = n->last(ENUM, c);
        ok(l < 0 ? !r->getEnum("nonesuch") : r->getEnum(item_name(ENUM, n->ops[l].n)) != nullptr, "enums-missing", n, "getEnum by name");
        ok(counts(r->enumCount(), ENUM), "enums-missing", n, "enumCount");
        break;
    }
    case 6:
    {
        auto ns = children(false, c), cl = children(true, c);
        std::size_t seen = 0;
        if (rng_->chance(1, 2)) r->for_each_class([&](auto) { ++seen; return true; });
        else seen = r->classCount();
        ok(exact ? seen == cl.size() : seen >= cl.size(), "classes-missing", n, "classCount");
        auto got = r->namespaceCount();
        ok(exact ? got == ns.size() : got >= ns.size(), "namespaces-missing", n, "namespaceCount");
        break;
    }
    case 7:
    {
        int l = n->last(ATTRIBUTE, c);
        std::size_t seen = 0;
        switch (rng_->below(4))
        {
        case 0: seen = r->attributeCount(); break;
        case 1: r->for_each_attribute([&](auto, auto &) { ++seen; return true; }); break;
        case 2:
            ok(l < 0 || r->attribute(item_name(ATTRIBUTE, n->ops[l].n)).template is<int>(), "attributes-missing", n, "attribute by name");
            seen = r->attributeCount();
            break;
        default:
            ok(l < 0 || r->attributeName(std::size_t(n->count(ATTRIBUTE, c) - 1)) == item_name(ATTRIBUTE, n->ops[l].n), "attributes-missing", n, "attributeName");
            seen = r->attributeCount();
            break;
        }
        ok(counts(seen, ATTRIBUTE), "attributes-missing", n, "attributes");
        break;
    }
    case 8:
        if (!k) { ok(r->constructorCount() == 0, "constructor-of-namespace", n, ""); break; }
        {
            // whichever is asked first has to run it
            if (n->ran.load(rel) == 0)
                for (int i = n->cls + 1; i < CLASSES; ++i)
                    if (auto *x = w->class_node[i].load(rel); x && base_of(i) == n->cls && x->based.load(rel)) cov("pending bases of classes asked as such");
            auto got = std::size_t(CLASSES);
            switch (rng_->below(9))
            {
            case 0: case 1: got = k->baseClassCount(); break;
            case 2: got = std::size_t(k->baseClass(0) != nullptr); break;
            case 3: k->derivedClassCount(); break;
            case 4: k->derivedClass(0); break;
            case 5:
                if (auto *other = find_class(n->cls ? 0 : 1)) k->inheritedFrom(other);
                else got = k->baseClassCount();
                break;
            case 6: k->constructorCount(); break;
            case 7: k->defaultConstructor(); break;
            default: k->getConstructor(std::size_t(0)); break;
            }
            if (exact) ok(n->ran.load(rel) == 1, "not-run", n, "by the first question about the class");
            ok(got >= std::size_t(n->based.load(rel)), "bases-missing", n, "baseClass");
            if (n->based.load(rel)) ok(k->inheritedFrom(find_class(base_of(n->cls))), "bases-missing", n, "inheritedFrom");
            ok(k->constructorCount() == 3 && k->defaultConstructor() && k->copyConstructor(), "constructors-missing", n, "");
        }
        break;
    case 9:
        for (auto *x : children(false, c)) ok(r->getNamespace(x->name) == x->real.load(rel), "namespaces-missing", n, "getNamespace by name");
        for (auto *x : children(true, c)) ok(r->getClass(x->name) == x->real.load(rel), "classes-missing", n, "getClass by name");
        r->getNamespace("nonesuch");
        break;
    case 10: r->forceDeferredDefine(); break;
    case 11:
        // through a class derived from it
        if (k)
        {
            int l = n->last(METHOD, c);
            for (int i = n->cls + 1; i < CLASSES; ++i)
                if (auto *x = w->class_node[i].load(rel); x && base_of(i) == n->cls && x->based.load(rel) && !mine(x) && l >= 0)
                {
                    auto name = item_name(METHOD, n->ops[l].n);
                    ok(find_class(i)->getMethod(name) != nullptr, "methods-missing", n, "through a derived class");
                    return;
                }
        }
        ok(counts(r->methodCount(), METHOD), "methods-missing", n, "methodCount");
        break;
    case 13:
        // a single question of any kind
        switch (rng_->below(24))
        {
        case 0:
        {
            int cnt = n->count(ATTRIBUTE, c);
            ok(!cnt || r->attribute(std::size_t(cnt - 1)).template is<int>(), "attributes-missing", n, "attribute by index");
            if (!cnt) r->attribute(std::size_t(0));
            break;
        }
        case 1: r->attributeName(std::size_t(rng_->below(3))); break;
        case 2: r->attribute("nonesuch"); break;
        case 3: r->for_each_attribute([&](auto, auto &) { return false; }); break;
        case 4: r->getNamespace(std::size_t(0)); break;
        case 5: r->getNamespace("nonesuch"); break;
        case 6: r->namespaceCount(); break;
        case 7: n->cls < 0 ? r->copyConstructor() : r->moveConstructor(); break;
        case 8: r->getClass(std::size_t(0)); break;
        case 9: r->getClass("nonesuch"); break;
        case 10: r->classCount(); break;
        case 11: r->for_each_class([&](auto) { return false; }); break;
        case 12: r->getEnum(std::size_t(0)); break;
        case 13: r->getEnum("nonesuch"); break;
        case 14: r->enumCount(); break;
        case 15: r->defaultConstructor(); break;
        case 16: r->getProperty(std::size_t(0)); break;
        case 17: r->getProperty("nonesuch"); break;
        case 18: r->propertyCount(); break;
        case 19: r->for_each_method([&](auto) { return false; }); break;
        case 20: r->getMethod(std::size_t(0)); break;
        case 21: r->getMethod("nonesuch"); break;
        case 22: r->getConstructor("nonesuch"); break;
        default: r->getConstructor(std::size_t(0)); break;
        }
        break;
    default: r->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); break;
    }
}
void below(Node *n, std::set<Node *> &to)
{
    if (!n->exists.load(rel)) return;
    to.insert(n);
    for (auto *c : n->children) below(c, to);
}
// everything that looking at n may run
void closure(Node *n, std::set<Node *> &to)
{
    if (!to.insert(n).second) return;
    for (auto &op : n->ops)
    {
        if (op.what == PEEK) closure(w->nodes[op.n].get(), to);
        if (op.what == CHILD && !n->children[op.n]->lazy) closure(n->children[op.n], to);
    }
    if (n->cls > 0) if (auto *b = w->class_node[base_of(n->cls)].load(rel)) closure(b, to);
}

void look(Node *n, int how)
{
    bool inside = mine(n);
    if (n->cls >= 0 && !n->ran.load(rel) && rng_->chance(1, 3)) how = 8;
    // what another thread made reaches this one through the library only
    if (w->threads && n->cls < 0 && !n->parent && !ok(MetaNamespace::global()->getNamespace(n->name) == n->real.load(rel), "identity", n, "found in the global namespace")) return;
    if (w->threads && n->cls >= 0 && !ok(find_class(n->cls) == n->real.load(rel), "identity", n, "found by its type")) return;
    auto *r = n->real.load(rel);
    std::set<Node *> ran_before;
    bool precise = !w->threads && stack_.empty();
    if (precise) for (auto &x : w->nodes) if (x->ran) ran_before.insert(x.get());
    // what is not part of the contents
    int before = n->ran.load(rel);
    ok(r->name() == n->name && r->owner() == (n->parent ? n->parent->real.load(rel) : MetaNamespace::global()), "identity", n, "");
    ok(r->qualifiedName().size() > n->name.size() && r->category() == (n->cls >= 0 ? rtti::mcatClass : rtti::mcatNamespace), "identity", n, "");
    if (!w->threads) ok(n->ran == before, "run-too-early", n, "by looking at its name");
    if (n->lazy && before == 0) w->first.fetch_add(1, rel);
    if (n->running.load(rel) && !inside) w->waited.fetch_add(1, rel);
    if (inside)
    {
        w->inside.fetch_add(1, rel);
        if (how == 12) how = 10;
        observe(n, how, n->done.load(rel), false);
        return;
    }
    int boom = -1;
    // every definition throws once: one that was needed too may do so when n is looked at again
    for (int now = how; ;)
    {
        try { observe(n, now, n->complete(), true); break; }
        catch (Boom const &b)
        {
            boom = b.id;
            auto *x = w->nodes[b.id].get();
            if (!ok(x->throws_at >= 0 && x->thrown.fetch_add(1, rel) == 0, "exception-passed-twice", x, fmt("looking at %s (%d)", n->name.c_str(), now))) return;
            if (boom != n->id && now == how) break;
            if (now == 12) now = 10;
        }
    }
    if (how != 11) ok(n->ran.load(rel) == 1, "not-run", n, fmt("after looking at it (%d)", how));
    if (how != 11) ok(n->running.load(rel) == 0, "seen-while-running", n, fmt("after looking at it (%d)", how));
    if (how == 12 && boom < 0 && !w->threads && stack_.empty())
    {
        std::set<Node *> all;
        below(n, all);
        for (auto *x : all) ok(x->ran == 1, "not-forced", x, "below " + what_text(n));
    }
    if (precise)
    {
        std::set<Node *> allowed;
        closure(n, allowed);
        if (how == 11) for (auto &x : w->nodes) if (x->cls > 0 && base_of(x->cls) == n->cls) closure(x.get(), allowed);
        if (how == 12)
        {
            std::set<Node *> all;
            below(n, all);
            for (auto *x : all) closure(x, allowed);
        }
        for (auto &x : w->nodes)
            ok(!x->ran || !x->lazy || ran_before.count(x.get()) || allowed.count(x.get()), "run-without-need", x.get(), fmt("by looking at %s (%d)", what_text(n).c_str(), how));
    }
    if (n->thrown.load(rel) == 0 && n->throws_at >= 0 && n->lazy && !w->threads && (how != 11 || n->ran.load(rel))) ok(false, "exception-lost", n, fmt("looked at (%d)", how));
}

// another deferred definition for the same container
void second(Node *n)
{
    if (n->parent || n->cls >= 0 || n->late || !n->lazy) return;
    bool pending = n->ran.load(rel) == 0 || mine(n);
    bool refused = false;
    int was = n->ran.load(rel);
    try
    {
        auto g = rtti::global_define();
        auto d = g._namespace(n->name);
        d._lazy([n](rtti::meta_define<void>) { n->again.fetch_add(1, rel); });
    }
    catch (rtti::definition_error const &) { refused = true; }
    w->refused.fetch_add(refused, rel);
    // once it has run, with or without an exception, there may be another
    if (refused && !w->threads) ok(pending, "later-definition-refused", n, n->throws_at >= 0 ? "after an exception" : "");
    if (refused) return;
    if (!w->threads) ok(!pending, "second-definition-accepted", n, mine(n) ? "while running" : "while pending");
    else ok(n->ran.load(rel) == 1 && (n->running.load(rel) == 0), "second-definition-accepted", n, "while running or pending");
    if (!w->threads && was == 1)
    {
        int before = n->again;
        ok(n->ran == 1, "run-twice", n, "");
        n->real.load(rel)->methodCount();
        ok(n->again == before + 1, "later-definition-not-run", n, "");
    }
}

// everything, from the top
void force_all()
{
    for (bool again = true; again;)
    {
        again = false;
        try { MetaNamespace::global()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); }
        catch (Boom const &b)
        {
            auto *x = w->nodes[b.id].get();
            again = ok(x->throws_at >= 0 && x->thrown.fetch_add(1, rel) == 0, "exception-passed-twice", x, "forcing everything");
        }
    }
    for (auto &n : w->nodes)
        if (n->exists.load(rel))
        {
            ok(n->ran.load(rel) == 1, "not-forced", n.get(), "below the global namespace");
            ok(n->running.load(rel) == 0, "seen-while-running", n.get(), "after forcing everything");
        }
    cov("everything forced");
}

void populate(Rng &rng, Node *n, int &cls, int depth)
{
    int k = rng.range(0, 12), counters[WHATS] = {};
    for (int i = 0; i < k; ++i)
    {
        int what = int(rng.below(WHATS));
        if (n->cls > 0 && rng.chance(1, 5)) what = BASE;
        if (what == BASE && n->cls < 0) what = METHOD;
        if (what == PEEK && rng.chance(1, 2)) what = METHOD;
        if (what == CHILD && (!n->lazy || depth >= 3 || n->late)) what = ATTRIBUTE;
        if (what == CHILD && n->cls >= 0 && (!may_nest(n->cls) || cls >= CLASSES)) what = METHOD;
        int num = counters[what]++;
        if (what == CHILD)
        {
            auto c = std::make_unique<Node>();
            c->id = int(w->nodes.size());
            c->parent = n;
            c->lazy = rng.chance(4, 5);
            if (cls < CLASSES && (n->cls >= 0 || rng.chance(1, 2))) c->cls = cls++;
            c->name = c->cls >= 0 ? fmt("k%d", c->cls) : fmt("n%d", num);
            num = int(n->children.size());
            n->children.push_back(c.get());
            auto *p = c.get();
            w->nodes.push_back(std::move(c));
            populate(rng, p, cls, depth + 1);
        }
        if (what == PEEK) num = -1;
        n->ops.push_back({what, num});
    }
    if (n->lazy && rng.chance(1, 10)) n->throws_at = int(rng.below(n->ops.size() + 1));
}

void one(long i, Rng &rng)
{
    World world;
    w = &world;
    rng_ = &rng;
    int threads = std::stoi(opt("--threads", "0"));
    std::uint64_t schedule = 0;
    w->threads = threads > 0;
    int cls = 0, roots = rng.range(1, 5), late = threads ? rng.range(0, 6) : 0;
    for (int k = 0; k < roots + late; ++k)
    {
        auto n = std::make_unique<Node>();
        n->id = int(w->nodes.size());
        n->name = fmt("%s%d", k < roots ? "root" : "late", k);
        n->late = k >= roots;
        (n->late ? w->late : w->roots).push_back(n.get());
        auto *p = n.get();
        w->nodes.push_back(std::move(n));
        populate(rng, p, cls, 0);
    }
    // classes can only refer to classes that are there: numbers are given in order of creation
    for (auto &n : w->nodes)
    {
        for (auto &op : n->ops) if (op.what == PEEK) { op.n = int(rng.below(w->nodes.size())); }
        w->log += what_text(n.get()) + (n->parent ? " in " + n->parent->name : "") + " {";
        for (auto &op : n->ops) w->log += item_name(op.what, 0).substr(0, 1) + (op.what == PEEK ? "->" + w->nodes[op.n]->name : "") + " ";
        w->log += "} ";
    }
    if (w->log.size() > 1200) w->log.resize(1200);
    begin_case(i, "deferred", w->log);
    for (auto *n : w->roots)
    {
        auto g = rtti::global_define();
        rtti::meta_define<void> d = g;
        try { open_child(d, n); }
        catch (Boom const &b) { w->nodes[b.id]->thrown.fetch_add(1); }
        if (n->lazy) ok(n->ran == 0, "run-too-early", n, "by defining it");
    }
    if (!threads)
    {
        int steps = rng.range(5, 60);
        for (int k = 0; k < steps; ++k)
        {
            auto *n = rng.pick(w->nodes).get();
            if (!n->exists) continue;
            if (rng.chance(1, 60)) force_all();
            else if (rng.chance(1, 8)) second(n);
            else look(n, int(rng.below(14)));
        }
    }
    else
    {
        std::atomic<int> ready{0};
        std::vector<std::thread> ts;
        int looks = rng.range(5, 40);
        static unsigned const strengths[] = {0, 2, 8, 24};
        sched::begin(strengths[rng.below(4)]);
        for (int t = 0; t < threads; ++t)
        {
            auto seed = rng.next();
            ts.emplace_back([&, t, seed] {
                Rng mine_(seed);
                rng_ = &mine_;
                sched::enter(t, mine_.next());
                ready.fetch_add(1, rel);
                while (ready.load(rel) < threads) std::this_thread::yield();
                for (int k = 0; k < looks; ++k)
                {
                    auto &r = *rng_;
                    // late ones are defined here
                    if (!w->late.empty() && r.chance(1, 6))
                    {
                        auto *n = w->late[r.below(w->late.size())];
                        if (n->id % threads == t && !n->exists.load(rel))
                        {
                            auto g = rtti::global_define();
                            rtti::meta_define<void> d = g;
                            open_child(d, n);
                            continue;
                        }
                        if (n->exists.load(rel)) { look(n, int(r.below(14))); continue; }
                    }
                    auto *n = w->roots[r.below(w->roots.size())];
                    if (r.chance(1, 12)) { second(n); continue; }
                    // down the tree
                    while (!n->children.empty() && r.chance(2, 3))
                    {
                        auto *c = n->children[r.below(n->children.size())];
                        bool there = false;
                        for (int q = 0; q < n->complete(); ++q) there = there || (n->ops[q].what == CHILD && n->children[n->ops[q].n] == c);
                        if (!there) break;
                        look(n, 9);
                        n = c;
                    }
                    look(n, int(r.below(14)));
                }
            });
        }
        for (auto &t : ts) t.join();
        rng_ = &rng;
        schedule = sched::end();
        // and everything once more, alone
        for (auto &n : w->nodes) if (n->exists) for (int how = 0; how < 10; ++how) look(n.get(), how);
    }
    long boomed = 0;
    for (auto &n : w->nodes)
    {
        boomed += n->thrown;
        if (n->lazy) { check(n->ran <= 1, "run-twice", what_text(n.get()) + w->log); if (n->ran && n->exists) cov("deferred definitions run"); }
    }
    check(boomed == w->boomed, "exception-lost", fmt("%ld of %ld exceptions arrived; ", boomed, w->boomed.load()) + w->log);
    cov("first looks", w->first);
    cov("looks from within", w->inside);
    cov("looks while another thread ran the definition", w->waited);
    cov("definitions that threw", boomed);
    cov("second definitions refused", w->refused);
    eval(comb(hash_str(w->log, std::uint64_t(i)), schedule), true, w->looks);
    sample(w->log);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    forked_cases(std::stol(opt("--n", "1000")), one);
    return finish();
}
