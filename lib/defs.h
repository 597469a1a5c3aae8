// Random definitions, made through every nesting of the fluent interface, with a model that
// is updated after each step.
#pragma once
#include "rv.h"
#include <rtti/metadefine.h>
#include <functional>
#include <memory>

namespace defs {
using rv::Rng;
using rtti::variant;

constexpr int N = 16;          // classes defined in namespaces
constexpr int INNER = 3;       // classes defined in classes
constexpr int NESTING = 4;     // K<0>.. have classes in them
constexpr int GROUPS = 8;
constexpr int MAX_DEPTH = 3;   // of namespaces, below the global one

template<int I, typename Seq = std::make_integer_sequence<int, I>> struct K;
template<int I, int ...J> struct K<I, std::integer_sequence<int, J...>>: virtual K<J>...
{
    K() {}
    K(int) : K<J>(0)... {}
    K(int, char) {}
    K(double, double) {}
    K(K const &) {}
    virtual ~K() {}
    DECLARE_CLASSINFO
};
template<int I> struct Inner { Inner() {} explicit Inner(int) {} Inner(Inner &&) {} };
template<> struct Inner<1> { explicit Inner(int) {} };
template<> struct Inner<2> { Inner(Inner const &) {} explicit Inner(int) {} };

enum Cat { NS, CLASS, PROP, METHOD, ENUM, CTOR, CATS };
inline char const *const cat_names[] = {"namespace", "class", "property", "method", "enum", "constructor"};

// what is behind methods and properties
constexpr int TAGS = 4, SIGS = 9;
template<int Tag, typename ...A> int fn(A...) { return Tag; }
inline char const *const sig_names[SIGS] = {"()", "(int)", "(double)", "(int, double)", "(int, int)", "(char)", "(int (*)(int))", "(int (**)(int))", "(int (*)(int), int (*)())"};
inline int callback(int x) { return x; }
inline int callback0() { return 0; }
inline int vars[TAGS];
inline char const cvars[TAGS] = {};
template<int T> int getter() { return 100 + T; }
inline void setter(int) {}

struct Entry { std::string name; int value; };
struct Node
{
    Cat cat;
    std::string name, qualified;
    Node *owner;
    rtti::MetaItem const *real = nullptr;
    int tag = -1;                     // method, property: what is behind it; class: its type
    std::string plain;                // methods and constructors: name without parameters
    bool full = true;                 // whether it can be found by its plain name
    std::vector<std::unique_ptr<Node>> lists[CATS];
    std::vector<Entry> attributes, elements;
    std::vector<int> bases;
    bool lazy = false;                // a deferred definition waits or runs
    Node *own(Cat c, std::string const &n) const
    {
        for (auto &x : lists[c]) if (x->name == n) return x.get();
        return nullptr;
    }
    Node *add(Cat c, std::string const &n)
    {
        auto x = std::make_unique<Node>();
        x->cat = c; x->name = n; x->owner = this; x->qualified = qualified + "::" + n; x->plain = n;
        lists[c].push_back(std::move(x));
        return lists[c].back().get();
    }
    static void assign(std::vector<Entry> &to, std::string const &n, int v)
    {
        if (n.empty()) return;
        for (auto &e : to) if (e.name == n) { e.value = v; return; }
        to.push_back({n, v});
    }
    Node *call(Cat c, std::string const &n) const
    {
        for (auto &x : lists[c]) if (x->name == n || (x->plain == n && x->plain != x->name)) return x.get();
        return nullptr;
    }
};

struct Env
{
    Rng &rng;
    int budget;
    Node root{NS, "", "", nullptr};
    Node *classes[N + INNER] = {};
    rtti::MetaType_ID (*class_id[N + INNER])() = {};
    std::string log;
    std::vector<std::string> names;
    int steps = 0, refused = 0, chatty = 6;
    bool failing = false;
    int failed = 0;
    Env(Rng &r, int b) : rng(r), budget(b) {}
    std::string const &name() { return names[rng.below(names.size())]; }
    void note(std::string t)
    {
        for (auto &c : t) if (!c) c = '0';
        log += t + "; ";
        if (log.size() > 1800) log.erase(0, log.size() - 1500);
    }

    // a class at the end of some bases
    Node *ancestor(Node *n)
    {
        while (n->cat == CLASS && !n->bases.empty() && rng.chance(4, 5)) n = classes[n->bases[rng.below(n->bases.size())]];
        return n;
    }
    Node *method(Node *n, Cat c, std::string const &name) const
    {
        if (auto r = n->call(c, name)) return r;
        if (c == METHOD && n->cat == CLASS)
            for (int b : n->bases) if (auto r = method(classes[b], c, name)) return r;
        return nullptr;
    }
    Node *property(Node *n, std::string const &name) const
    {
        if (auto r = n->own(PROP, name)) return r;
        if (n->cat == CLASS)
            for (int b : n->bases) if (auto r = property(classes[b], name)) return r;
        return nullptr;
    }
};

/// Calls f; sometimes lets allocations fail in it first, which must leave everything consistent.
void attempt_failing(Env &e, Node *in, Cat c, std::function<void()> const &f);
template<typename F> void attempt(Env &e, Node *in, Cat c, F f)
{
    if (e.failing && !in->lazy && e.rng.chance(1, 4)) attempt_failing(e, in, c, f);
    f();
}

/// A name whose storage is gone right after the call.
struct Loan
{
    std::string buf;
    std::string_view view;
    explicit Loan(std::string const &n) : buf("\x7f" + n + "tail"), view(std::string_view(buf).substr(1, n.size())) {}
    ~Loan() { std::memset(&buf[0], '#', buf.size()); }
    operator std::string_view() const { return view; }
};

template<typename T> struct type_index { static constexpr int value = -1; };
template<int I, typename S> struct type_index<K<I, S>> { static constexpr int value = I; };
template<int I> struct type_index<Inner<I>> { static constexpr int value = N + I; };

template<typename D> struct depth_of;
template<> struct depth_of<rtti::meta_define<void>> { static constexpr int value = 0; };
template<typename MB> struct depth_of<rtti::meta_define<void, MB>> { static constexpr int value = 1 + depth_of<MB>::value; };

// where the definition stands
struct Cursor { Node *container, *item; };

template<typename D, int ...J> void base_any(D &d, int j, std::integer_sequence<int, J...>)
{ (void)((j == J && (d.template _base<K<J>>(), true)) || ...); }

template<typename T, typename MB> void body(Env &e, rtti::meta_define<T, MB> &d, Cursor &c, int steps);
template<int G, typename D> bool define_class(Env &e, D &d, Cursor &c, int i, std::string const &name);

/// The model of registering type i under a name: null if that is refused.
inline Node *model_class(Env &e, Node *in, int i, std::string const &name)
{
    auto *had = in->own(CLASS, name);
    if (had && had->tag != i) return nullptr;
    if (!had && e.classes[i]) return nullptr;
    if (had) return had;
    auto *n = in->add(CLASS, name);
    n->tag = i;
    e.classes[i] = n;
    auto ctor = [n](char const *s) { n->add(CTOR, s)->tag = -2; };
    if (i != N + 1) { if (i != N + 2) ctor(rtti::DEFAULT_CONSTRUCTOR_SIG); if (i != N) ctor(rtti::COPY_CONSTRUCTOR_SIG); ctor(rtti::MOVE_CONSTRUCTOR_SIG); }
    else { ctor(rtti::COPY_CONSTRUCTOR_SIG); ctor(rtti::MOVE_CONSTRUCTOR_SIG); }
    return n;
}

/// Whether type i may be registered under the name now.
inline bool model_has(Env &e, Node *in, int i, std::string const &name)
{
    auto *had = in->own(CLASS, name);
    return had ? had->tag == i : !e.classes[i];
}
template<typename T, typename D> void into_class(Env &e, D &d, Cursor &c, std::string const &name)
{
    constexpr int i = type_index<T>::value;
    e.note("class " + name + "=" + std::to_string(i));
    bool refused = false;
    Cursor in{};
    try
    {
        if (e.failing && !c.container->lazy && !(e.classes[i] && e.classes[i]->lazy) && model_has(e, c.container, i, name) && e.rng.chance(1, 2))
            attempt_failing(e, c.container, CLASS, [&] { Loan l(name); d = d.template _class<T>(l)._end(); });
        auto k = [&] { Loan l(name); return d.template _class<T>(l); }();
        in.container = in.item = model_class(e, c.container, i, name);
        if (!in.item) { rv::viol("class-not-refused", e.log); return; }
        body(e, k, in, e.rng.range(0, e.chatty));
        d = k._end();
        c.item = c.container;
        e.note("end");
    }
    catch (rtti::duplicate_metaclass const &) { refused = true; }
    if (refused)
    {
        if (in.item) rv::viol("refused-inside", e.log);
        else if (auto *had = c.container->own(CLASS, name); (had && had->tag == i) || (!had && !e.classes[i]))
            rv::viol("class-refused", e.log);
        ++e.refused;
        e.note("refused");
    }
}

template<typename T, typename MB> void class_in_class(Env &e, rtti::meta_define<T, MB> &d, Cursor &c, std::string const &name)
{
    switch (e.rng.below(3))
    {
    case 0: into_class<Inner<0>>(e, d, c, name); break;
    case 1: into_class<Inner<1>>(e, d, c, name); break;
    default: into_class<Inner<2>>(e, d, c, name); break;
    }
}

template<typename D> void call_method(D &d, std::string const &name, int sig, int tag)
{
    Loan l(name);
    static int (*const f0[])() = {fn<0>, fn<1>, fn<2>, fn<3>};
    static int (*const f1[])(int) = {fn<0, int>, fn<1, int>, fn<2, int>, fn<3, int>};
    static int (*const f2[])(double) = {fn<0, double>, fn<1, double>, fn<2, double>, fn<3, double>};
    static int (*const f3[])(int, double) = {fn<0, int, double>, fn<1, int, double>, fn<2, int, double>, fn<3, int, double>};
    static int (*const f4[])(int, int) = {fn<0, int, int>, fn<1, int, int>, fn<2, int, int>, fn<3, int, int>};
    static int (*const f5[])(char) = {fn<0, char>, fn<1, char>, fn<2, char>, fn<3, char>};
    using P = int (*)(int);
    using A = int (**)(int);
    using Q = int (*)();
    static int (*const f6[])(P) = {fn<0, P>, fn<1, P>, fn<2, P>, fn<3, P>};
    static int (*const f7[])(A) = {fn<0, A>, fn<1, A>, fn<2, A>, fn<3, A>};
    static int (*const f8[])(P, Q) = {fn<0, P, Q>, fn<1, P, Q>, fn<2, P, Q>, fn<3, P, Q>};
    switch (sig)
    {
    case 0: d._method(l, f0[tag]); break;
    case 1: d._method(l, f1[tag]); break;
    case 2: d._method(l, f2[tag]); break;
    case 3: d._method(l, f3[tag]); break;
    case 4: d._method(l, f4[tag]); break;
    case 5: d._method(l, f5[tag]); break;
    case 6: d._method(l, f6[tag]); break;
    case 7: d._method(l, f7[tag]); break;
    default: d._method(l, f8[tag]); break;
    }
}
template<typename D> void call_property(D &d, std::string const &name, int tag)
{
    Loan l(name);
    static int (*const g[])() = {getter<0>, getter<1>, getter<2>, getter<3>};
    if (tag < TAGS) d._property(l, &vars[tag]);
    else if (tag < 2 * TAGS) d._property(l, &cvars[tag - TAGS]);
    else d._property(l, g[tag - 2 * TAGS], &setter);
}
enum class E0 { A }; enum E1 { B }; enum class E2 : char { C };
template<typename D> void call_enum(D &d, std::string const &name, int k)
{
    Loan l(name);
    if (k == 0) d.template _enum<E0>(l);
    else if (k == 1) d.template _enum<E1>(l);
    else d.template _enum<E2>(l);
}

template<typename T, typename MB> void step(Env &e, rtti::meta_define<T, MB> &d, Cursor &c)
{
    constexpr bool in_class = std::is_class_v<T>;
    constexpr int type = type_index<T>::value;
    auto &rng = e.rng;
    auto name = e.name();
    ++e.steps;
    int op = int(rng.below(100));
    if (op < 25)
    {
        int sig = int(rng.below(SIGS)), tag = int(rng.below(TAGS));
        e.note("method " + name + sig_names[sig]);
        attempt(e, c.container, METHOD, [&] { call_method(d, name, sig, tag); });
        auto full = name + sig_names[sig];
        if (!c.container->own(METHOD, full))
        {
            auto *m = c.container->add(METHOD, full);
            m->plain = name;
            m->tag = tag;
        }
    }
    else if (op < 35)
    {
        int tag = int(rng.below(3 * TAGS));
        e.note("property " + name);
        attempt(e, c.container, PROP, [&] { call_property(d, name, tag); });
        if (!c.container->own(PROP, name)) c.container->add(PROP, name)->tag = tag;
    }
    else if (op < 43)
    {
        e.note("enum " + name);
        int k = int(rng.below(3));
        attempt(e, c.container, ENUM, [&] { call_enum(d, name, k); });
        c.item = c.container->own(ENUM, name);
        if (!c.item) c.item = c.container->add(ENUM, name);
    }
    else if (op < 53)
    {
        int v = int(rng.below(1000));
        e.note("attribute " + name);
        attempt(e, c.container, CATS, [&] { Loan l(name); d._attribute(l, v); });
        Node::assign(c.item->attributes, name, v);
    }
    else if (op < 58)
    {
        if (c.item->cat != ENUM) return;
        int v = int(rng.below(1000));
        e.note("element " + name);
        attempt(e, c.container, CATS, [&] { Loan l(name); d._element(l, v); });
        Node::assign(c.item->elements, name, v);
    }
    else if (op < 70)
    {
        if constexpr (in_class)
        {
            int k = int(rng.below(4));
            std::string used = k && rng.chance(1, 2) ? name : "";
            auto plain = used.empty() ? std::string(rtti::CONSTRUCTOR_SIG) : used;
            std::string full = rtti::DEFAULT_CONSTRUCTOR_SIG;
            e.note("constructor " + std::to_string(k) + " " + used);
            if (k == 1 || type >= N)
            {
                attempt(e, c.container, CTOR, [&] { Loan l(used); d.template _constructor<int>(l); });
                full = plain + "(int)";
            }
            else if (k == 2) { Loan l(used); if constexpr (type < N) d.template _constructor<int, char>(l); full = plain + "(int, char)"; }
            else if (k == 3) { Loan l(used); if constexpr (type < N) d.template _constructor<double, double>(l); full = plain + "(double, double)"; }
            else { if constexpr (type < N) d.template _constructor<>(); plain = full; }
            if (!c.container->own(CTOR, full)) { auto *n = c.container->add(CTOR, full); n->plain = plain; n->tag = -2; }
        }
        else if constexpr (depth_of<rtti::meta_define<T, MB>>::value < MAX_DEPTH)
        {
            e.note("namespace " + name);
            if (e.failing && !c.container->lazy && rng.chance(1, 4))
                attempt_failing(e, c.container, NS, [&] { Loan l(name); d = d._namespace(l)._end(); });
            auto in = [&] { Loan l(name); return d._namespace(l); }();
            auto *n = c.container->own(NS, name);
            if (!n) n = c.container->add(NS, name);
            Cursor ci{n, n};
            body(e, in, ci, rng.range(0, 8));
            d = in._end();
            c.item = c.container;
            e.note("end");
        }
    }
    else if (op < 85)
    {
        if constexpr (in_class)
        {
            if constexpr (type > 0 && type < N)
            {
                int j = int(rng.below(type));
                for (int tries = 0; tries < 6 && !e.classes[j] && rng.chance(9, 10); ++tries) j = int(rng.below(type));
                e.note("base " + std::to_string(j));
                auto known = [&](int b) { return e.classes[b] != nullptr; };
                bool ok = true;
                try { base_any(d, j, std::make_integer_sequence<int, type>{}); }
                catch (rtti::unregistered_metaclass const &) { ok = false; ++e.refused; e.note("refused"); }
                auto &bases = c.container->bases;
                if (ok && known(j) && std::find(bases.begin(), bases.end(), j) == bases.end()) bases.push_back(j);
                if (ok && !known(j)) rv::viol("base-not-refused", e.log);
                if (!ok && known(j)) rv::viol("base-refused", e.log);
            }
        }
        else
        {
            int i = int(rng.below(N));
            switch (i % GROUPS)
            {
            case 0: define_class<0>(e, d, c, i, name); break;
            case 1: define_class<1>(e, d, c, i, name); break;
            case 2: define_class<2>(e, d, c, i, name); break;
            case 3: define_class<3>(e, d, c, i, name); break;
            case 4: define_class<4>(e, d, c, i, name); break;
            case 5: define_class<5>(e, d, c, i, name); break;
            case 6: define_class<6>(e, d, c, i, name); break;
            default: define_class<7>(e, d, c, i, name); break;
            }
        }
    }
    else if (op < 90)
    {
        if constexpr (in_class && type < NESTING && type >= 0) class_in_class(e, d, c, name);
    }
    else if (op < 95)
    {
        auto *n = c.container;
        bool had = n->lazy, refused = false;
        e.note("lazy in " + n->qualified);
        try
        {
            d._lazy([&e, n](rtti::meta_define<T> x) {
                e.note("lazy " + n->qualified + " {");
                Cursor ci{n, n};
                body(e, x, ci, e.rng.range(1, 6));
                n->lazy = false;
                e.note("}");
            });
        }
        catch (rtti::definition_error const &) { refused = true; ++e.refused; e.note("refused"); }
        if (refused != had) rv::viol(had ? "second-lazy-not-refused" : "lazy-refused", "in " + n->qualified + " after " + e.log);
        if (!refused) n->lazy = true;
    }
    else
    {
        // start again from the top, in the middle of another definition
        auto g = rtti::global_define();
        rtti::meta_define<void> top = g;
        Cursor ci{&e.root, &e.root};
        e.note("from the top {");
        if constexpr (!in_class && std::is_void_v<MB>) body(e, top, ci, rng.range(0, 3));
        e.note("}");
    }
}

template<typename T, typename MB> void body(Env &e, rtti::meta_define<T, MB> &d, Cursor &c, int steps)
{
    while (steps-- > 0 && e.budget-- > 0) step(e, d, c);
}
using D0 = rtti::meta_define<void>;
using D1 = rtti::meta_define<void, D0>;
using D2 = rtti::meta_define<void, D1>;
using D3 = rtti::meta_define<void, D2>;
#define DEFS_EXTERN(G) \
    extern template bool define_class<G, D0>(Env &, D0 &, Cursor &, int, std::string const &); \
    extern template bool define_class<G, D1>(Env &, D1 &, Cursor &, int, std::string const &); \
    extern template bool define_class<G, D2>(Env &, D2 &, Cursor &, int, std::string const &); \
    extern template bool define_class<G, D3>(Env &, D3 &, Cursor &, int, std::string const &);
#ifndef DEFS_GROUP
DEFS_EXTERN(0) DEFS_EXTERN(1) DEFS_EXTERN(2) DEFS_EXTERN(3) DEFS_EXTERN(4) DEFS_EXTERN(5) DEFS_EXTERN(6) DEFS_EXTERN(7)
#endif
void register_ids(Env &e);
} // namespace defs
