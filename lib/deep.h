// what deep.cpp shares with the files that define its hierarchies
#ifndef DEEP_H
#define DEEP_H
#include "rv.h"
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <functional>
#include <set>
#include <tuple>
using namespace rv;
using namespace rtti;

template<int N> struct Pad { virtual ~Pad() {} char pad[8 * (N % 5) + 1] = {}; };

// the chain: class N inherits N - 1, every seventh time virtually, every third time behind a pad
template<int N, int How = (N == 0 ? 0 : N % 7 == 3 ? 1 : N % 3 == 0 ? 2 : 3)> struct Ch;
#define BODY(N) \
    DECLARE_CLASSINFO \
public: \
    virtual ~Ch() {} \
    int own() const { return 1000 + N; } \
    int shared() const { return 5000 + N; } \
    int prop = 2000 + N; \
    int same = 3000 + N;
template<int N> struct Ch<N, 0> { BODY(N) };
template<int N> struct Ch<N, 1>: virtual Ch<N - 1> { BODY(N) };
template<int N> struct Ch<N, 2>: Pad<N>, Ch<N - 1> { BODY(N) };
template<int N> struct Ch<N, 3>: Ch<N - 1> { BODY(N) };
#undef BODY

// the fan: one class with many bases, and a root of many
template<int N> struct Leg
{
    DECLARE_CLASSINFO
public:
    virtual ~Leg() {}
    int own() const { return 1000 + N; }
    int shared() const { return 5000 + N; }
    int prop = 2000 + N, same = 3000 + N;
    char pad[4 * (N % 4) + 1] = {};
};
struct Root
{
    DECLARE_CLASSINFO
public:
    virtual ~Root() {}
    int own() const { return 1000; }
    int shared() const { return 5000; }
    int prop = 2000, same = 3000;
};
template<int N> struct Leaf: Pad<N>, Root
{
    DECLARE_CLASSINFO
public:
    int own() const { return 1000 + N; }
    int shared() const { return 5000 + N; }
    int prop = 2000 + N, same = 3000 + N;
};
template<typename> struct Fan;
template<int ...N> struct Fan<std::integer_sequence<int, N...>>: Leg<N>...
{
    DECLARE_CLASSINFO
public:
    int own() const { return 1000; }
    int shared() const { return 5000; }
    int prop = 2000, same = 3000;
};

// the lattice: level N joins two classes that both inherit level N - 1 virtually
template<int N> struct Join;
template<int N, int Side> struct Half: virtual Join<N - 1>
{
    DECLARE_CLASSINFO
public:
    int own() const { return 1000 + 3 * N + Side; }
    int shared() const { return 5000 + 3 * N + Side; }
    int prop = 2000 + 3 * N + Side, same = 3000 + 3 * N + Side;
};
template<int N> struct Join: Half<N, 1>, Half<N, 2>
{
    DECLARE_CLASSINFO
public:
    int own() const { return 1000 + 3 * N; }
    int shared() const { return 5000 + 3 * N; }
    int prop = 2000 + 3 * N, same = 3000 + 3 * N;
};
template<> struct Join<0>
{
    DECLARE_CLASSINFO
public:
    virtual ~Join() {}
    int own() const { return 1000; }
    int shared() const { return 5000; }
    int prop = 2000, same = 3000;
};

constexpr int CHAIN = 40, LEGS = 24, LEAVES = 32, LEVELS = 6;
using TheFan = Fan<std::make_integer_sequence<int, LEGS>>;

struct Node
{
    std::string name;
    std::vector<int> bases;                          // as C++ has them
    std::function<void()> define;
    std::vector<std::function<void()>> link;         // one per base
    std::function<void(std::vector<int>)> link_lazily;
    std::function<void()> contents;
    MetaType_ID id;
    int own, shared, prop, same;
    // casts, valid for every node that inherits
    std::function<void *()> make;                    // a complete object
    std::function<void const *(void *obj, int to)> up;   // what the compiler makes of it
    std::function<void *(void *obj, int to)> down_up;    // meta_cast to `to`
    MetaClass const *cls = nullptr;
    bool own_first = false;                          // has a method called shared
};
extern std::vector<Node> nodes;

template<typename T> struct tag { using type = T; };
template<typename ...T> struct types {};

template<typename T, typename B> void add_base(Node &n, std::string const &ns, int b)
{
    n.bases.push_back(b);
    n.link.push_back([ns, name = n.name] { auto g = global_define(); auto c = g._namespace(ns)._class<T>(name); c.template _base<B>(); });
}
template<typename T, typename ...B> void lazily(Node &n, std::string const &ns)
{
    n.link_lazily = [ns, name = n.name](std::vector<int> order) {
        auto g = global_define();
        auto c = g._namespace(ns)._class<T>(name);
        c._lazy([order](meta_define<T> d) {
            for (int k : order)
            {
                int i = 0;
                (void)((i++ == k ? (d.template _base<B>(), true) : false) || ...);
            }
        });
    };
}
template<typename T, typename ...B> int add(std::string const &ns, std::string const &name, int value, bool shared_too, std::vector<int> bases)
{
    Node n;
    n.name = name;
    n.id = metaTypeId<T>();
    n.own = 1000 + value, n.shared = 5000 + value, n.prop = 2000 + value, n.same = 3000 + value;
    n.own_first = shared_too;
    n.define = [ns, name] { auto g = global_define(); g._namespace(ns)._class<T>(name); };
    n.contents = [] {};
#ifdef DEEP_LOOKUP
    n.contents = [ns, name, shared_too] {
        auto g = global_define();
        auto c = g._namespace(ns)._class<T>(name);
        c._method("own " + name, &T::own);
        c._property("prop " + name, &T::prop);
        if (shared_too) { c._method("shared", &T::shared); c._property("same", &T::same); }
    };
#endif
    std::size_t k = 0;
    (add_base<T, B>(n, ns, bases[k++]), ...);
    lazily<T, B...>(n, ns);
    if constexpr(std::is_default_constructible_v<T>)
        n.make = []() -> void * { static T *p = new T; return p; };
    nodes.push_back(std::move(n));
    return int(nodes.size()) - 1;
}
template<typename T, typename Other> void const *try_up(void *obj)
{
    auto p = static_cast<T *>(obj);
    if constexpr(std::is_convertible_v<T *, Other *>) return static_cast<Other *>(p);
    else return nullptr;
}
template<typename T, typename ...Other> void casts(int i, types<Other...>, int first)
{
    nodes[i].up = [first](void *obj, int to) -> void const * {
        void const *r = nullptr;
        int k = first;
        (void)((k++ == to ? (r = try_up<T, Other>(obj), true) : false) || ...);
        return r;
    };
    nodes[i].down_up = [first](void *obj, int to) -> void * {
        void *r = nullptr;
        int k = first;
        (void)((k++ == to ? (r = meta_cast<Other>(static_cast<T *>(obj)), true) : false) || ...);
        return r;
    };
}
template<typename List, typename ...T> void all_casts(types<T...>, int first)
{
    int i = first;
    (void)i;
#ifdef DEEP_CAST
    (casts<T>(i++, List{}, first), ...);
#endif
}

void deep0(); void deep1(); void deep2(); void deep3();
#endif
