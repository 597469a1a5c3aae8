// Families of classes in which any subset of the edges from later to earlier classes may be
// declared at run time, in any order.
#pragma once
#include "rv.h"
#include <rtti/metadefine.h>

namespace bases {

constexpr int N = 9;           // classes of a family
constexpr int PER_GROUP = 5;   // families of one translation unit

template<int F, int I, typename Seq = std::make_integer_sequence<int, I>> struct K;
template<int F, int I, int ...J>
struct K<F, I, std::integer_sequence<int, J...>>: virtual K<F, J>...
{
    DECLARE_CLASSINFO
public:
    K() = delete;
    K(K const &) = delete;
    virtual ~K() = default;
};

struct Ops
{
    void (*define)(rtti::MetaContainer const *, char const *ns, char const *name);
    void (*base)(char const *ns, char const *name, int j);
    void (*base3)(char const *ns, char const *name, int a);     // bases a, a+1, a+2
    void (*base_rev)(char const *ns, char const *name, int a);  // bases a+1, a
    void (*lazy)(char const *ns, char const *name, std::vector<int> js);
    rtti::MetaType_ID (*id)();
};
using Family = std::vector<Ops>;

template<int F, int I, typename D, int J> bool one(D &d, int j)
{
    if (j != J) return false;
    d.template _base<K<F, J>>();
    return true;
}
template<int F, int I, typename D, int ...J> void any(D &d, int j, std::integer_sequence<int, J...>)
{ (void)(one<F, I, D, J>(d, j) || ...); }

template<int F, int I, typename D, int J> bool three(D &d, int a)
{
    if constexpr (J + 2 < I)
        if (a == J) { d.template _base<K<F, J>, K<F, J + 1>, K<F, J + 2>>(); return true; }
    return false;
}
template<int F, int I, typename D, int ...J> void any3(D &d, int a, std::integer_sequence<int, J...>)
{ (void)(three<F, I, D, J>(d, a) || ...); }
template<int F, int I, typename D, int J> bool rev(D &d, int a)
{
    if constexpr (J + 1 < I)
        if (a == J) { d.template _base<K<F, J + 1>, K<F, J>>(); return true; }
    return false;
}
template<int F, int I, typename D, int ...J> void anyr(D &d, int a, std::integer_sequence<int, J...>)
{ (void)(rev<F, I, D, J>(d, a) || ...); }

template<int F, int I> Ops ops()
{
    using T = K<F, I>;
    using Seq = std::make_integer_sequence<int, I>;
    Ops o;
    o.define = [](rtti::MetaContainer const *, char const *ns, char const *name) {
        auto g = rtti::global_define();
        g._namespace(ns).template _class<T>(name);
    };
    o.base = [](char const *ns, char const *name, int j) {
        auto g = rtti::global_define();
        auto c = g._namespace(ns).template _class<T>(name);
        any<F, I>(c, j, Seq{});
    };
    o.base3 = [](char const *ns, char const *name, int a) {
        auto g = rtti::global_define();
        auto c = g._namespace(ns).template _class<T>(name);
        any3<F, I>(c, a, Seq{});
    };
    o.base_rev = [](char const *ns, char const *name, int a) {
        auto g = rtti::global_define();
        auto c = g._namespace(ns).template _class<T>(name);
        anyr<F, I>(c, a, Seq{});
    };
    o.lazy = [](char const *ns, char const *name, std::vector<int> js) {
        auto g = rtti::global_define();
        auto c = g._namespace(ns).template _class<T>(name);
        c._lazy([js](rtti::meta_define<T> d) { for (int j : js) any<F, I>(d, j, Seq{}); });
    };
    o.id = [] { return rtti::metaTypeId<T>(); };
    return o;
}
template<int F, int ...I> Family family(std::integer_sequence<int, I...>) { return Family{ops<F, I>()...}; }
template<int G, int ...F> void group(std::vector<Family> &out, std::integer_sequence<int, F...>)
{ (out.push_back(family<G * PER_GROUP + F>(std::make_integer_sequence<int, N>{})), ...); }

} // namespace bases
