// Classes with generated constructors, each of which logs what it was given.
#pragma once
#include "calls_expect.h"

namespace calls {
using rtti::MetaClass;
using rtti::MetaConstructor;

struct Raw { int v; };
struct CtorTag {};
inline int &serial() { static int n = 0; return n; }
inline int fresh() { return 100000 + ++serial(); }
constexpr int DEFAULT = 99;

template<typename T, typename = std::enable_if_t<std::is_base_of_v<CtorTag, T>>> long rd(T const &x) { return x.value(); }
#define CTOR_CLASS(n)                                                                                              \
    template<> struct Make<C##n> { static std::unique_ptr<C##n> make(int p) { return std::make_unique<C##n>(Raw{p}); } }; \
    template<> struct Make<D##n> { static std::unique_ptr<D##n> make(int p) { return std::make_unique<D##n>(Raw{p}); } };

template<int Id, typename... P> void entered(std::remove_reference_t<P> &...p) { Fn<Id, R_VOID, P...>::run(nullptr, false, p...); }

struct Ctor
{
    int id;
    std::string name;                    // given at registration
    std::vector<Param> params;
    MetaConstructor const *(*typed)(MetaClass const *, std::string const &);
    bool converts = false;
    rtti::MetaType_ID from;              // decayed
    int v = -1;
    int (*native)(Source &) = nullptr;   // which constructor C++ runs for that conversion
    std::string signature;               // as the library's signature<> spells it
};
struct ClassOps
{
    int index;
    rtti::MetaType_ID id;
    bool can_default, can_copy, can_move, polymorphic;
    std::vector<Ctor> ctors;             // in order, repeated ones included
    std::string registered_name;
    bool (*holds)(variant const &);
    long (*value)(variant const &);
    std::unique_ptr<Source> (*source)(bool derived, int mode, int payload);
    void const *(*upcast)(Source const &);
    bool (*can_convert)(variant const &);
    bool (*try_convert)(variant &);
    void (*convert)(variant &);
    variant (*to)(variant const &);
};
inline std::vector<ClassOps> &classes() { static auto *v = new std::vector<ClassOps>; return *v; }

template<typename C, typename P> C as_converter(P p) { return p; }
template<typename C, typename P> int native_conversion(Source &s)
{
    using V = typename ParamOf<P>::V;
    Monitoring mon;
    auto &r = rec();
    auto saved = r.calls;
    auto throws = r.throws;
    r.calls.clear();
    r.throws = false;
    auto const &value = *static_cast<V const *>(static_cast<SourceOf<V> &>(s).target());
    { C c = as_converter<C, P>(value); (void)c; }
    auto id = r.calls.empty() ? -1 : r.calls.back().id;
    r.calls = saved;
    r.throws = throws;
    return id;
}
template<typename C, int Id, typename... P> Ctor describe(std::string name)
{
    Ctor c;
    c.id = Id; c.name = name;
    c.params = {Param{Vi<typename ParamOf<P>::V>::value, ParamOf<P>::form}...};
    if constexpr (sizeof...(P) == 1)
    {
        using Arg = std::tuple_element_t<0, std::tuple<P...>>;
        using From = rtti::full_decay_t<Arg>;
        constexpr bool conv = std::is_convertible_v<Arg, C> && std::is_convertible_v<From const &, Arg>;
        c.converts = conv;
        c.from = rtti::metaTypeId<From>();
        c.v = c.params[0].v;
        if constexpr (conv) c.native = &native_conversion<C, Arg>;
    }
    c.signature = rtti::signature<P...>::get(name.empty() ? rtti::CONSTRUCTOR_SIG : name);
    c.typed = [](MetaClass const *m, std::string const &n) { return n.empty() ? m->getConstructor<P...>() : m->getConstructor<P...>(n); };
    return c;
}
template<typename C, typename D> ClassOps describe_class(int index, bool polymorphic)
{
    ClassOps o;
    o.index = index;
    o.id = rtti::metaTypeId<C>();
    o.can_default = std::is_default_constructible_v<C>;
    o.can_copy = std::is_copy_constructible_v<C>;
    o.can_move = std::is_move_constructible_v<C>;
    o.polymorphic = polymorphic;
    o.holds = [](variant const &v) { return v.typeId() == rtti::metaTypeId<C>() && v.is<C>(); };
    o.value = [](variant const &v) { auto p = v.data<C>(); return p ? rd(*p) : -7L; };
    o.source = [](bool derived, int mode, int payload) -> std::unique_ptr<Source> {
        std::unique_ptr<Source> s;
        auto prepare = [&](auto *p) { s.reset(p); p->v = derived ? 100 : 101; p->mode = mode; p->payload = payload; p->setup(); };
        if (derived) prepare(new SourceOf<D>);
        else prepare(new SourceOf<C>);
        return s;
    };
    o.upcast = [](Source const &s) -> void const * {
        if (s.v == 100) return static_cast<C const *>(static_cast<SourceOf<D> const &>(s).target());
        return s.object();
    };
    o.can_convert = [](variant const &v) { return v.canConvert<C>(); };
    o.try_convert = [](variant &v) { return v.tryConvert<C>(); };
    o.convert = [](variant &v) { v.convert<C>(); };
    o.to = [](variant const &v) { return variant{v.to<C>()}; };
    return o;
}
} // namespace calls
