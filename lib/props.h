// Variables and accessors behind registered properties.
#pragma once
#include "instances.h"

namespace calls {
enum Place { IN_NAMESPACE, IN_CLASS, IN_BASE, MEMBER_OF_HOST, MEMBER_OF_BASE };
inline char const *place_name(int p)
{
    static char const *const n[] = {"variable of a namespace", "static variable of the class", "static variable of the base class", "member", "member of the base class"};
    return n[p];
}

template<typename V> struct Box
{
    std::unique_ptr<V> p;
    explicit Box(std::unique_ptr<V> x) : p(std::move(x)) {}
    Box(Box const &o) : p(copy(*o.p)) {}
    static V *copy([[maybe_unused]] V const &v)
    {
        if constexpr (std::is_copy_constructible_v<V>) return new V(v);
        else return nullptr;
    }
    template<typename X> void store(X &&x)
    {
        if constexpr (std::is_constructible_v<V, X &&>) p.reset(new V(std::forward<X>(x)));
    }
};
inline void accessed(int id, void const *self, bool is_const)
{
    { Monitoring mon; rec().calls.push_back({id, self, is_const, {}}); }
    if (rec().throws) throw Boom{id};
}
template<typename P> void given(int id, void const *self, std::remove_reference_t<P> &p)
{
    {
        Monitoring mon;
        rec().calls.push_back({id, self, false, {}});
        note<P>(rec().calls.back(), p);
    }
    if (rec().throws) throw Boom{id};
}

struct PBase; struct PHost;
struct Prop
{
    int index;
    std::string name;
    int place, v;
    bool accessor, read_only;
    int get_form;                 // of the getter's result: VAL, LREF, CLREF
    bool get_const;
    int set_form;                 // of the setter's parameter
    void const *(*base_slot)(PBase const *);
    void const *(*host_slot)(PHost const *);
    void const *(*static_slot)();
    long (*read)(void const *slot);
    // the result of a get; empty text if it is right
    std::string (*judge)(Prop const &, variant &res, void const *slot, long expected);
    bool member() const { return place >= MEMBER_OF_HOST; }
    bool of_base() const { return place == IN_BASE || place == MEMBER_OF_BASE; }
};
inline std::vector<Prop> &props() { static auto *p = new std::vector<Prop>; return *p; }

template<typename V> long read_slot(void const *p) { return rd(*static_cast<V const *>(p)); }
template<typename V> std::string judge_get(Prop const &p, variant &res, void const *slot, long expected)
{
    auto const *data = std::as_const(res).data<V>();
    if (!data) return "not of the property's type";
    if (rtti::MetaType{res.typeId()}.decayId() != rtti::MetaType{rtti::metaTypeId<V>()}.decayId()) return "of another type";
    if (rd(*data) != expected) return fmt("%ld instead of %ld", rd(*data), expected);
    if (p.accessor && p.get_form == VAL)
    {
        if (data == slot) return "the variable itself instead of a copy";
        if (!res.template is<V>()) return "not usable as a value";
        return "";
    }
    if (data != slot) return "a copy instead of the variable itself";
    bool is_mutable = p.accessor && p.get_form == LREF;
    if (is_mutable != (res.data<V>() != nullptr)) return is_mutable ? "not mutable" : "mutable";
    return "";
}
} // namespace calls
