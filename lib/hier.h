// What generated class hierarchies look like to the polymorphic-cast check: tables of
// type-erased operations, one row per class, plus the facts the compiler knows.
#pragma once
#include "rv.h"
#include <rtti/metadefine.h>

namespace hier {

enum Outcome { Null, Got, BadCast, BadConvert, BadMeta, Other };
inline char const *outcome_name(int o)
{
    static char const *const n[] = {"null", "address", "bad_variant_cast", "bad_variant_convert", "bad_meta_cast", "another exception"};
    return n[o];
}
struct Res
{
    int what = Null;
    void const *p = nullptr;
};

template<typename F> Res guarded(F &&f)
{
    Res r;
    try
    {
        r.p = f();
        r.what = r.p ? Got : Null;
    }
    catch (rtti::bad_variant_convert const &) { r.what = BadConvert; }
    catch (rtti::bad_variant_cast const &) { r.what = BadCast; }
    catch (rtti::bad_meta_cast const &) { r.what = BadMeta; }
    catch (...) { r.what = Other; }
    return r;
}

/// Ways of asking a variant for a class T; the first group is also asked of a const variant.
enum Ask
{
    Is, IsL, IsCL, IsR, IsC, Data, Ref, Cref, To,
    IsP, IsCP, DataP, RefP, CrefP, DataCP, CrefCP, ToP, ToCP,
    RrefV, RefRV, ToRV,
    ASKS
};
inline char const *ask_name(int a)
{
    static char const *const n[] = {"is<T>", "is<T&>", "is<T const&>", "is<T&&>", "is<T const>", "data<T>", "ref<T>", "cref<T>", "to<T>",
                                    "is<T*>", "is<T const*>", "data<T*>", "ref<T*>", "cref<T*>", "data<T const*>", "cref<T const*>",
                                    "to<T*>", "to<T const*>", "rvalue.rref<T>", "rvalue.ref<T>", "rvalue.to<T>"};
    return n[a];
}
inline int constexpr yes = 1;

template<typename T> Res to_value(rtti::variant const *c, rtti::variant *m)
{
    if constexpr (std::is_abstract_v<T>) return Res{};
    else
        return guarded([&]() -> void const * {
            static long dummy;
            T x = c ? c->to<T>() : m->to<T>();
            // the copy carries the marks of the object it was made from
            dummy = x.mark;
            return &dummy;
        });
}

template<typename T> Res ask(rtti::variant &v, int how, long *extra)
{
    static int tru;
    auto b = [](bool x) -> void const * { return x ? &tru : nullptr; };
    switch (how)
    {
    case Is: return guarded([&] { return b(v.is<T>()); });
    case IsL: return guarded([&] { return b(v.is<T &>()); });
    case IsCL: return guarded([&] { return b(v.is<T const &>()); });
    case IsR: return guarded([&] { return b(v.is<T &&>()); });
    case IsC: return guarded([&] { return b(v.is<T const>()); });
    case Data: return guarded([&]() -> void const * { return v.data<T>(); });
    case Ref: return guarded([&]() -> void const * { return &v.ref<T>(); });
    case Cref: return guarded([&]() -> void const * { return &v.cref<T>(); });
    case To:
        if constexpr (std::is_abstract_v<T>) return Res{};
        else return guarded([&]() -> void const * { T x = v.to<T>(); *extra = x.mark; return &tru; });
    case IsP: return guarded([&] { return b(v.is<T *>()); });
    case IsCP: return guarded([&] { return b(v.is<T const *>()); });
    case DataP: return guarded([&]() -> void const * { auto *p = v.data<T *>(); if (p) *extra = long(reinterpret_cast<std::uintptr_t>(*p)); return p; });
    case RefP: return guarded([&]() -> void const * { auto &p = v.ref<T *>(); *extra = long(reinterpret_cast<std::uintptr_t>(p)); return &p; });
    case CrefP: return guarded([&]() -> void const * { auto &p = v.cref<T *>(); *extra = long(reinterpret_cast<std::uintptr_t>(p)); return &p; });
    case DataCP: return guarded([&]() -> void const * { auto *p = v.data<T const *>(); if (p) *extra = long(reinterpret_cast<std::uintptr_t>(*p)); return p; });
    case CrefCP: return guarded([&]() -> void const * { auto &p = v.cref<T const *>(); *extra = long(reinterpret_cast<std::uintptr_t>(p)); return &p; });
    case ToP: return guarded([&]() -> void const * { return v.to<T *>(); });
    case ToCP: return guarded([&]() -> void const * { return v.to<T const *>(); });
    case RrefV: return guarded([&]() -> void const * { T &&r = std::move(v).template rref<T>(); return &r; });
    case RefRV: return guarded([&]() -> void const * { auto &r = std::move(v).template ref<T>(); return &r; });
    }
    return Res{};
}
template<typename T> Res ask_const(rtti::variant const &v, int how, long *extra)
{
    static int tru;
    auto b = [](bool x) -> void const * { return x ? &tru : nullptr; };
    switch (how)
    {
    case Is: return guarded([&] { return b(v.is<T>()); });
    case IsL: return guarded([&] { return b(v.is<T &>()); });
    case IsCL: return guarded([&] { return b(v.is<T const &>()); });
    case IsR: return guarded([&] { return b(v.is<T &&>()); });
    case IsC: return guarded([&] { return b(v.is<T const>()); });
    case Data: return guarded([&]() -> void const * { return v.data<T>(); });
    case Ref: return guarded([&]() -> void const * { return &v.ref<T>(); });
    case Cref: return guarded([&]() -> void const * { return &v.cref<T>(); });
    case To:
        if constexpr (std::is_abstract_v<T>) return Res{};
        else return guarded([&]() -> void const * { T x = v.to<T>(); *extra = x.mark; return &tru; });
    case IsP: return guarded([&] { return b(v.is<T *>()); });
    case IsCP: return guarded([&] { return b(v.is<T const *>()); });
    case DataP: return guarded([&]() -> void const * { auto *p = v.data<T *>(); if (p) *extra = long(reinterpret_cast<std::uintptr_t>(*p)); return p; });
    case CrefP: return guarded([&]() -> void const * { auto &p = v.cref<T *>(); *extra = long(reinterpret_cast<std::uintptr_t>(p)); return &p; });
    case DataCP: return guarded([&]() -> void const * { auto *p = v.data<T const *>(); if (p) *extra = long(reinterpret_cast<std::uintptr_t>(*p)); return p; });
    case CrefCP: return guarded([&]() -> void const * { auto &p = v.cref<T const *>(); *extra = long(reinterpret_cast<std::uintptr_t>(p)); return &p; });
    case ToP: return guarded([&]() -> void const * { return v.to<T *>(); });
    case ToCP: return guarded([&]() -> void const * { return v.to<T const *>(); });
    }
    return Res{};
}

/// Ways of putting an object with static type S into a variant.
enum Hold { ByValue, ByMove, ByRef, ByCref, ByPtr, ByCPtr, ByConstPtr, ByNull, ByConstVal, HOLDS };
inline char const *hold_name(int h)
{
    static char const *const n[] = {"by value", "moved in", "std::ref", "std::cref", "pointer", "pointer to const", "const pointer", "null pointer", "const value"};
    return n[h];
}

template<typename S> bool hold(rtti::variant &out, int how, void *obj)
{
    auto *s = static_cast<S *>(obj);
    switch (how)
    {
    case ByValue: if constexpr (!std::is_abstract_v<S>) { out = *s; return true; } return false;
    case ByMove: if constexpr (!std::is_abstract_v<S>) { out = std::move(*s); return true; } return false;
    case ByRef: out = std::ref(*s); return true;
    case ByCref: out = std::cref(*s); return true;
    case ByPtr: out = s; return true;
    case ByCPtr: out = static_cast<S const *>(s); return true;
    case ByConstPtr: { S *const p = s; out = p; return true; }
    case ByNull: out = static_cast<S *>(nullptr); return true;
    case ByConstVal: if constexpr (!std::is_abstract_v<S>) { S const &c = *s; out = c; return true; } return false;
    }
    return false;
}

struct MetaCast
{
    Res (*cptr)(void *);       // To const* from From const*
    Res (*ptr)(void *);
    Res (*ref)(void *);
    Res (*cref)(void *);
    void const *(*dyn)(void *);   // dynamic_cast, where the compiler accepts one
    bool has_dyn;
};
template<typename To, typename From, typename = void> struct Dyn
{
    static constexpr bool ok = false;
    static void const *go(void *) { return nullptr; }
};
template<typename To, typename From> struct Dyn<To, From, std::void_t<decltype(dynamic_cast<To *>(static_cast<From *>(nullptr)))>>
{
    static constexpr bool ok = true;
    static void const *go(void *p) { return dynamic_cast<To *>(static_cast<From *>(p)); }
};
template<typename To, typename From> MetaCast meta_cast_row()
{
    return MetaCast{
        [](void *p) { return guarded([&]() -> void const * { return rtti::meta_cast<To>(static_cast<From const *>(p)); }); },
        [](void *p) { return guarded([&]() -> void const * { return rtti::meta_cast<To>(static_cast<From *>(p)); }); },
        [](void *p) { return guarded([&]() -> void const * { return &rtti::meta_cast<To>(*static_cast<From *>(p)); }); },
        [](void *p) { return guarded([&]() -> void const * { return &rtti::meta_cast<To>(*static_cast<From const *>(p)); }); },
        &Dyn<To, From>::go, Dyn<To, From>::ok};
}

struct Sub            // one subobject of a complete class
{
    int cls;
    void *(*at)(void *);
    bool in_ci;       // lies within the subobject whose classInfo() is the final overrider
};
struct Class
{
    char const *name;
    int hier;
    bool registered, own_ci, abstract, plain;
    int ci;                      // class whose classInfo() a complete object of this class answers with, or -1
    int ci_sub;                  // index of that subobject
    std::vector<int> declared;   // declared bases, in order
    void *(*make)();
    void (*kill)(void *);
    std::vector<Sub> subs;       // of a complete object; subs[0] is the object itself
    std::vector<std::pair<int, MetaCast>> casts;    // static type this, to class first
    Res (*ask)(rtti::variant &, int, long *);
    Res (*ask_const)(rtti::variant const &, int, long *);
    bool (*hold)(rtti::variant &, int, void *);
    long (*mark)(void const *);
    rtti::MetaType_ID (*id)();
};
inline std::vector<Class> &classes() { static std::vector<Class> v; return v; }

template<typename T> void fill(Class &c)
{
    c.abstract = std::is_abstract_v<T>;
    if constexpr (!std::is_abstract_v<T>)
    {
        c.make = []() -> void * { return new T; };
        c.kill = [](void *p) { delete static_cast<T *>(p); };
    }
    else { c.make = nullptr; c.kill = nullptr; }
    c.ask = &ask<T>;
    c.ask_const = &ask_const<T>;
    c.hold = &hold<T>;
    c.mark = [](void const *p) -> long { return static_cast<T const *>(p)->T::mark; };
    c.id = []() { return rtti::metaTypeId<T>(); };
}

} // namespace hier
