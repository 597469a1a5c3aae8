// A module, or the program, whose functions are called by several threads. Compiled once for each module.
#include "modrace.h"
using namespace race;
using rtti::variant;

namespace {
template<typename T, int F> struct FormOf { using type = T; };
template<typename T> struct FormOf<T, 1> { using type = T const; };
template<typename T> struct FormOf<T, 2> { using type = T const &; };
template<typename T> struct FormOf<T, 3> { using type = T *; };
template<typename T> struct FormOf<T, 4> { using type = T const *const *; };
template<typename T> struct FormOf<T, 5> { using type = T[3]; };
template<typename T> struct FormOf<T, 6> { using type = T &&; };
template<typename F, int N = 0> auto with(int n, F f) -> decltype(f(static_cast<R<0> *>(nullptr)))
{
    if constexpr (N + 1 < TYPES) if (n != N) return with<F, N + 1>(n, f);
    return f(static_cast<R<N> *>(nullptr));
}
template<typename T, int F = 0> std::size_t form_id(int form)
{
    if constexpr (F + 1 < FORMS) if (form != F) return form_id<T, F + 1>(form);
    return rtti::metaTypeId<typename FormOf<T, F>::type>().value();
}
template<typename T, int F = 0> std::size_t form_name(int form, bool &whole)
{
    if constexpr (F + 1 < FORMS) if (form != F) return form_name<T, F + 1>(form, whole);
    using U = typename FormOf<T, F>::type;
    rtti::MetaType m{rtti::type_name<U>()};
    whole = !m.valid() || (m.typeSize() == sizeof(U) && m.typeName() == rtti::type_name<U>() && m.decayId().value() != 0
                           && m.isLvalueReference() == std::is_lvalue_reference_v<U> && m.isArray() == std::is_array_v<U>);
    return m.typeId().value();
}
std::size_t id(int t, int form) { return with(t, [form](auto *p) { return form_id<std::remove_pointer_t<decltype(p)>>(form); }); }
std::size_t by_name(int t, int form, bool &whole) { return with(t, [form, &whole](auto *p) { return form_name<std::remove_pointer_t<decltype(p)>>(form, whole); }); }
variant make(int t, int n) { return with(t, [n](auto *p) { return variant(std::remove_pointer_t<decltype(p)>(n)); }); }
int read(variant const &v, int t)
{
    return with(t, [&v](auto *p) {
        using T = std::remove_pointer_t<decltype(p)>;
        variant w = v;
        if (!v.is<T>() || !w.is<T>() || v.typeId() != rtti::metaTypeId<T>()) return -1;
        return v.cref<T>().whole() && w.cref<T>().whole() && v == w && w.cref<T>().v == v.cref<T>().v ? v.cref<T>().v : -2;
    });
}
template<int N> R<(N + 1) % TYPES> next(R<N> const &r) { return R<(N + 1) % TYPES>(r.v * 10 + MOD); }
template<int N> struct Next { R<(N + 1) % TYPES> operator()(R<N> const &r) const { return next(r); } };
template<int N> bool reg_one(R<N> *) { return rtti::MetaType::registerConverter<R<N>, R<(N + 1) % TYPES>>(Next<N>{}); }
template<int N> int convert_one(R<N> *, int n)
{
    using To = R<(N + 1) % TYPES>;
    variant v = R<N>(n);
    try { auto r = v.to<To>(); return r.whole() ? r.v : -2; }
    catch (rtti::bad_variant_convert const &) { return -1; }
}
bool reg(int t) { return with(t, [](auto *p) { return reg_one(p); }); }
int convert(int t, int n) { return with(t, [n](auto *p) { return convert_one(p, n); }); }
int by_me() { return MOD; }
std::string class_name(int t) { return "R" + std::to_string(t); }
int define(int t)
{
    return with(t, [t](auto *p) {
        using T = std::remove_pointer_t<decltype(p)>;
        auto g = rtti::global_define();
        auto s = g._namespace("race");
        s.template _class<T>(class_name(t))._method("whole", &T::whole)._method("by" + std::to_string(MOD), &by_me)._attribute("a" + std::to_string(MOD), MOD);
        return 0;
    });
}
int look(int t, int n)
{
    return with(t, [t, n](auto *p) {
        using T = std::remove_pointer_t<decltype(p)>;
        auto s = rtti::MetaNamespace::global()->getNamespace("race");
        auto c = s ? s->getClass(class_name(t)) : nullptr;
        if (!c) return 0;
        if (rtti::MetaClass::find(rtti::metaTypeId<T>()) != c || rtti::MetaClass::find(rtti::type_name<T>()) != c || c->metaTypeId() != rtti::metaTypeId<T>()) return -2;
        int mask = 0;
        for (int m = 0; m < MODS; ++m)
        {
            auto f = c->getMethod("by" + std::to_string(m));
            if (!f) continue;
            if (f->invoke().template to<int>() != m) return -3;
            mask |= 1 << m;
        }
        if (mask)
        {
            auto k = c->getConstructor(rtti::DEFAULT_CONSTRUCTOR_SIG);
            if (!k || !k->invoke().template is<T>()) return -4;
            T x(n);
            auto w = c->getMethod("whole");
            if (!w || !w->invoke(std::ref(x)).template to<bool>()) return -5;
        }
        return mask;
    });
}
RaceApi const api = {MOD, id, by_name, make, read, reg, convert, define, look};
} // namespace

#if MOD
extern "C" __attribute__((visibility("default"))) RaceApi const *rv_race() { return &api; }
#ifdef AT_LOAD
RTTI_REGISTER
{
    for (int t = 0; t < TYPES; t += 2) api.id(t, t % FORMS);
    define(AT_LOAD);
}
#endif
#else
race::RaceApi const *rv_race_own() { return &api; }
#endif
