#include "hostile.h"
using namespace hostile;
using rtti::MetaType;

namespace {
template<typename T> std::string tn() { return std::string(rtti::type_name<T>()); }
[[noreturn]] void broken(char const *key, std::string const &what) { throw Broken{key, what}; }

template<typename T, typename X> void use(X const &x)
{
    // reads what was handed out, so that the sanitizers see it
    if constexpr (std::is_same_v<T, std::string>) { if (x.size() > 10000) broken("value", "string"); }
    else if constexpr (std::is_base_of_v<Base, T>) { if (x.get() < -2000000000) broken("value", "class"); }
    else if constexpr (std::is_trivially_copyable_v<T>) { volatile unsigned char c = *reinterpret_cast<unsigned char const *>(&x); (void)c; }
}
template<typename T> void calls(std::vector<Call> &to)
{
    auto add = [&](char const *n, auto f) { to.emplace_back(std::string(n) + "<" + tn<T>() + ">", f); };
    constexpr bool array = std::is_array_v<T>;
    constexpr bool makes = !array && !std::is_abstract_v<T> && (std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>) && !std::is_const_v<T>;
    add("is", [](rv::Rng &, variant &v) {
        bool a = v.is<T>(), b = const_cast<variant const &>(v).is<T>();
        if (b && !a) broken("const-more", "is of a constant variant where not of a mutable one");
        if (a && v.empty()) broken("empty-is", "an empty variant is something");
    });
    add("ref", [](rv::Rng &, variant &v) { auto &x = v.ref<T>(); use<std::remove_cv_t<T>>(x); });
    add("cref", [](rv::Rng &, variant &v) { auto const &x = v.cref<T>(); use<std::remove_cv_t<T>>(x); });
    add("const cref", [](rv::Rng &, variant &v) { auto const &x = const_cast<variant const &>(v).cref<T>(); use<std::remove_cv_t<T>>(x); });
    add("data", [](rv::Rng &, variant &v) {
        auto *x = v.data<T>();
        bool threw = false;
        try { v.ref<T>(); } catch (rtti::runtime_error const &) { threw = true; }
        if (threw != !x) broken("data-ref", "data and ref disagree");
        if (x) use<std::remove_cv_t<T>>(*x);
    });
    add("const data", [](rv::Rng &, variant &v) {
        auto *x = const_cast<variant const &>(v).data<T>();
        if (x) use<std::remove_cv_t<T>>(*x);
        if (x && v.empty()) broken("empty-is", "data of an empty variant");
    });
    if constexpr (!array) add("canConvert", [](rv::Rng &, variant &v) {
        bool a = v.canConvert<T>(), b = const_cast<variant const &>(v).canConvert<T>();
        if ((a || b) && v.empty()) broken("empty-is", "an empty variant can be converted");
    });
    if constexpr (makes)
    {
        add("to", [](rv::Rng &, variant &v) { T x = v.to<T>(); use<T>(x); });
        add("const to", [](rv::Rng &, variant &v) { T x = const_cast<variant const &>(v).to<T>(); use<T>(x); });
        add("convert", [](rv::Rng &, variant &v) { v.convert<T>(); if (!v.is<T>()) broken("convert", "is not what it was converted to"); });
        add("tryConvert", [](rv::Rng &, variant &v) {
            auto before = show(v);
            bool ok = v.tryConvert<T>();
            if (ok && !v.is<T>()) broken("convert", "is not what it was converted to");
            if (!ok && show(v) != before) broken("changed", "failed conversion: " + before + " -> " + show(v));
        });
        add("argument value", [](rv::Rng &r, variant &v) {
            rtti::argument a = v;
            rtti::argument none;
            if (!none.empty()) broken("argument", "default argument is not empty");
            T x = (r.chance(1, 8) ? none : a).template value<T>();
            use<T>(x);
        });
    }
    if constexpr (!array && !std::is_abstract_v<T>) add("argument reference", [](rv::Rng &r, variant &v) {
        rtti::argument a = v;
        rtti::argument none;
        switch (r.below(3))
        {
        case 0: { T &x = (r.chance(1, 8) ? none : a).template value<T &>(); use<std::remove_cv_t<T>>(x); break; }
        default: { T const &x = (r.chance(1, 8) ? none : a).template value<T const &>(); use<std::remove_cv_t<T>>(x); break; }
        }
    });
    add("type", [](rv::Rng &r, variant &v) {
        MetaType m{rtti::metaTypeId<T>()}, o{v.typeId()}, none;
        MetaType::compatible(m, o); MetaType::compatible(o, m); MetaType::compatible(none, m); MetaType::compatible(m, none);
        if (MetaType::compatible(none, m) || MetaType::compatible(m, none)) broken("invalid-type", "compatible with no type");
        if (MetaType::hasConverter(none, m) || MetaType::hasConverter(m, none) || MetaType::hasConverter(none.typeId(), m.typeId())) broken("invalid-type", "converter from no type");
        MetaType::hasConverter(m, o); MetaType::hasConverter(o.typeId(), m.typeId());
        MetaType::unregisterConverter(none.typeId(), m.typeId());
        if (r.chance(1, 2)) MetaType::unregisterConverter(m.typeId(), none.typeId());
        if (none.valid() || none.typeSize() || none.pointerArity() || none.metaClass() || none.isConst() || none.isClass() || none.isPointer() || none.isArray() || none.isReference() || none.decayed()) broken("invalid-type", "no type is something");
        none.destruct(nullptr);
        if (none.construct()) broken("invalid-type", "no type was constructed");
        void *p = m.construct();
        m.destruct(p);
        m.destruct(nullptr);
    });
}
} // namespace

#ifndef GROUP
#define GROUP 0
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace hostile {
void CAT(typed_calls_, GROUP)(std::vector<Call> &to)
{
#if GROUP == 0
    calls<int>(to); calls<int const>(to); calls<double>(to); calls<bool>(to); calls<char>(to);
#elif GROUP == 1
    calls<std::string>(to); calls<char const *>(to); calls<int *>(to); calls<int const *>(to); calls<void *>(to); calls<void const *>(to);
#elif GROUP == 2
    calls<Base>(to); calls<Derived>(to); calls<Base *>(to); calls<Base const *>(to); calls<Derived *>(to);
#elif GROUP == 3
    calls<Multi const *>(to); calls<Side>(to); calls<Side *>(to); calls<Abstract>(to); calls<Abstract *>(to); calls<Abstract const *>(to);
#elif GROUP == 4
    calls<Unregistered>(to); calls<Unregistered *>(to); calls<Plain>(to); calls<Stranger const *>(to); calls<Lonely *>(to); calls<Color>(to);
#else
    calls<int[4]>(to); calls<Big>(to); calls<Base **>(to); calls<int (*)(int)>(to); calls<std::nullptr_t>(to); calls<std::vector<int>>(to); calls<int Base::*>(to);
#endif
}
} // namespace hostile
