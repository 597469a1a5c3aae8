// A module (C24): what it does with the types it shares with others. Compiled once for each module.
#include "modules.h"
#include <cstring>
#include <new>
using namespace shared;
using rtti::variant;

namespace {
template<typename T> struct Use
{
    static std::size_t id() { return rtti::metaTypeId<T>().value(); }
    static std::size_t ids(std::size_t *out)
    {
        std::size_t const all[] = {rtti::metaTypeId<T const>().value(), rtti::metaTypeId<T &>().value(), rtti::metaTypeId<T const &>().value(), rtti::metaTypeId<T &&>().value(),
            rtti::metaTypeId<T *>().value(), rtti::metaTypeId<T const *>().value(), rtti::metaTypeId<T *const *>().value(), rtti::metaTypeId<T[3]>().value(), rtti::metaTypeId<std::vector<T>>().value()};
        std::memcpy(out, all, sizeof all);
        return sizeof all / sizeof *all;
    }
    static void describe(std::string &out)
    {
        auto t = rtti::metaType<T>();
        out = std::string(t.typeName()) + " " + std::to_string(t.typeSize()) + " " + std::to_string(unsigned(t.typeFlags())) + " " + std::to_string(t.pointerArity())
            + " " + std::to_string(t.decayId().value()) + " " + std::to_string(t.typeId().value()) + " " + std::to_string(rtti::MetaType(t.typeName()).typeId().value());
    }
    static void make(int n, variant &to) { to = Val<T>::make(n); }
    static void fresh(int n, void *where) { new (where) variant(Val<T>::make(n)); }
    static bool is(variant const &v) { return v.is<T>(); }
    static int read(variant const &v, int way)
    {
        switch (way % 4)
        {
        case 0: return Val<T>::get(v.to<T>());
        case 1: return Val<T>::get(v.cref<T>());
        case 2: return Val<T>::get(*v.data<T>());
        default: { variant c(v); return Val<T>::get(c.ref<T>()); }
        }
    }
    static int to(variant const &v) { return Val<T>::get(v.to<T>()); }
    static bool canconvert(variant const &v) { return v.canConvert<T>(); }
    static void write(variant &v, int n) { v.ref<T>() = Val<T>::make(n); }
    static bool equal(variant const &v, int n) { return v == variant(Val<T>::make(n)); }
    static void *meta_new(int n)
    {
        auto x = Val<T>::make(n);
        return rtti::MetaType{rtti::metaTypeId<T>()}.construct(&x, false);
    }
    static int meta_copy(void const *o, int n)
    {
        rtti::MetaType t{rtti::metaTypeId<T>()};
        auto p = static_cast<T *>(t.construct(const_cast<void *>(o), false));
        int r = Val<T>::get(*p);
        *p = Val<T>::make(n + 1);
        if (Val<T>::get(*static_cast<T const *>(o)) != r) r = -1;
        // and one whose value is moved
        auto q = static_cast<T *>(t.construct(p, true));
        if (Val<T>::get(*q) != Val<T>::get(Val<T>::make(n + 1))) r = -2;
        t.destruct(p);
        t.destruct(q);
        return r;
    }
    static void meta_delete(void *o) { rtti::MetaType{rtti::metaTypeId<T>()}.destruct(o); }
    static constexpr TypeApi api = {id, ids, describe, make, fresh, is, read, to, canconvert, write, equal, meta_new, meta_copy, meta_delete};
};
template<typename> struct Table;
template<typename ...T> struct Table<Types<T...>> { static constexpr TypeApi api[] = {Use<T>::api...}; };

int by_me() { return MOD; }
template<typename T, typename D> void define_items(D d)
{
    d._method("get", &T::get)._method("by" + std::to_string(MOD), &by_me)._property("v", &T::get, &T::set);
    d.template _constructor<int>();
    d._attribute("last", MOD)._attribute("by" + std::to_string(MOD), std::string("module ") + std::to_string(MOD));
}
template<typename T, typename D> void define_class(D space, int c)
{
    auto k = space.template _class<T>(class_names[c]);
    if constexpr (std::is_same_v<T, Derived>) k.template _base<Base>();
    if constexpr (std::is_same_v<T, Leaf>) k.template _base<Derived, Mixin>();
    define_items<T>(k);
}

template<typename T> void lazy_part(rtti::meta_define<T> d)
{
    if constexpr (std::is_same_v<T, Derived>) d.template _base<Base>();
    if constexpr (std::is_same_v<T, Leaf>) d.template _base<Derived, Mixin>();
    define_items<T>(d);
}
template<typename T> void define_one(int c, bool lazy)
{
    auto g = rtti::global_define();
    auto s = g._namespace(space_names[c % 2]);
    if (!lazy) { define_class<T>(s, c); return; }
    s.template _class<T>(class_names[c])._lazy([](rtti::meta_define<T> d) { lazy_part<T>(d); });
}
template<typename F, int C, typename T, typename ...R> void with_class(Types<T, R...>, int c, F f)
{
    if (c == C) return f(static_cast<T *>(nullptr));
    if constexpr (sizeof...(R) > 0) with_class<F, C + 1>(Types<R...>{}, c, f);
}
template<typename F> void with_class(int c, F f) { with_class<F, 0>(Classes{}, c, f); }

void define(int c) { with_class(c, [c](auto *t) { define_one<std::remove_pointer_t<decltype(t)>>(c, false); }); }
void define_lazy(int c) { with_class(c, [c](auto *t) { define_one<std::remove_pointer_t<decltype(t)>>(c, true); }); }

rtti::MetaClass const *by_name(int c)
{
    auto s = rtti::MetaNamespace::global()->getNamespace(space_names[c % 2]);
    return s ? s->getClass(class_names[c]) : nullptr;
}
bool known(int c)
{
    bool r = false;
    with_class(c, [&](auto *t) { r = rtti::MetaClass::find(rtti::metaTypeId<std::remove_pointer_t<decltype(t)>>()) != nullptr; });
    return r;
}
template<typename T> char const *look_at(int c, unsigned mask, unsigned inherited, int n)
{
    auto k = by_name(c);
    if (!k) return "not found by name";
    if (k != rtti::MetaClass::find(rtti::metaTypeId<T>())) return "not found by its type";
    if (k != rtti::MetaClass::find(rtti::type_name<T>())) return "not found by the name of its type";
    if (k != rtti::metaType<T>().metaClass()) return "not found from its type";
    if (k->metaTypeId() != rtti::metaTypeId<T>()) return "has another type";
    if (k->qualifiedName() != std::string("::") + space_names[c % 2] + "::" + class_names[c]) return "qualified name";
    if (k->owner() != rtti::MetaNamespace::global()->getNamespace(space_names[c % 2])) return "owner";
    auto ctor = k->getConstructor<int>();
    if (!ctor) return "constructor is missing";
    if (!k->defaultConstructor() || !k->copyConstructor()) return "default or copy constructor is missing";
    variant v = ctor->invoke(n);
    if (!v.is<T>() || Val<T>::get(v.cref<T>()) != n) return "constructed value";
    variant w = k->copyConstructor()->invoke(v.cref<T>());
    if (!w.is<T>() || Val<T>::get(w.cref<T>()) != n) return "copied value";
    auto get = k->getMethod("get");
    if (!get || get->invoke(v).template to<int>() != n || v.invoke("get").to<int>() != n) return "method";
    auto prop = k->getProperty("v");
    if (!prop || prop->get(v).template to<int>() != n) return "property";
    v.set_property("v", n + 1);
    if (Val<T>::get(v.cref<T>()) != n + 1 || v.get_property("v").to<int>() != n + 1) return "property that was set";
    if (w.get_property("v").to<int>() != n) return "property of another object";
    std::size_t count = 1;
    for (int m = 0; m < 31; ++m)
    {
        auto name = "by" + std::to_string(m);
        auto x = k->getMethod(name);
        auto &a = k->attribute(name);
        if (mask >> m & 1)
        {
            ++count;
            if (!x || x->invoke().template to<int>() != m) return "method of a module";
            if (a.template to<std::string>() != "module " + std::to_string(m)) return "attribute of a module";
        }
        else
        {
            if (!a.empty()) return "attribute nobody defined";
            if (!x != !(inherited >> m & 1)) return x ? "method nobody defined" : "inherited method";
            if (x && (x->owner() == k || x->invoke().template to<int>() != m)) return "inherited method is another";
        }
    }
    if (k->methodCount() != count) return "number of methods";
    if (k->propertyCount() != 1) return "number of properties";
    // derived classes do not get these two again
    auto &last = k->attribute("last");
    if (last.empty() || !(mask >> last.template to<int>() & 1)) return "attribute";
    return nullptr;
}
char const *look(int c, unsigned mask, unsigned inherited, int n)
{
    char const *r = nullptr;
    with_class(c, [&](auto *t) { r = look_at<std::remove_pointer_t<decltype(t)>>(c, mask, inherited, n); });
    return r;
}
char const *cast(Base *b, Mixin *m, Leaf *l)
{
    if (rtti::meta_cast<Leaf>(b) != l) return "from a base";
    if (rtti::meta_cast<Leaf>(m) != l) return "from another base";
    if (rtti::meta_cast<Mixin>(b) != m) return "across";
    if (rtti::meta_cast<Base>(m) != b) return "back across";
    Base const *cb = b;
    if (rtti::meta_cast<Derived>(cb) != static_cast<Derived const *>(l)) return "of a constant";
    if (&rtti::meta_cast<Derived>(*m) != static_cast<Derived *>(l)) return "of a reference";
    Base other(1);
    if (rtti::meta_cast<Leaf>(&other) || rtti::meta_cast<Mixin>(&other)) return "of something else";
    return nullptr;
}
char const *class_of(Base &b, Leaf &l)
{
    if (l.classInfo().typeId != rtti::metaTypeId<Leaf>() || static_cast<Base &>(l).classInfo().typeId != rtti::metaTypeId<Leaf>()) return "of a derived object";
    if (b.classInfo().typeId != rtti::metaTypeId<Base>()) return "of a base object";
    if (l.classInfo().instance != &l) return "object";
    return nullptr;
}
char const *part(variant const &v, int n)
{
    if (!v.is<Leaf>() || !v.is<Base>() || !v.is<Derived>() || !v.is<Mixin>()) return "is";
    if (v.is<Small>() || v.is<Box<Small>>()) return "is something else";
    auto &l = v.cref<Leaf>();
    if (&v.cref<Base>() != &l || &v.cref<Mixin>() != &l) return "parts";
    if (v.cref<Base>().v != n || v.invoke("get").to<int>() != n) return "value";
    if (v.to<Base>().v != n) return "conversion";
    variant p = &l;
    if (!p.is<Base const *>() || p.to<Base const *>() != &l || p.to<Mixin const *>() != &l) return "pointers";
    return nullptr;
}

template<int C> using From = std::tuple_element_t<C, std::tuple<Small, Big, Base, Box<Small>>>;
template<int C> using To = std::tuple_element_t<C, std::tuple<int, Small, Big, Base>>;
int value_of(Small const &s) { return s.v; }
int value_of(Big const &s) { return s.v; }
int value_of(Base const &s) { return s.v; }
int value_of(Box<Small> const &s) { return s.v; }
template<int C, int By> struct Convert { To<C> operator()(From<C> const &f) const { return To<C>(value_of(f) * 100 + By); } };
template<int C> bool reg(bool common)
{
    if (common) return rtti::MetaType::registerConverter<From<C>, To<C>>(Convert<C, 99>{});
    return rtti::MetaType::registerConverter<From<C>, To<C>>(Convert<C, MOD>{});
}
bool reg(int c, bool common) { return c == 0 ? reg<0>(common) : c == 1 ? reg<1>(common) : c == 2 ? reg<2>(common) : reg<3>(common); }
template<int C> void unreg() { rtti::MetaType::unregisterConverter<From<C>, To<C>>(); }
void unreg(int c) { c == 0 ? unreg<0>() : c == 1 ? unreg<1>() : c == 2 ? unreg<2>() : unreg<3>(); }
template<int C> bool has() { return rtti::MetaType::hasConverter<From<C>, To<C>>(); }
bool has(int c) { return c == 0 ? has<0>() : c == 1 ? has<1>() : c == 2 ? has<2>() : has<3>(); }

struct Nothing : Fresh<99> {};
int takes(int x) { return x; }
void fail(int kind)
{
    switch (kind)
    {
    case CAST: variant(Small(1)).cref<Big>(); break;
    case CONVERT: variant(Mixin(1)).to<std::vector<std::string>>(); break;
    case NO_CLASS: variant(Nothing{}).invoke("get"); break;
    case ARGUMENT:
    {
        auto g = rtti::global_define();
        g._method("takes", &takes);
        rtti::MetaNamespace::global()->getMethod("takes")->invoke(Mixin(1));
        break;
    }
    case INVOKE: rtti::MetaNamespace::global()->getMethod("takes")->invoke(); break;
    case REFUSED: { auto g = rtti::global_define(); g._class<Nothing>("Nothing")._base<Fresh<99>>(); break; }
    }
}
int caught(void (*f)(int), int kind)
{
    try { f(kind); }
    catch (rtti::bad_variant_convert const &) { return 1; }
    catch (rtti::bad_variant_cast const &) { return 2; }
    catch (rtti::bad_argument_cast const &) { return 3; }
    catch (rtti::bad_cast const &) { return 4; }
    catch (rtti::invoke_error const &) { return 5; }
    catch (rtti::unregistered_metaclass const &) { return 6; }
    catch (rtti::definition_error const &) { return 7; }
    catch (rtti::runtime_error const &) { return 8; }
    catch (std::exception const &) { return 9; }
    return 0;
}

template<typename F, int N = 0> auto with_fresh(int n, F f) -> decltype(f(static_cast<Fresh<0> *>(nullptr)))
{
    if constexpr (N + 1 < FRESH) if (n != N) return with_fresh<F, N + 1>(n, f);
    return f(static_cast<Fresh<N> *>(nullptr));
}
std::size_t fresh_id(int n) { return with_fresh(n, [](auto *t) { return rtti::metaTypeId<std::remove_pointer_t<decltype(t)>>().value(); }); }
std::size_t fresh_by_name(int n) { return with_fresh(n, [](auto *t) { return rtti::MetaType(rtti::type_name<std::remove_pointer_t<decltype(t)>>()).typeId().value(); }); }
int fresh_variant(int n)
{
    return with_fresh(n, [](auto *t) {
        using T = std::remove_pointer_t<decltype(t)>;
        variant a = T(5), b = a, c;
        c = std::move(b);
        return c.is<T>() && a == c && !c.is<Small>() ? c.data<T>()->v + c.cref<T>().v : -1;
    });
}
int fresh_meta(int n)
{
    return with_fresh(n, [](auto *t) {
        using T = std::remove_pointer_t<decltype(t)>;
        rtti::MetaType m{rtti::metaTypeId<T>()};
        T x(6);
        auto p = static_cast<T *>(m.construct(&x));
        int r = p->v;
        m.destruct(p);
        variant v = x;
        return v.canConvert<T>() && v.to<T>().v == r ? r : -1;
    });
}

ModApi const api = {
    MOD, Table<All>::api,
    [](variant const &f, variant &t) { t = f; },
    [](variant const &f, void *w) { new (w) variant(f); },
    [](variant &f, variant &t) { t = std::move(f); },
    [](variant &a, variant &b) { std::swap(a, b); },
    [](variant &v) { v.clear(); },
    [](variant *v) { v->~variant(); },
    [](variant const &a, variant const &b) { return a == b; },
    [](variant const &v) { return v.typeId().value(); },
    [](variant const &v) { return v.empty(); },
    define, define_lazy, known, look, cast, class_of, part, reg, unreg, has, fail, caught, fresh_id, fresh_by_name, fresh_variant, fresh_meta,
};
} // namespace

#if MOD
extern "C" __attribute__((visibility("default"))) shared::ModApi const *rv_module() { return &api; }
#ifdef AT_LOAD
RTTI_REGISTER
{
    define(AT_LOAD - 1);
}
#endif
#else
shared::ModApi const *rv_own() { return &api; }
#endif
