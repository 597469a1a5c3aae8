// C10: types and type-erased registry operations for every ordered pair of them.
#pragma once
#include "kinds.h"

namespace ch {
using namespace rv;
using rtti::variant;
using rtti::MetaType;

struct Thrown { int code; };
inline std::uint64_t g_no;
struct Call { int from, to, tag; long value; void const *src; };
inline std::vector<Call> &calls() { static auto *v = new std::vector<Call>; return *v; }
inline void log_call(int from, int to, int tag, long value, void const *src)
{ Monitoring m; calls().push_back(Call{from, to, tag, value, src}); }

template<int I> struct Base_;
template<> struct Base_<0> { using type = Tr<200, 4>; };
template<> struct Base_<1> { using type = Tr<201, 80>; };
template<> struct Base_<2> { using type = Tr<202, 8, CanCopy | CanMove | HasEq | CanDefault | CanAssign>; };
template<> struct Base_<3> { using type = Tr<203, 24, CanCopy | HasEq>; };
template<> struct Base_<4> { using type = Tr<204, 16, Full, 64>; };
template<> struct Base_<5> { using type = Tr<205, 8, CanMove | MoveNoexcept | HasEq>; };

template<int I> struct CT : Base_<I>::type
{
    using B = typename Base_<I>::type;
    static constexpr int index = I;
    explicit CT(int v) : B(v) {}
    CT(CT const &) = default;
    CT(CT &&) = default;
    // as converters: the result tells who made it
    template<typename To> To as() const;
    template<typename To> To as_ok(bool &ok) const;
};
inline bool operator==(CT<5> const &a, CT<5> const &b) { return a.value() == b.value(); }
// copy-only: its move constructor must not exist
template<> struct CT<3> : Base_<3>::type
{
    using B = Base_<3>::type;
    static constexpr int index = 3;
    explicit CT(int v) : B(v) {}
    CT(CT const &) = default;
    template<typename To> To as() const;
    template<typename To> To as_ok(bool &ok) const;
};
struct Num { long n; static constexpr int index = 6; int value() const { return int(n); } };
inline bool operator==(Num a, Num b) { return a.n == b.n; }

enum ConvKind { FUNCTOR, FUNCTOR_REF, FUNCTOR_OK, FUNCTION, METHOD, METHOD_OK, SELF_REMOVING, BIG_STATE, NCONV };
inline char const *conv_name(int k)
{
    static char const *n[] = {"functor", "functor by value", "functor with ok", "function", "method", "method with ok", "self-removing functor", "functor with large state"};
    return n[k];
}
constexpr long THROWS = -1, FAILS = -2;
/// What a converter answers: the new value, or how it fails.
inline long rule(int kind, int from, int to, int tag, long v)
{
    if (v % 7 == 3) return THROWS;
    bool ok = kind == FUNCTOR_OK || kind == METHOD_OK;
    if (ok && v % 3 == 1) return FAILS;
    if (kind == FUNCTION || kind == METHOD || kind == METHOD_OK) tag = 0;
    return (v * 3 + tag * 11 + from * 5 + to + kind * 100) % 5000;
}
template<typename To> To produce(int kind, int from, int tag, long v, void const *src, bool *ok = nullptr)
{
    log_call(from, To::index, tag, v, src);
    long r = rule(kind, from, To::index, tag, v);
    if (r == THROWS) throw Thrown{kind};
    if (r == FAILS) { *ok = false; return To(4999); }
    if (ok) *ok = true;
    return To(int(r));
}
template<> inline Num produce<Num>(int kind, int from, int tag, long v, void const *src, bool *ok)
{
    log_call(from, 6, tag, v, src);
    long r = rule(kind, from, 6, tag, v);
    if (r == THROWS) throw Thrown{kind};
    if (r == FAILS) { *ok = false; return Num{4999}; }
    if (ok) *ok = true;
    return Num{r};
}
template<typename From, typename To> To plain_function(From const &x) { return produce<To>(FUNCTION, From::index, 0, x.value(), &x); }

enum Entry { TO_M, TO_C, CONVERT, TRY, CAN_M, CAN_C, TO_K, CAN_K, NENTRY };
inline char const *entry_name(int e)
{
    static char const *n[] = {"to", "to on a const variant", "convert", "tryConvert", "canConvert", "canConvert on a const variant", "to const", "canConvert to const"};
    return n[e];
}
enum Outcome { CONVERTED, NOT_CONVERTED, CONVERT_ERROR, THROWN, LIBRARY_ERROR, OTHER };

template<typename T> struct TypeOf
{
    static void *make(long v)
    {
        void *w = nullptr;
        if (posix_memalign(&w, std::max<std::size_t>(alignof(T), 16), sizeof(T))) std::abort();
        if constexpr(std::is_same_v<T, Num>) new (w) Num{v};
        else new (w) T(int(v));
        return w;
    }
    static void del(void *o) { static_cast<T *>(o)->~T(); std::free(o); }
    static long read(void const *o) { return static_cast<T const *>(o)->value(); }
    static void put(variant &v, void *o, int mode)
    {
        T &t = *static_cast<T *>(o);
        if (mode == 1) v = std::ref(t);
        else if (mode == 2) v = std::cref(t);
        else if constexpr(std::is_copy_constructible_v<T> && std::is_copy_constructible_v<typename kinds::elem<T>::type>) v = static_cast<T const &>(t);
        else v = std::move(t);
    }
    static bool holds(variant const &v, long &value, void const *&addr)
    {
        auto *p = v.data<T>();
        if (!p) return false;
        value = p->value();
        addr = p;
        return true;
    }
    static int enter(variant &v, int how, long &value)
    {
        try
        {
            switch (how)
            {
            case TO_M: { T x = v.to<T>(); value = x.value(); return CONVERTED; }
            case TO_C: { T x = static_cast<variant const &>(v).to<T>(); value = x.value(); return CONVERTED; }
            case CONVERT: v.convert<T>(); return CONVERTED;
            case TRY: return v.tryConvert<T>() ? CONVERTED : NOT_CONVERTED;
            case CAN_M: return v.canConvert<T>() ? CONVERTED : NOT_CONVERTED;
            case CAN_C: return static_cast<variant const &>(v).canConvert<T>() ? CONVERTED : NOT_CONVERTED;
            case TO_K:
                if constexpr(std::is_copy_constructible_v<T>) { T const x = v.to<T const>(); value = x.value(); }
                else { T x = v.to<T>(); value = x.value(); }
                return CONVERTED;
            case CAN_K: return v.canConvert<T const>() ? CONVERTED : NOT_CONVERTED;
            }
        }
        catch (rtti::bad_variant_convert &) { return CONVERT_ERROR; }
        catch (rtti::runtime_error &) { return LIBRARY_ERROR; }
        catch (Thrown &) { return THROWN; }
        catch (...) {}
        return OTHER;
    }
    static rtti::MetaType_ID id(int form)
    {
        switch (form)
        {
        case 0: return rtti::metaTypeId<T>();
        case 1: return rtti::metaTypeId<T const>();
        case 2: return rtti::metaTypeId<T &>();
        case 3: return rtti::metaTypeId<T const &>();
        default: return rtti::metaTypeId<T &&>();
        }
    }
};
struct TOps
{
    int index;
    void *(*make)(long);
    void (*del)(void *);
    long (*read)(void const *);
    void (*put)(variant &, void *, int);
    bool (*holds)(variant const &, long &, void const *&);
    int (*enter)(variant &, int, long &);
    rtti::MetaType_ID (*id)(int);
};
struct POps
{
    int from, to;
    bool (*reg)(int kind, int tag, int form);
    void (*unreg)(int form);
    bool (*has)(int form);
};
template<typename F, typename T> struct Stateful
{
    std::array<int, 40> numbers;
    std::string text;
    T operator()(F const &x) const
    { return produce<T>(BIG_STATE, F::index, text == std::string(30, char('a' + numbers[3] % 20)) ? numbers[39] : -1, x.value(), &x); }
};
template<typename F, typename T> struct PairOf
{
    static bool reg(int kind, int tag, int form)
    {
        switch (kind)
        {
        case FUNCTOR:
        {
            auto f = [tag](F const &x) { return produce<T>(FUNCTOR, F::index, tag, x.value(), &x); };
            switch (form)
            {
            case 0: return MetaType::registerConverter<F, T>(f);
            case 1: return MetaType::registerConverter<F const &, T>(std::move(f));
            case 2: return MetaType::registerConverter<F, T const>(f);
            default: return MetaType::registerConverter<F &, T &&>(std::move(f));
            }
        }
        case FUNCTOR_REF: if constexpr(std::is_same_v<F, CT<5>>) return reg(FUNCTOR, tag, form);
            else return MetaType::registerConverter<F, T>([tag](F x) { return produce<T>(FUNCTOR_REF, F::index, tag, x.value(), nullptr); });
        case FUNCTOR_OK: return MetaType::registerConverter<F, T>([tag](F const &x, bool &ok) { return produce<T>(FUNCTOR_OK, F::index, tag, x.value(), &x, &ok); });
        case FUNCTION:
            if (form == 0) return MetaType::registerConverter<F, T>(&plain_function<F, T>);
            if (form == 1) return MetaType::registerConverter(&plain_function<F, T>);
            return MetaType::registerConverter<F, T>(plain_function<F, T>);
        case METHOD: if constexpr(std::is_same_v<F, Num>) return reg(FUNCTION, tag, form);
            else return MetaType::registerConverter<F, T>(&F::template as<T>);
        case METHOD_OK: if constexpr(std::is_same_v<F, Num>) return reg(FUNCTOR_OK, tag, form);
            else return MetaType::registerConverter<F, T>(&F::template as_ok<T>);
        case SELF_REMOVING: return MetaType::registerConverter<F, T>([tag](F const &x)
            {
                MetaType::unregisterConverter<F, T>();
                return produce<T>(SELF_REMOVING, F::index, tag, x.value(), &x);
            });
        default:
        {
            std::array<int, 40> a;
            a.fill(tag);
            std::string s(30, char('a' + tag % 20));
            Stateful<F, T> f{a, s};
            if (form == 0) return MetaType::registerConverter<F, T>(std::move(f));
            if (form == 1)
                // cannot be copied
                return MetaType::registerConverter<F, T>([p = std::make_unique<std::array<int, 40>>(a)](F const &x) { return produce<T>(BIG_STATE, F::index, p ? (*p)[20] : -1, x.value(), &x); });
            // the functor stays the caller's
            bool got = form == 2 ? MetaType::registerConverter<F, T>(f) : MetaType::registerConverter<F, T>(std::as_const(f));
            check(f.text == s && f.numbers == a, "functor-changed", "the functor given as an lvalue was changed");
            return got;
        }
        }
    }
    static void unreg(int form)
    {
        switch (form)
        {
        case 0: MetaType::unregisterConverter<F, T>(); break;
        case 1: MetaType::unregisterConverter<F const &, T>(); break;
        case 2: MetaType::unregisterConverter<F &, T const &>(); break;
        default: MetaType::unregisterConverter(rtti::metaTypeId<F const>(), rtti::metaTypeId<T &&>()); break;
        }
    }
    static bool has(int form)
    {
        switch (form)
        {
        case 0: return MetaType::hasConverter<F, T>();
        case 1: return MetaType::hasConverter<F const &, T>();
        case 2: return MetaType::hasConverter(rtti::metaTypeId<F &>(), rtti::metaTypeId<T const &>());
        default: return MetaType::hasConverter(MetaType{rtti::metaTypeId<F const>()}, MetaType{rtti::metaTypeId<T>()});
        }
    }
    static POps make() { return POps{F::index, T::index, reg, unreg, has}; }
};
template<int I> template<typename To> To CT<I>::as() const { return produce<To>(METHOD, I, 0, this->value(), this); }
template<int I> template<typename To> To CT<I>::as_ok(bool &ok) const { return produce<To>(METHOD_OK, I, 0, this->value(), this, &ok); }
template<typename To> To CT<3>::as() const { return produce<To>(METHOD, 3, 0, this->value(), this); }
template<typename To> To CT<3>::as_ok(bool &ok) const { return produce<To>(METHOD_OK, 3, 0, this->value(), this, &ok); }

constexpr int NT = 7;
} // namespace ch
