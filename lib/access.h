// C08: the types variants are filled with and asked for.
#pragma once
#include "kinds.h"

namespace acc {
using namespace kinds;
using rtti::variant;

using pi = int *; using pci = int const *; using ppi = int **; using ppci = int const **; using pcpi = int *const *; using pcpci = int const *const *;
using pppi = int ***; using pcpcpci = int const *const *const *; using ppcpi = int *const **;
using pS = Small *; using pcS = Small const *; using ppS = Small **; using pcpcS = Small const *const *;
using pv = void *; using pcv = void const *; using pc = char *; using pcc = char const *; using ppcc = char const **;
using i3 = int[3]; using i2 = int[2]; using i4 = int[4]; using i22 = int[2][2]; using i32 = int[3][2]; using S2 = Small[2]; using S3 = Small[3]; using M2 = MoveOnlyS[2];
using pi2 = int *[2]; using pci2 = int const *[2]; using pcpi2 = int *const *[2]; using str2 = std::string[2]; using c6 = char[6];
using PM = int MemHost::*; using up = std::unique_ptr<Big>; using sp = std::shared_ptr<Small>; using fn = std::function<int()>; using vi = std::vector<int>; using u8 = unsigned char;
using B3 = Big[3]; using O2 = Over32[2]; using pfn = Fn *; using ld = long double;

#define ACC_0(X) X(bool) X(int) X(unsigned) X(long) X(double) X(float) X(u8) X(char) X(short) X(Color) X(ld)
#define ACC_1(X) X(std::string) X(Small) X(Mid) X(Big) X(ThrowMove) X(MoveOnlyS) X(MoveOnlyB) X(CopyOnlyS) X(CopyOnlyB)
#define ACC_2(X) X(Over32) X(Over128) X(NoEq) X(Poly) X(Empty) X(Blob) X(PM) X(Fn) X(pfn)
#define ACC_3(X) X(pi) X(pci) X(ppi) X(ppci) X(pcpi) X(pcpci) X(pppi) X(pcpcpci) X(ppcpi)
#define ACC_4(X) X(pS) X(pcS) X(ppS) X(pcpcS) X(pv) X(pcv) X(pc) X(pcc) X(ppcc)
#define ACC_5(X) X(i2) X(i3) X(i4) X(i22) X(i32) X(S2) X(S3) X(M2) X(c6)
#define ACC_6(X) X(pi2) X(pci2) X(pcpi2) X(str2) X(up) X(sp) X(fn) X(vi) X(B3) X(O2)
#define ACC_ALL(X) ACC_0(X) ACC_1(X) ACC_2(X) ACC_3(X) ACC_4(X) ACC_5(X) ACC_6(X)

inline char pool[4096];

template<typename T> constexpr bool object_ptr = std::is_pointer_v<T> && !std::is_function_v<std::remove_pointer_t<T>>;
template<typename T> void init(T *w, int p)
{
    if constexpr(std::is_array_v<T>) { for (std::size_t i = 0; i < std::extent_v<T>; ++i) init<std::remove_extent_t<T>>(&(*w)[i], p + int(i)); }
    else if constexpr(std::is_same_v<T, pfn>) *w = &g_fns[p % 4];
    else if constexpr(object_ptr<T>) *w = reinterpret_cast<T>(pool + 16 * p);
    else Io<T>::init(w, p % Io<T>::dom);
}
/// A number that identifies the value (of its first element, for arrays).
template<typename T> long val(T const &t)
{
    if constexpr(std::is_array_v<T>) return val(t[0]);
    else if constexpr(object_ptr<T>) return reinterpret_cast<long>(t);
    else return Io<std::remove_cv_t<T>>::read(t);
}

enum Form { F_VAL, F_CVAL, F_LREF, F_CLREF, F_RREF, F_CRREF, NFORMS };
enum OpKind { REF_M, REF_MC, REF_C, REF_R, RREF, RREF_C, CREF_M, CREF_C, DATA_M, DATA_MC, DATA_C, TO_M, TO_C, CAN_M, CAN_C, NOPKINDS };
inline char const *op_name(int o)
{
    static char const *n[] = {"ref on a variant", "ref to const on a variant", "ref on a const variant", "ref on an rvalue", "rref", "rref to const",
                              "cref on a variant", "cref on a const variant", "data on a variant", "data of const on a variant", "data on a const variant",
                              "to on a variant", "to on a const variant", "canConvert on a variant", "canConvert on a const variant"};
    return n[o];
}
inline char const *form_name(int f)
{
    static char const *n[] = {"T", "T const", "T&", "T const&", "T&&", "T const&&"};
    return n[f];
}

enum Got { REFUSED, OK, OTHER_ERROR, FOREIGN_ERROR, NA };
struct Res { int got; void const *addr; long value; long pointee; };

struct Acc
{
    char const *name;
    bool array, ptr;
    bool (*is)(variant &, bool constant, int form);
    Res (*access)(variant &, int op);
};
struct Held
{
    char const *name;
    bool array, copy;
    std::size_t size;
    void *(*create)(int);
    void (*del)(void *);
    void (*put)(variant &, void *, int mode);       // 0 value, 1 ref, 2 cref
    long (*value)(void const *);
};
/// What C++ says for (held type, asked type).
struct Expect
{
    bool same;               // same decayed type
    bool lref[2], clref[2];  // binding T& / T const& to an lvalue; [1]: const lvalue
    bool val[2];             // as a value
    bool copyable;
};

template<typename T> struct deep_cv { using type = T; };
template<typename T> struct deep_cv<T *> { using type = typename deep_cv<std::remove_cv_t<T>>::type *; };
template<typename T, std::size_t N> struct deep_cv<T[N]> { using type = typename deep_cv<std::remove_cv_t<T>>::type[N]; };
template<typename T, std::size_t N> struct deep_cv<T const[N]> { using type = typename deep_cv<std::remove_cv_t<T>>::type[N]; };
template<typename T> using deep = typename deep_cv<std::remove_cv_t<std::decay_t<T>>>::type;

template<typename S, typename U> constexpr bool bind()
{
    if constexpr(!std::is_same_v<deep<S>, deep<U>>) return false;
    else if constexpr(std::is_array_v<S> && std::is_array_v<U>)
        return sizeof(S) >= sizeof(U) && std::is_convertible_v<std::remove_all_extents_t<S> *, std::remove_all_extents_t<U> *>;
    else if constexpr(std::is_array_v<S>)
        return std::is_const_v<U> && std::is_convertible_v<std::decay_t<S &>, std::remove_cv_t<U>>;
    else if constexpr(std::is_array_v<U>) return false;
    else return std::is_convertible_v<S *, U *>;
}
template<typename S, typename U> constexpr bool as_value()
{
    if constexpr(!std::is_same_v<deep<S>, deep<U>>) return false;
    else if constexpr(std::is_array_v<S> && std::is_array_v<U>)
        return sizeof(S) >= sizeof(U) && as_value<std::remove_extent_t<S>, std::remove_extent_t<U>>();
    else if constexpr(std::is_array_v<S>) return std::is_convertible_v<std::decay_t<S &>, U>;
    else if constexpr(std::is_array_v<U>) return false;
    else if constexpr(std::is_pointer_v<S>) return std::is_convertible_v<std::remove_cv_t<S>, std::remove_cv_t<U>>;
    else return true;
}
template<typename S, typename U> constexpr Expect expect()
{
    return Expect{std::is_same_v<deep<S>, deep<U>>,
                  {bind<S, U>(), bind<S const, U>()}, {bind<S, U const>(), bind<S const, U const>()},
                  {as_value<S, U>(), as_value<S const, U>()}, std::is_copy_constructible_v<std::remove_all_extents_t<U>>};
}

template<typename A> struct AccOf
{
    static bool is(variant &v, bool constant, int form)
    {
        variant const &c = v;
        switch (form)
        {
        case F_VAL: return constant ? c.is<A>() : v.is<A>();
        case F_CVAL: return constant ? c.is<A const>() : v.is<A const>();
        case F_LREF: return constant ? c.is<A &>() : v.is<A &>();
        case F_CLREF: return constant ? c.is<A const &>() : v.is<A const &>();
        case F_RREF: return constant ? c.is<A &&>() : v.is<A &&>();
        default: return constant ? c.is<A const &&>() : v.is<A const &&>();
        }
    }
    template<typename R> static Res found(R const &r)
    {
        Res x{OK, std::addressof(r), val(r), 0};
        return x;
    }
    template<typename P> static Res pointed(P p) { return p ? found(*p) : Res{REFUSED, nullptr, 0, 0}; }
    static Res access(variant &v, int op)
    {
        variant const &c = v;
        bool conv = op == TO_M || op == TO_C;
        try
        {
            switch (op)
            {
            case REF_M: { A &r = v.ref<A>(); return found(r); }
            case REF_MC: { A const &r = v.ref<A const>(); return found(r); }
            case REF_C: { A const &r = c.ref<A>(); return found(r); }
            case REF_R: { A const &r = std::move(v).ref<A>(); return found(r); }
            case RREF: { A &&r = std::move(v).rref<A>(); return found(r); }
            case RREF_C: { A const &&r = std::move(v).rref<A const>(); return found(r); }
            case CREF_M: { A const &r = v.cref<A>(); return found(r); }
            case CREF_C: { A const &r = c.cref<A>(); return found(r); }
            case DATA_M: { A *p = v.data<A>(); return pointed(p); }
            case DATA_MC: { A const *p = v.data<A const>(); return pointed(p); }
            case DATA_C: { A const *p = c.data<A>(); return pointed(p); }
            case TO_M: if constexpr(!std::is_array_v<A>) { A const &r = v.to<A>(); auto x = found(r); x.addr = nullptr; return x; } break;
            case TO_C: if constexpr(!std::is_array_v<A>) { A const &r = c.to<A>(); auto x = found(r); x.addr = nullptr; return x; } break;
            case CAN_M: return Res{v.canConvert<A>() ? OK : REFUSED, nullptr, 0, 0};
            case CAN_C: return Res{c.canConvert<A>() ? OK : REFUSED, nullptr, 0, 0};
            }
            return Res{NA, nullptr, 0, 0};
        }
        catch (rtti::bad_variant_convert &) { return Res{conv ? REFUSED : OTHER_ERROR, nullptr, 0, 0}; }
        catch (rtti::bad_variant_cast &) { return Res{conv ? OTHER_ERROR : REFUSED, nullptr, 0, 0}; }
        catch (rtti::runtime_error &) { return Res{OTHER_ERROR, nullptr, 0, 0}; }
        catch (...) { return Res{FOREIGN_ERROR, nullptr, 0, 0}; }
    }
    static Acc make(char const *name) { return Acc{name, std::is_array_v<A>, std::is_pointer_v<A>, is, access}; }
};
template<typename T> struct HeldOf
{
    static void *create(int p)
    {
        void *w = nullptr;
        if (posix_memalign(&w, std::max<std::size_t>(alignof(T), 16), sizeof(T))) std::abort();
        init(static_cast<T *>(w), p);
        return w;
    }
    static void del(void *o) { OpsOf<T>::destroy(*static_cast<T *>(o)); std::free(o); }
    static void put(variant &v, void *o, int mode)
    {
        T &t = *static_cast<T *>(o);
        if (mode == 1) v = std::ref(t);
        else if (mode == 2) v = std::cref(t);
        else v = std::move(t);
    }
    static long value(void const *o) { return val(*static_cast<T const *>(o)); }
    static Held make(char const *name)
    {
        return Held{name, std::is_array_v<T>, std::is_copy_constructible_v<std::remove_all_extents_t<T>>, sizeof(T), create, del, put, value};
    }
};

constexpr int NGROUPS = 7;
} // namespace acc
