// The palette of value types used by the checks of variants: for every kind of
// type that the library treats differently, how to make, read and change a
// value of it, plus type-erased entry points to the variant API for that type.
#pragma once
#include "tracked.h"
#include <rtti/metadefine.h>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace kinds {
using namespace rv;

enum class Color : short { A, B, C, D };
struct Empty {};
struct Blob { int b[60]; };
inline bool operator==(Blob const &a, Blob const &b) { return a.b[0] == b.b[0] && a.b[59] == b.b[59]; }
struct Poly
{
    Tr<90, 4> t;
    int v;
    explicit Poly(int p = 0) : t(p), v(p) {}
    Poly(Poly const &) = default;
    Poly(Poly &&) noexcept = default;
    Poly &operator=(Poly const &) = default;
    virtual ~Poly() {}
    virtual int get() const { return v; }
};
inline bool operator==(Poly const &a, Poly const &b) { return a.v == b.v; }

// knows where it lives; fits into a variant
struct Selfish
{
    Selfish *self;
    int v;
    explicit Selfish(int p = 0) noexcept : self(this), v(p) {}
    Selfish(Selfish const &o) noexcept : self(this), v(o.value()) {}
    Selfish(Selfish &&o) noexcept : self(this), v(o.value()) { o.v = -1; }
    Selfish &operator=(Selfish const &o) noexcept { v = o.value(); return *this; }
    ~Selfish() { value(); self = nullptr; }
    int value() const
    {
        if (self != this)
        {
            Monitoring m;
            viol("not-where-it-was-made", fmt("an object that was made at %p is used at %p", (void const *)self, (void const *)this));
        }
        return v;
    }
};
inline bool operator==(Selfish const &a, Selfish const &b) { return a.value() == b.value(); }

using Small  = Tr<1, 4>;
using Mid    = Tr<2, 16>;
using Big    = Tr<3, 64>;
using ThrowMove = Tr<4, 8, CanCopy | CanMove | HasEq | CanDefault | CanAssign>;
using MoveOnlyS = Tr<5, 8, CanMove | MoveNoexcept | HasEq | CanDefault>;
using MoveOnlyB = Tr<6, 48, CanMove | MoveNoexcept | HasEq>;
using MoveOnlyThrow = Tr<7, 8, CanMove | HasEq>;
using CopyOnlyS = Tr<8, 8, CanCopy | CopyNoexcept | HasEq | CanAssign>;
using CopyOnlyB = Tr<9, 40, CanCopy | HasEq>;
using Over32 = Tr<10, 8, Full, 32>;
using Over16 = Tr<11, 16, Full, 16>;
using Over128 = Tr<12, 200, Full, 128>;
using NoEq = Tr<13, 8, CanCopy | CanMove | MoveNoexcept>;
using Edge24 = Tr<14, 24>;

inline int g_ints[8] = {0, 1, 2, 3, 4, 5, 6, 7};
inline char const *g_strs[8] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7"};
inline int f0(int) { return 0; }
inline int f1(int) { return 1; }
inline int f2(int) { return 2; }
inline int f3(int) { return 3; }
using Fn = int (*)(int);
inline Fn g_fns[4] = {f0, f1, f2, f3};
struct MemHost { int a, b, c; };

constexpr long BAD = -987654;

template<typename T, typename = void> struct Io;

template<typename T> struct Io<T, std::enable_if_t<std::is_arithmetic_v<T>>>
{
    static constexpr int dom = std::is_same_v<T, bool> ? 2 : 100;
    static void init(T *w, int p) { new (w) T(static_cast<T>(p)); }
    static long read(T const &t) { return static_cast<long>(t); }
    static void write(T &t, int p) { t = static_cast<T>(p); }
};
template<int G, std::size_t S, unsigned F, std::size_t A> struct Io<Tr<G, S, F, A>>
{
    using T = Tr<G, S, F, A>;
    static constexpr int dom = 100;
    static void init(T *w, int p) { new (w) T(p); }
    static long read(T const &t) { return t.value(); }
    static void write(T &t, int p) { ledger().use(&t, T::name(), "write"); t.v = p; }
};
template<> struct Io<std::string>
{
    static constexpr int dom = 100;
    // long enough not to fit into the string itself for odd payloads
    static std::string text(int p) { return p % 2 ? "a rather long text that needs storage of its own #" + std::to_string(p) : std::to_string(p); }
    static void init(std::string *w, int p) { new (w) std::string(text(p)); }
    static long read(std::string const &t)
    {
        auto k = t.find('#');
        auto s = k == std::string::npos ? t : t.substr(k + 1);
        if (s.empty()) return -1;
        long v = std::atol(s.c_str());
        return text(int(v)) == t ? v : BAD;
    }
    static void write(std::string &t, int p) { t = text(p); }
};
template<> struct Io<std::vector<int>>
{
    using T = std::vector<int>;
    static constexpr int dom = 100;
    static void init(T *w, int p) { new (w) T(std::size_t(p) % 5 + 1, p); }
    static long read(T const &t)
    {
        if (t.empty()) return -1;
        for (int i : t) if (i != t[0]) return BAD;
        return t.size() == std::size_t(t[0]) % 5 + 1 ? t[0] : BAD;
    }
    static void write(T &t, int p) { t.assign(std::size_t(p) % 5 + 1, p); }
};
template<> struct Io<Color>
{
    static constexpr int dom = 4;
    static void init(Color *w, int p) { *w = Color(p); }
    static long read(Color const &t) { return long(t); }
    static void write(Color &t, int p) { t = Color(p); }
};
template<> struct Io<Empty>
{
    static constexpr int dom = 1;
    static void init(Empty *w, int) { new (w) Empty; }
    static long read(Empty const &) { return 0; }
    static void write(Empty &, int) {}
};
template<> struct Io<Blob>
{
    static constexpr int dom = 100;
    static void write(Blob &t, int p) { for (int i = 0; i < 60; ++i) t.b[i] = p * (i + 1); }
    static void init(Blob *w, int p) { new (w) Blob; write(*w, p); }
    static long read(Blob const &t) { for (int i = 0; i < 60; ++i) if (t.b[i] != t.b[0] * (i + 1)) return BAD; return t.b[0]; }
};
template<> struct Io<Poly>
{
    static constexpr int dom = 100;
    static void init(Poly *w, int p) { new (w) Poly(p); }
    static long read(Poly const &t) { return t.get() == t.v ? t.v : BAD; }
    static void write(Poly &t, int p) { t.v = p; }
};
template<> struct Io<Selfish>
{
    static constexpr int dom = 100;
    static void init(Selfish *w, int p) { new (w) Selfish(p); }
    static long read(Selfish const &t) { return t.value(); }
    static void write(Selfish &t, int p) { t.value(); t.v = p; }
};
template<> struct Io<int *>
{
    static constexpr int dom = 8;
    static void init(int **w, int p) { *w = &g_ints[p]; }
    static long read(int *const &t) { return t - g_ints; }
    static void write(int *&t, int p) { t = &g_ints[p]; }
};
template<> struct Io<char const *>
{
    static constexpr int dom = 8;
    static void init(char const **w, int p) { *w = g_strs[p]; }
    static long read(char const *const &t) { for (int i = 0; i < 8; ++i) if (g_strs[i] == t) return i; return BAD; }
    static void write(char const *&t, int p) { t = g_strs[p]; }
};
template<> struct Io<Fn>
{
    static constexpr int dom = 4;
    static void init(Fn *w, int p) { *w = g_fns[p]; }
    static long read(Fn const &t) { for (int i = 0; i < 4; ++i) if (g_fns[i] == t) return i; return BAD; }
    static void write(Fn &t, int p) { t = g_fns[p]; }
};
template<> struct Io<int MemHost::*>
{
    using T = int MemHost::*;
    static constexpr int dom = 3;
    static T of(int p) { return p == 0 ? &MemHost::a : p == 1 ? &MemHost::b : &MemHost::c; }
    static void init(T *w, int p) { *w = of(p); }
    static long read(T const &t) { for (int i = 0; i < 3; ++i) if (of(i) == t) return i; return BAD; }
    static void write(T &t, int p) { t = of(p); }
};
template<> struct Io<std::shared_ptr<Small>>
{
    using T = std::shared_ptr<Small>;
    static constexpr int dom = 100;
    static void init(T *w, int p) { new (w) T(new Small(p)); }
    static long read(T const &t) { return t ? t->value() : -1; }
    static void write(T &t, int p) { t.reset(new Small(p)); }
};
template<> struct Io<std::unique_ptr<Big>>
{
    using T = std::unique_ptr<Big>;
    static constexpr int dom = 100;
    static void init(T *w, int p) { new (w) T(new Big(p)); }
    static long read(T const &t) { return t ? t->value() : -1; }
    static void write(T &t, int p) { t.reset(new Big(p)); }
};
template<> struct Io<std::function<int()>>
{
    using T = std::function<int()>;
    static constexpr int dom = 100;
    static void init(T *w, int p) { new (w) T([p, s = Small(p)] { return s.value() == p ? p : -5; }); }
    static long read(T const &t) { return t ? t() : -1; }
    static void write(T &t, int p) { t = [p, s = Small(p)] { return s.value() == p ? p : -5; }; }
};
// arrays: element i holds payload + i
template<typename E, std::size_t N> struct Io<E[N]>
{
    using T = E[N];
    static constexpr int dom = Io<E>::dom > 10 ? 90 : 2;
    static void init(T *w, int p) { for (std::size_t i = 0; i < N; ++i) Io<E>::init(&(*w)[i], p + int(i)); }
    static long read(T const &t)
    {
        long p = Io<E>::read(t[0]);
        for (std::size_t i = 1; i < N; ++i) if (Io<E>::read(t[i]) != p + long(i)) return BAD;
        return p;
    }
    static void write(T &t, int p) { for (std::size_t i = 0; i < N; ++i) Io<E>::write(t[i], p + int(i)); }
};

// an element whose copies the ledger counts and which can be moved
template<typename E> struct moves_counted : std::false_type {};
template<int G, std::size_t S, unsigned F, std::size_t A>
struct moves_counted<Tr<G, S, F, A>> : std::bool_constant<(F & CanMove) != 0> {};
template<> struct moves_counted<Poly> : std::true_type {};

template<typename T> struct elem { using type = T; };
template<typename T, std::size_t N> struct elem<T[N]> : elem<T> {};

enum Mode { CONST_LVALUE, LVALUE, RVALUE, CONST_RVALUE, REF, CREF, NMODES };
inline char const *mode_name(int m)
{
    static char const *n[] = {"const-lvalue", "lvalue", "rvalue", "const-rvalue", "ref", "cref"};
    return n[m];
}

struct Ops
{
    std::string name;
    bool copy, move, array, small, tracked;
    int dom;
    std::size_t size, align, elems;
    bool dflt;                                        // default constructible
    int dflt_value;                                   // what a default-made one reads as, -1: indeterminate
    rtti::MetaType_ID (*id)();
    rtti::MetaType_ID (*id_const)();
    rtti::MetaType_ID (*id_cref)();
    void *(*create)(int);
    void (*del)(void *);
    long (*read_obj)(void const *);
    void (*write_obj)(void *, int);
    bool (*mode_ok)(int);
    void (*ctor)(void *, void *, int);               // placement-construct a variant
    void (*assign)(rtti::variant &, void *, int);
    bool (*read)(rtti::variant const &, long &, void const *&);
    bool (*is_c)(rtti::variant const &);
    bool (*is_m)(rtti::variant &);
    bool (*write)(rtti::variant &, int);              // false: bad_variant_cast
    bool (*to)(rtti::variant const &, long &);        // false: bad_variant_convert
    bool (*try_convert)(rtti::variant &);
    bool (*convert)(rtti::variant &);
    int (*eq_obj)(rtti::variant const &, void const *); // 0 / 1, -1: threw
    bool movable;                                     // has a move of its own, and the ledger counts its copies
};

template<typename T> struct OpsOf
{
    using V = rtti::variant;
    using E = typename elem<T>::type;
    static constexpr bool copy = std::is_copy_constructible_v<E>;
    static constexpr bool move = std::is_move_constructible_v<E>;
    static constexpr bool array = std::is_array_v<T>;

    static rtti::MetaType_ID id() { return rtti::metaTypeId<T>(); }
    static rtti::MetaType_ID id_const() { return rtti::metaTypeId<T const>(); }
    static rtti::MetaType_ID id_cref() { return rtti::metaTypeId<T const &>(); }
    static constexpr bool dflt = std::is_default_constructible_v<E>;
    static void *create(int p)
    {
        void *w = nullptr;
        if (posix_memalign(&w, std::max<std::size_t>(alignof(T), 16), sizeof(T))) std::abort();
        Io<T>::init(static_cast<T *>(w), p);
        return w;
    }
    template<typename U> static void destroy(U &u) { u.~U(); }
    template<typename U, std::size_t N> static void destroy(U (&u)[N]) { for (auto &e : u) destroy(e); }
    static void del(void *o) { destroy(*static_cast<T *>(o)); std::free(o); }
    static long read_obj(void const *o) { return Io<T>::read(*static_cast<T const *>(o)); }
    static void write_obj(void *o, int p) { Io<T>::write(*static_cast<T *>(o), p); }
    static bool mode_ok(int m)
    {
        switch (m)
        {
        case CONST_LVALUE: case LVALUE: case CONST_RVALUE: return copy;
        case RVALUE: return copy || move;
        default: return true;
        }
    }
    template<typename F> static void with(void *obj, int m, F &&f)
    {
        T &t = *static_cast<T *>(obj);
        switch (m)
        {
        case CONST_LVALUE: if constexpr(copy) f(static_cast<T const &>(t)); break;
        case LVALUE: if constexpr(copy) f(t); break;
        case RVALUE: f(std::move(t)); break;
        case CONST_RVALUE: if constexpr(copy) f(static_cast<T const &&>(t)); break;
        case REF: f(std::ref(t)); break;
        case CREF: f(std::cref(t)); break;
        }
    }
    static void ctor(void *w, void *obj, int m)
    { with(obj, m, [w](auto &&x) { new (w) V(std::forward<decltype(x)>(x)); }); }
    static void assign(V &v, void *obj, int m)
    { with(obj, m, [&v](auto &&x) { v = std::forward<decltype(x)>(x); }); }
    static bool read(V const &v, long &out, void const *&addr)
    {
        try
        {
            auto &r = v.template cref<T>();
            addr = std::addressof(r);
            out = Io<T>::read(r);
            return true;
        }
        catch (rtti::bad_variant_cast &) { return false; }
    }
    static bool is_c(V const &v) { return v.template is<T>(); }
    static bool is_m(V &v) { return v.template is<T>(); }
    static bool write(V &v, int p)
    {
        try { Io<T>::write(v.template ref<T>(), p); return true; }
        catch (rtti::bad_variant_cast &) { return false; }
    }
    static bool to(V const &v, long &out)
    {
        if constexpr(!array && copy)
        {
            try { auto x = v.template to<T>(); out = Io<T>::read(x); return true; }
            catch (rtti::bad_variant_convert &) { return false; }
        }
        else return false;
    }
    static bool try_convert(V &v)
    {
        if constexpr(!array && copy) return v.template tryConvert<T>();
        else return false;
    }
    static bool convert(V &v)
    {
        if constexpr(!array && copy)
        {
            try { v.template convert<T>(); return true; }
            catch (rtti::bad_variant_convert &) { return false; }
        }
        else return false;
    }
    static int eq_obj(V const &v, void const *o)
    {
        try { return v == *static_cast<T const *>(o) ? 1 : 0; }
        catch (rtti::runtime_error &) { return -1; }
    }
    static Ops make(char const *name)
    {
        return Ops{name, copy, move, array,
                   sizeof(T) <= 16 && alignof(T) <= 8 && std::is_nothrow_move_constructible_v<T> && !array, false,
                   Io<T>::dom, sizeof(T), alignof(T), sizeof(T) / sizeof(E), dflt,
                   dflt && std::is_class_v<E> && !std::is_trivially_default_constructible_v<E> ? 0 : -1, id, id_const, id_cref, create, del, read_obj, write_obj, mode_ok, ctor, assign,
                   read, is_c, is_m, write, to, try_convert, convert, eq_obj, moves_counted<E>::value};
    }
};

// compiled in groups, one translation unit each (kinds_group.cpp)
#define RV_KINDS_0(X) X(bool) X(int) X(double) X(long double) X(std::string) X(Color)
#define RV_KINDS_1(X) X(Small) X(Mid) X(Big) X(ThrowMove) X(MoveOnlyS) X(MoveOnlyB)
#define RV_KINDS_2(X) X(MoveOnlyThrow) X(CopyOnlyS) X(CopyOnlyB) X(Over32) X(Over16) X(Over128)
#define RV_KINDS_3(X) X(NoEq) X(Edge24) X(Empty) X(Blob) X(Poly) X(int*)
#define RV_KINDS_4(X) X(char const*) X(Fn) X(int MemHost::*) X(std::shared_ptr<Small>) X(std::unique_ptr<Big>) X(std::vector<int>)
#define RV_KINDS_5(X) X(std::function<int()>) X(int[3]) X(Small[2]) X(Big[3]) X(ThrowMove[2]) X(std::string[2]) X(Selfish[2])
#define RV_KINDS_6(X) X(Over32[2]) X(MoveOnlyS[2]) X(CopyOnlyS[3]) X(int[2][2]) X(Small[2][3]) X(Color[2]) X(int[1]) X(Selfish)

constexpr int GROUPS = 7;
void add_group_0(std::vector<Ops> &); void add_group_1(std::vector<Ops> &); void add_group_2(std::vector<Ops> &);
void add_group_3(std::vector<Ops> &); void add_group_4(std::vector<Ops> &); void add_group_5(std::vector<Ops> &);
void add_group_6(std::vector<Ops> &);

inline std::vector<Ops> const &table()
{
    static std::vector<Ops> const *t = [] {
        auto v = new std::vector<Ops>;
        add_group_0(*v); add_group_1(*v); add_group_2(*v); add_group_3(*v);
        add_group_4(*v); add_group_5(*v); add_group_6(*v);
        return v;
    }();
    return *t;
}
inline int find_kind(std::string_view name)
{
    for (std::size_t i = 0; i < table().size(); ++i) if (table()[i].name == name) return int(i);
    return -1;
}

} // namespace kinds
