// What the compiler says about a type, computed without the library's own traits.
#pragma once
#include <rtti/metatype.h>
#include <array>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace tg {

struct Empty {};
struct Pod { int a; char b; };
struct Final final { int x; };
struct Poly { virtual ~Poly() {} int x; };
struct Abstract { virtual void f() = 0; virtual ~Abstract() {} };
struct Derived : Poly { int y; };
struct VirtBase : virtual Poly {};
struct VirtBase2 : virtual Poly {};
struct Diamond : VirtBase, VirtBase2 {};
struct NoCopy { NoCopy() {} NoCopy(NoCopy const &) = delete; NoCopy &operator=(NoCopy const &) = delete; };
struct NoMove { NoMove() {} NoMove(NoMove &&) = delete; };
struct NoDefault { NoDefault(int) {} };
struct NoAssign { int const c = 0; NoAssign &operator=(NoAssign const &) = delete; NoAssign(NoAssign const &) {} NoAssign() {} };
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly &&) {} MoveOnly &operator=(MoveOnly &&) { return *this; } };
struct NoEq { int x; };
struct WithEq { int x; friend bool operator==(WithEq const &, WithEq const &) { return true; } };
struct NonTrivial { NonTrivial() {} NonTrivial(NonTrivial const &) {} ~NonTrivial() {} private: int a = 0; public: int b = 0; };
struct alignas(64) Over { char c; };
struct Big { char c[1000]; };
namespace ns1 { struct Same { int a; }; }
namespace ns2 { struct Same { char a; }; }
struct Outer { struct Inner { int z; }; enum class E { q }; };
template<typename T> struct Tmpl { T t; };
template<char C> struct Chr { char c; };
template<typename A, typename B> struct Two { A a; B b; };
template<int N> struct Num { int n; };
template<typename... T> struct Pack {};
template<typename T> struct Tag {};
template<int N> struct Wide { long a[N]; virtual ~Wide() {} };
template<template<typename...> class C> struct TT {};
struct Huge { char c[0x140000000ull]; };          // never made, only described
// names of hundreds and thousands of characters which differ at one end or in the middle only
template<typename A, typename B, typename C> struct a_template_with_quite_a_long_name_of_its_own {};
template<typename A, typename M, typename Z, int N> struct stretch
{
    using inner = typename stretch<A, M, Z, N - 1>::type;
    using type = a_template_with_quite_a_long_name_of_its_own<inner, char, inner>;
};
template<typename A, typename M, typename Z> struct stretch<A, M, Z, 0> { using type = a_template_with_quite_a_long_name_of_its_own<A, M, Z>; };
template<typename A, typename M, typename Z, int N>
using Long = a_template_with_quite_a_long_name_of_its_own<
    a_template_with_quite_a_long_name_of_its_own<A, typename stretch<int, int, int, N>::type, int>,
    a_template_with_quite_a_long_name_of_its_own<int, M, int>,
    a_template_with_quite_a_long_name_of_its_own<int, typename stretch<int, int, int, N>::type, Z>>;
enum class E1 : unsigned char { a, b };
enum E2 { e2a, e2b };
enum class E3 : long long { z };
union U1 { int a; char b[8]; };
union U2 { int a; U1 u; };

template<typename T> using same_t = T;
template<typename T> using add_ptr = T *;
template<typename T, std::size_t N> using arr = T[N];
template<typename T, int N> struct deep_ptr { using type = typename deep_ptr<T, N - 1>::type *; };
template<typename T> struct deep_ptr<T, 0> { using type = T; };
template<typename T, int N> using deep = typename deep_ptr<T, N>::type;

// --- independent oracle -----------------------------------------------------------------------------
template<typename T> struct strip { using type = std::remove_cv_t<T>; };          // cv at every level
template<typename T> struct strip<T *> { using type = typename strip<T>::type *; };
template<typename T> struct strip<T *const> : strip<T *> {};
template<typename T> struct strip<T *volatile> : strip<T *> {};
template<typename T> struct strip<T *const volatile> : strip<T *> {};
template<typename T, std::size_t N> struct strip<T[N]> { using type = typename strip<T>::type[N]; };
template<typename T, std::size_t N> struct strip<T const[N]> { using type = typename strip<T>::type[N]; };
template<typename T, std::size_t N> struct strip<T volatile[N]> { using type = typename strip<T>::type[N]; };
template<typename T, std::size_t N> struct strip<T const volatile[N]> { using type = typename strip<T>::type[N]; };

template<typename T> struct bottom { using type = std::remove_cv_t<T>; };          // below refs, pointers, arrays
template<typename T> struct bottom<T &> : bottom<T> {};
template<typename T> struct bottom<T &&> : bottom<T> {};
template<typename T> struct bottom<T *> : bottom<T> {};
template<typename T> struct bottom<T *const> : bottom<T> {};
template<typename T> struct bottom<T *volatile> : bottom<T> {};
template<typename T> struct bottom<T *const volatile> : bottom<T> {};
template<typename T, std::size_t N> struct bottom<T[N]> : bottom<T> {};
template<typename T, std::size_t N> struct bottom<T const[N]> : bottom<T> {};
template<typename T, std::size_t N> struct bottom<T volatile[N]> : bottom<T> {};
template<typename T, std::size_t N> struct bottom<T const volatile[N]> : bottom<T> {};

template<typename T> struct depth { static constexpr int value = 0; };
template<typename T> struct depth<T *> { static constexpr int value = 1 + depth<T>::value; };
template<typename T> struct depth<T *const> : depth<T *> {};
template<typename T> struct depth<T *volatile> : depth<T *> {};
template<typename T> struct depth<T *const volatile> : depth<T *> {};
template<typename T, std::size_t N> struct depth<T[N]> : depth<T> {};
template<typename T, std::size_t N> struct depth<T const[N]> : depth<T> {};
template<typename T, std::size_t N> struct depth<T volatile[N]> : depth<T> {};
template<typename T, std::size_t N> struct depth<T const volatile[N]> : depth<T> {};

template<typename T, typename = void> struct eq : std::false_type {};
template<typename T> struct eq<T, std::void_t<decltype(std::declval<T const &>() == std::declval<T const &>())>> : std::true_type {};

template<typename T> constexpr std::size_t size()
{
    using U = std::remove_reference_t<T>;
    if constexpr(std::is_void_v<U> || std::is_function_v<U>) return 0;
    else return sizeof(U);
}

struct Info
{
    int index, tu;
    char const *spell;
    rtti::MetaType_ID (*id)();
    rtti::MetaType_ID (*type_id)();       // through metaType<T>()
    rtti::MetaType_ID (*decay)();
    std::string_view (*name)();
    std::size_t size;
    int arity;
    bool is_void, is_function, decayed;
    std::uint32_t flags;                  // expected, except EQ_Comparable
    int eq;                               // expected EQ_Comparable, -1: not judged
    bool p_const, p_lref, p_rref, p_class, p_ptr, p_voidptr, p_classptr, p_fnptr, p_array;
};

template<typename T> Info info(int index, int tu, char const *spell)
{
    using N = std::remove_reference_t<T>;
    using B = typename bottom<T>::type;
    using D = typename strip<std::decay_t<T>>::type;
    Info r{};
    r.index = index;
    r.tu = tu;
    r.spell = spell;
    r.id = [] { return rtti::metaTypeId<T>(); };
    r.type_id = [] { return rtti::metaType<T>().typeId(); };
    r.decay = [] { return rtti::metaTypeId<D>(); };
    r.name = [] { return rtti::type_name<T>(); };
    r.size = size<T>();
    r.arity = depth<N>::value;
    r.is_void = std::is_void_v<T>;
    r.is_function = std::is_function_v<N>;
    r.decayed = std::is_same_v<T, D>;
    std::uint32_t f = 0;
    int bit = 0;
    auto put = [&](bool on) { if (on) f |= 1u << bit; ++bit; };
    put(std::is_const_v<N>);
    put(std::is_pointer_v<N>);
    put(std::is_member_pointer_v<N>);
    put(std::is_lvalue_reference_v<T>);
    put(std::is_rvalue_reference_v<T>);
    put(std::is_array_v<std::remove_pointer_t<N>>);
    put(std::is_void_v<B>);
    put(std::is_integral_v<B>);
    put(std::is_floating_point_v<B>);
    put(std::is_enum_v<B>);
    put(std::is_function_v<B>);
    put(std::is_union_v<B>);
    put(std::is_class_v<B>);
    put(std::is_standard_layout_v<B>);
    put(std::is_trivial_v<B>);
    put(std::is_abstract_v<B>);
    put(std::is_polymorphic_v<B>);
    put(std::is_default_constructible_v<B>);
    put(std::is_copy_constructible_v<B>);
    put(std::is_copy_assignable_v<B>);
    put(std::is_move_constructible_v<B>);
    put(std::is_move_assignable_v<B>);
    put(std::is_destructible_v<B>);
    r.flags = f;
    if constexpr(std::is_void_v<T> || std::is_array_v<N> || std::is_pointer_v<N> || std::is_function_v<N>) r.eq = -1;
    else r.eq = eq<std::remove_cv_t<N>>::value;
    r.p_const = std::is_const_v<N>;
    r.p_lref = std::is_lvalue_reference_v<T>;
    r.p_rref = std::is_rvalue_reference_v<T>;
    r.p_class = std::is_class_v<N>;
    r.p_ptr = std::is_pointer_v<N>;
    r.p_voidptr = std::is_pointer_v<N> && std::is_void_v<std::remove_pointer_t<N>>;
    r.p_classptr = std::is_pointer_v<N> && std::is_class_v<std::remove_pointer_t<N>>;
    r.p_fnptr = std::is_pointer_v<N> && std::is_function_v<std::remove_pointer_t<N>>;
    r.p_array = std::is_array_v<N>;
    return r;
}

#define DESCRIBE(k) void describe_##k(std::vector<Info> &);
DESCRIBE(0) DESCRIBE(1) DESCRIBE(2) DESCRIBE(3) DESCRIBE(4) DESCRIBE(5) DESCRIBE(6) DESCRIBE(7)
#undef DESCRIBE

} // namespace tg
