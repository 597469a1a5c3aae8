// Canonical names of types, spelled by this file alone, and the vocabulary of the generated programs of C25.
#pragma once
#include "rv.h"
#include <rtti/typelist.h>
#include <rtti/function_traits.h>
#include <rtti/sfinae.h>
#include <rtti/misc_traits.h>
#include <functional>
#include <list>
#include <tuple>
#include <type_traits>
#include <vector>

namespace tl {

template<int N> struct Tag { int v; };
struct Open { int a; };
struct NoEq { int v; };
struct WithEq { bool operator==(WithEq const &) const { return true; } };
struct QuietEq { bool operator==(QuietEq const &) const noexcept { return true; } };
struct MutEq { bool operator==(MutEq const &) { return true; } };
enum class En { a };

template<class T> using K = T const;
template<class T> using V = T volatile;
template<class T> using P = T *;
template<class T> using L = T &;
template<class T> using R = T &&;
template<int N, class T> using A = T[N];
template<class T> using U = T[];
template<class Re, class ...Args> using Fn = Re(Args...);
template<class Re, class ...Args> using FnN = Re(Args...) noexcept;
template<class ...T> struct Pack {};
template<int ...N> struct Nums {};
template<class T, int N> struct TypeNum {};
template<int N, class T> struct NumType {};
template<class T, class S> struct Pair { using type = Pair; };

template<class T> std::string nm();
template<class ...T> std::string nms()
{
    std::string s;
    ((s += s.empty() ? nm<T>() : "," + nm<T>()), ...);
    return s;
}
template<class T> struct Base;
#define TL_BASE(...) template<> struct Base<__VA_ARGS__> { static std::string get() { return #__VA_ARGS__; } };
TL_BASE(void) TL_BASE(bool) TL_BASE(char) TL_BASE(unsigned char) TL_BASE(int) TL_BASE(unsigned) TL_BASE(long) TL_BASE(double)
TL_BASE(Open) TL_BASE(NoEq) TL_BASE(WithEq) TL_BASE(QuietEq) TL_BASE(MutEq) TL_BASE(En)
template<int N> struct Base<Tag<N>> { static std::string get() { return "Tag" + std::to_string(N); } };
template<class ...T> struct Base<mpl::type_list<T...>> { static std::string get() { return "[" + nms<T...>() + "]"; } };
template<class ...T> struct Base<std::tuple<T...>> { static std::string get() { return "{" + nms<T...>() + "}"; } };
template<class ...T> struct Base<Pack<T...>> { static std::string get() { return "Pack<" + nms<T...>() + ">"; } };
template<int ...N> struct Base<Nums<N...>> { static std::string get() { std::string s = "Nums<"; ((s += std::to_string(N) + ";"), ...); return s + ">"; } };
template<class T, int N> struct Base<TypeNum<T, N>> { static std::string get() { return "TypeNum<" + nm<T>() + ";" + std::to_string(N) + ">"; } };
template<int N, class T> struct Base<NumType<N, T>> { static std::string get() { return "NumType<" + std::to_string(N) + ";" + nm<T>() + ">"; } };
template<class T, class S> struct Base<Pair<T, S>> { static std::string get() { return "<" + nm<T>() + "|" + nm<S>() + ">"; } };
template<class Re, class ...T> struct Base<Re(T...)> { static std::string get() { return "F(" + nm<Re>() + ";" + nms<T...>() + ")"; } };
template<class Re, class ...T> struct Base<Re(T...) noexcept> { static std::string get() { return "FN(" + nm<Re>() + ";" + nms<T...>() + ")"; } };
template<class F> struct Base<std::function<F>> { static std::string get() { return "function<" + nm<F>() + ">"; } };
template<class C, class M> struct Base<M C::*> { static std::string get() { return "M(" + nm<C>() + ";" + nm<M>() + ")"; } };
template<std::size_t ...N> struct Base<mpl::index_sequence<N...>>
{ static std::string get() { std::string s = "I"; ((s += std::to_string(N) + ";"), ...); return s; } };

template<class T> std::string nm()
{
    if constexpr (std::is_lvalue_reference_v<T>) return "L(" + nm<std::remove_reference_t<T>>() + ")";
    else if constexpr (std::is_rvalue_reference_v<T>) return "R(" + nm<std::remove_reference_t<T>>() + ")";
    else if constexpr (std::is_array_v<T> && std::extent_v<T> == 0) return "U(" + nm<std::remove_extent_t<T>>() + ")";
    else if constexpr (std::is_array_v<T>) return "A" + std::to_string(std::extent_v<T>) + "(" + nm<std::remove_extent_t<T>>() + ")";
    else if constexpr (std::is_const_v<T>) return "K(" + nm<std::remove_const_t<T>>() + ")";
    else if constexpr (std::is_volatile_v<T>) return "V(" + nm<std::remove_volatile_t<T>>() + ")";
    else if constexpr (std::is_pointer_v<T>) return "P(" + nm<std::remove_pointer_t<T>>() + ")";
    else return Base<T>::get();
}
template<class T> std::string show(T const &v)
{
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else return std::to_string(v);
}

// functions for map, filter and folds
template<class T> struct AddP { using type = T *; };
template<class T> struct Wrap { using type = Pack<T>; };
template<class T> struct IsP : std::is_pointer<T> {};
template<class T> struct IsK : std::is_const<T> {};
template<class T> struct NotInt : std::bool_constant<!std::is_same_v<T, int>> {};
template<class T> struct All : std::true_type {};
template<class T> struct None : std::false_type {};
template<class S, class T> struct FoldPair { using type = Pair<S, T>; };

struct Fact { char const *key, *what; std::string got; char const *want; };
inline std::vector<Fact> &facts() { static std::vector<Fact> *f = new std::vector<Fact>; return *f; }
using Filler = void (*)(std::vector<Fact> &);

} // namespace tl

HAS_TYPE(inner)
HAS_METHOD(f)
HAS_METHOD(g)
CAN_CALL_METHOD(f)
CAN_CALL_METHOD(g)
