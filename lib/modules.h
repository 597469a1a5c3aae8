// What a program and the modules it loads share: types, and the things a module can be asked to do (C24).
#pragma once
#include <rtti/metadefine.h>
#include <array>
#include <cstdint>
#include <string>
#include <vector>

// told by the program which loads the modules
extern "C" void rvm_born(void const *p, int type);
extern "C" void rvm_dead(void const *p, int type);
extern "C" void rvm_alive(void const *p, int type);
extern "C" void *rvm_leaves();

namespace shared {
template<int Type> struct Life
{
    Life() { rvm_born(this, Type); }
    Life(Life const &o) { rvm_alive(&o, Type); rvm_born(this, Type); }
    Life &operator=(Life const &o) { rvm_alive(this, Type); rvm_alive(&o, Type); return *this; }
    ~Life() { rvm_dead(this, Type); }
};
/// Fits into a variant.
struct Small
{
    int v = 0;
    Small() = default;
    explicit Small(int v) : v(v) {}
    bool operator==(Small const &o) const { return v == o.v; }
    int get() const { return v; }
    int to_int() const { return v * 10 + 3; }
};
struct Big : Life<1>
{
    long pad[6] = {};
    int v = 0;
    Big() = default;
    explicit Big(int v) : v(v) {}
    bool operator==(Big const &o) const { return v == o.v; }
    int get() const { return v; }
};
struct Throwing : Life<2>
{
    int v = 0;
    Throwing() = default;
    explicit Throwing(int v) : v(v) {}
    Throwing(Throwing const &o) : Life<2>(o), v(o.v) {}
    Throwing &operator=(Throwing const &o) { Life<2>::operator=(o); v = o.v; return *this; }
    bool operator==(Throwing const &o) const { return v == o.v; }
};
struct Base : Life<3>
{
    int v = 0;
    Base() = default;
    explicit Base(int v) : v(v) {}
    virtual ~Base() {}
    virtual int kind() const { return 1; }
    int get() const { return v; }
    void set(int x) { v = x; }
    bool operator==(Base const &o) const { return v == o.v; }
    DECLARE_CLASSINFO
};
struct Mixin
{
    int m = 77;
    Mixin() = default;
    explicit Mixin(int v) : m(v) {}
    virtual ~Mixin() {}
    int get() const { return m; }
    void set(int x) { m = x; }
    bool operator==(Mixin const &o) const { return m == o.m; }
    DECLARE_CLASSINFO
};
struct Derived : Base
{
    Derived() = default;
    explicit Derived(int v) : Base(v) {}
    int kind() const override { return 2; }
    DECLARE_CLASSINFO
};
struct Leaf : Mixin, virtual Derived
{
    Leaf() = default;
    explicit Leaf(int v) : Derived(v) {}
    int get() const { return v; }
    void set(int x) { v = x; }
    int kind() const override { return 3; }
    bool operator==(Leaf const &o) const { return v == o.v; }
    DECLARE_CLASSINFO
};
template<typename T> struct Box : Life<4>
{
    T item;
    int v = 0;
    Box() = default;
    explicit Box(int v) : item(v), v(v) {}
    int get() const { return v; }
    void set(int x) { v = x; }
    bool operator==(Box const &o) const { return v == o.v && item == o.item; }
};
enum class Color : short { red = 1, green, blue };
union Either { int i; float f; };
namespace deep { template<int N, typename ...> struct Tag { int v = 0; Tag() = default; explicit Tag(int v) : v(v) {} bool operator==(Tag const &o) const { return v == o.v; } }; }
/// Types only some modules use.
template<int N> struct Fresh { int v = 0; long pad[4] = {}; Fresh() = default; explicit Fresh(int v) : v(v) {} bool operator==(Fresh const &o) const { return v == o.v; } };

inline Leaf *leaves() { return static_cast<Leaf *>(rvm_leaves()); }

template<typename T> struct Val
{
    static T make(int n) { return T(n); }
    static int get(T const &t) { return t.v; }
};
template<> struct Val<int> { static int make(int n) { return n; } static int get(int t) { return t; } };
template<> struct Val<double> { static double make(int n) { return n + 0.5; } static int get(double t) { return int(t - 0.5); } };
template<> struct Val<std::string> { static std::string make(int n) { return "a text longer than what fits " + std::to_string(n); } static int get(std::string const &t) { return std::stoi(t.substr(29)); } };
template<> struct Val<std::vector<std::string>>
{
    static std::vector<std::string> make(int n) { return {"x", std::to_string(n)}; }
    static int get(std::vector<std::string> const &t) { return std::stoi(t.at(1)); }
};
template<> struct Val<Color> { static Color make(int n) { return Color(n); } static int get(Color t) { return int(t); } };
template<> struct Val<std::array<int, 9>>
{
    static std::array<int, 9> make(int n) { std::array<int, 9> a{}; a[8] = n; return a; }
    static int get(std::array<int, 9> const &t) { return t[8]; }
};
template<> struct Val<Mixin> { static Mixin make(int n) { return Mixin(n); } static int get(Mixin const &t) { return t.m; } };
// the program owns what these point to, n is small
template<> struct Val<Base *> { static Base *make(int n) { return leaves() + n % 8; } static int get(Base *t) { return t->v; } };
template<> struct Val<Base const *> { static Base const *make(int n) { return leaves() + n % 8; } static int get(Base const *t) { return t->v; } };
template<> struct Val<Leaf *> { static Leaf *make(int n) { return leaves() + n % 8; } static int get(Leaf *t) { return t->v; } };

template<typename ...T> struct Types { static constexpr int count = sizeof...(T); };
using All = Types<int, double, std::string, Small, Big, Throwing, Base, Mixin, Derived, Leaf, Box<Small>, Box<Box<Small>>, Color,
    std::vector<std::string>, std::array<int, 9>, Base *, Base const *, Leaf *, deep::Tag<3>, deep::Tag<3, int, deep::Tag<0>>>;
constexpr int TYPES = All::count;
enum TypeIndex { INT, DOUBLE, STRING, SMALL, BIG, THROWING, BASE, MIXIN, DERIVED, LEAF, BOX, BOXBOX, COLOR, VECTOR, ARRAY, BASE_P, CBASE_P, LEAF_P };
constexpr bool is_pointer(int t) { return t == BASE_P || t == CBASE_P || t == LEAF_P; }

// classes that can be defined
using Classes = Types<Base, Mixin, Derived, Leaf, Box<Small>>;
constexpr int CLASSES = Classes::count;
inline char const *const class_names[CLASSES] = {"Base", "Mixin", "Derived", "Leaf", "BoxOfSmall"};
inline char const *const space_names[2] = {"one", "two"};

// converters: Small -> int, Big -> Small, Base -> Big, Box<Small> -> Base
constexpr int CONVERTERS = 4, FRESH = 6;
inline int const conv_from[CONVERTERS] = {SMALL, BIG, BASE, BOX}, conv_to[CONVERTERS] = {INT, SMALL, BIG, BASE};
enum Failure { CAST, CONVERT, NO_CLASS, ARGUMENT, INVOKE, REFUSED, FAILURES };

/// One type, the way a module sees it.
struct TypeApi
{
    std::size_t (*id)();
    std::size_t (*ids)(std::size_t *out);                      // of the types made from it
    void (*describe)(std::string &out);
    void (*make)(int n, rtti::variant &to);                   // a variant made here is assigned
    void (*fresh)(int n, void *where);                        // a variant is made there
    bool (*is)(rtti::variant const &);
    int (*read)(rtti::variant const &, int way);
    int (*to)(rtti::variant const &);                         // converts
    bool (*canconvert)(rtti::variant const &);
    void (*write)(rtti::variant &, int n);
    bool (*equal)(rtti::variant const &, int n);
    void *(*meta_new)(int n);                                  // the type's own functions, by way of its id
    int (*meta_copy)(void const *object, int n);               // copies, looks, destroys; <0: bad
    void (*meta_delete)(void *object);
};
struct ModApi
{
    int number;
    TypeApi const *types;
    // variants of any type
    void (*copy)(rtti::variant const &from, rtti::variant &to);
    void (*copy_new)(rtti::variant const &from, void *where);
    void (*move)(rtti::variant &from, rtti::variant &to);
    void (*swap)(rtti::variant &, rtti::variant &);
    void (*clear)(rtti::variant &);
    void (*destroy)(rtti::variant *);
    bool (*equal)(rtti::variant const &, rtti::variant const &);
    std::size_t (*type_of)(rtti::variant const &);
    bool (*empty)(rtti::variant const &);
    // classes
    void (*define)(int c);
    void (*define_lazy)(int c);
    bool (*known)(int c);
    char const *(*look)(int c, unsigned mask, unsigned inherited, int n);          // what is wrong, if anything
    char const *(*cast)(Base *, Mixin *, Leaf *expected);      // both are parts of it
    char const *(*class_of)(Base &, Leaf &);
    char const *(*part)(rtti::variant const &leaf, int n);
    // converters
    bool (*reg)(int c, bool common);
    void (*unreg)(int c);
    bool (*has)(int c);
    // errors
    void (*fail)(int kind);                                    // throws
    int (*caught)(void (*f)(int), int kind);                   // calls, tells what was caught
    // types only some use
    std::size_t (*fresh_id)(int n);
    std::size_t (*fresh_by_name)(int n);
    int (*fresh_variant)(int n);
    int (*fresh_meta)(int n);
};
} // namespace shared
