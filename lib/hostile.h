// The world in which everything is called the wrong way (C22).
#pragma once
#include "rv.h"
#include <rtti/metadefine.h>
#include <array>
#include <functional>
#include <memory>

namespace hostile {
using rtti::variant;
enum class Color { Red = 1, Green };
union Uni { int i; float f; };
struct Base
{
    int b = 1;
    Base() {}
    explicit Base(int x) : b(x) {}
    virtual ~Base() {}
    int get() const { return b; }
    int bump(int x) { return b += x; }
    int &ref() { return b; }
    Base *self() { return this; }
    void nothing() const {}
    static std::string join(std::string const &a, int n) { return a + std::to_string(n); }
    int ten(int a, int c, int d, int e, int f, int g, int h, int i, int j) const { return a + c + d + e + f + g + h + i + j; }
    int take(Base const &o) const { return o.b; }
    int take_ptr(Base const *o) const { return o ? o->b : -1; }
    bool operator==(Base const &o) const { return b == o.b; }
    DECLARE_CLASSINFO
};
struct Derived : Base { std::string name = "derived"; int d = 2; std::string const &label() const { return name; } DECLARE_CLASSINFO };
struct Side { virtual ~Side() {} int s = 3; int side() const { return s; } DECLARE_CLASSINFO };
struct Multi : Side, Derived { int m = 4; DECLARE_CLASSINFO };
struct Abstract { virtual ~Abstract() {} virtual int pure() const = 0; DECLARE_CLASSINFO };
struct Concrete : Abstract { int pure() const override { return 5; } DECLARE_CLASSINFO };
struct Unregistered { int u = 6; virtual ~Unregistered() {} DECLARE_CLASSINFO };
struct Lonely { int l = 1; virtual ~Lonely() {} DECLARE_CLASSINFO };
struct Orphan : Unregistered, Lonely { DECLARE_CLASSINFO };
struct Plain { int p = 7; bool operator==(Plain const &o) const { return p == o.p; } };      // registered, without class info
struct Stranger { int q = 8; };                // neither
struct MoveOnly
{
    std::unique_ptr<int> x{new int(9)};
    MoveOnly() {}
    MoveOnly(MoveOnly &&) noexcept = default;
    MoveOnly &operator=(MoveOnly &&) noexcept = default;
};
struct NoDefault { int x; explicit NoDefault(int x) : x(x) {} };
struct Big { long a[9] = {1, 2, 3}; std::string t = "a big one with some text"; };
struct Immovable { int i = 1; Immovable() {} Immovable(Immovable const &) = delete; };
inline int function(int x) { return x + 1; }
inline void no_result() {}

struct World
{
    // what pointers and references in the variants point to
    Base base; Derived derived; Multi multi; Concrete concrete; Unregistered unregistered; Plain plain; Stranger stranger; Side side; Immovable immovable;
    int number = 10; double real = 1.5; std::string text = "some text of its own"; char const *cstr = "c string"; int array[4] = {1, 2, 3, 4};
    int *pointer = &number; Base *base_pointer = &multi; Base const *null_pointer = nullptr; variant inner{std::string("inner")};
    int stat = 11; static int const fixed;
    rtti::MetaNamespace const *ns = nullptr, *scratch = nullptr;
    std::vector<variant> pool;
};
inline World &w() { static auto *p = new World; return *p; }

/// A variant of one of many kinds.
constexpr int KINDS = 58;
variant make(int kind);
/// Names nobody should look for.
std::string hostile_name(rv::Rng &r);
/// What a variant holds, as far as it can be told without disturbing anything.
std::string show(variant const &v);

/// f("name of call", callable); calls with a type as template argument, for group g of types.
struct Result { bool threw = false, ours = true; std::string what; std::string kind; };
using Call = std::pair<std::string, std::function<void(rv::Rng &, variant &)>>;
void typed_calls(std::vector<Call> &to, int group);
constexpr int GROUPS = 6;
/// A call promised that it does not change the variant it is given, or even that it throws.
struct Broken { std::string key, what; };
} // namespace hostile
