// What modules that are used by several threads at once share: types, and what each can be asked to do (C20, C24).
#pragma once
#include <rtti/metadefine.h>
#include <cstdint>
#include <string>

namespace race {
constexpr int TYPES = 12, FORMS = 7, MODS = 6;
/// Some fit into a variant, some do not.
template<int N> struct R
{
    int v = 0;
    long pad[N % 3 + 1] = {};
    R() = default;
    explicit R(int v) : v(v) { for (auto &p : pad) p = v + N; }
    bool whole() const { for (auto p : pad) if (p != v + N) return false; return true; }
    bool operator==(R const &o) const { return v == o.v; }
};
struct RaceApi
{
    int number;
    std::size_t (*id)(int type, int form);
    std::size_t (*by_name)(int type, int form, bool &whole);
    rtti::variant (*make)(int type, int n);
    int (*read)(rtti::variant const &, int type);               // -1: not one, -2: broken
    bool (*reg)(int type);                                      // a converter to the next type, of this module
    int (*convert)(int type, int n);                            // n * 10 + module, -1: no, -2: wrong
    int (*define)(int type);                                    // a class with something of this module
    int (*look)(int type, int n);                               // how many modules have defined it: as a mask, <0: wrong
};
} // namespace race
