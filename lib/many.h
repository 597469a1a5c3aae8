// what many.cpp shares with the files that define its many types, GROUP_SIZE of them in each of GROUPS
#ifndef MANY_H
#define MANY_H
#include "rv.h"
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <functional>
using namespace rv;
using namespace rtti;

constexpr int GROUPS = 8, GROUP_SIZE = 38, TAGS = GROUPS * GROUP_SIZE;
template<int N> struct Tag { int v = 0; };
struct Host { int dummy = 0; explicit Host(int x = 0) : dummy(x) {} };
struct Hub { DECLARE_CLASSINFO public: virtual ~Hub() {} };
template<int N> struct Spoke: Hub { DECLARE_CLASSINFO };

struct ConvOps { bool (*reg)(int); void (*unreg)(); bool (*has)(); long (*use)(int); };
struct ClassOps { void (*define)(bool inside, std::string const &name); MetaType_ID id; };
struct SpokeOps { void (*define)(); MetaType_ID id; };
struct Group
{
    std::vector<ConvOps> converters{};
    std::vector<ClassOps> classes{};
    std::vector<SpokeOps> spokes{};
};
Group group0(); Group group1(); Group group2(); Group group3(); Group group4(); Group group5(); Group group6(); Group group7();
inline Group groups()
{
    Group all;
    for (auto f : {group0, group1, group2, group3, group4, group5, group6, group7})
    {
        auto g = f();
        all.converters.insert(all.converters.end(), g.converters.begin(), g.converters.end());
        all.classes.insert(all.classes.end(), g.classes.begin(), g.classes.end());
        all.spokes.insert(all.spokes.end(), g.spokes.begin(), g.spokes.end());
    }
    return all;
}
#endif
