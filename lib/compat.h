#pragma once
#include <rtti/metatype.h>
#include <vector>
struct Ent
{
    int base;
    char const *shape;      // "p1a3b0": pointer (const), array of 3, base
    int ref;                // 0 none, 1 &, 2 &&
    rtti::MetaType_ID id;
};
