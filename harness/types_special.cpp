// Types the compiler prints alike. Compiled twice, with SPECIAL naming the function.
#include <rtti/metatype.h>

template<auto V> struct SpA {};
inline void sp_f(int) {}
inline void sp_f(long) {}
namespace { struct Hidden { int x; }; }

#define ID(t) return rtti::metaTypeId<t>()
static rtti::MetaType_ID other_function(int k)
{
    auto l = [](int) { return 1; };
    struct L { long b; };
    if (k == 10) return rtti::metaTypeId<decltype(l)>();
    ID(L);
}
rtti::MetaType_ID SPECIAL(int k)
{
#ifdef ANON
    (void)k;
    ID(Hidden);
#else
    auto l1 = [](int) { return 1; };
    auto l2 = [](int) { return 2; };
    enum { x1 } e1 = x1;
    enum { x2, x3 } e2 = x2;
    (void)l1; (void)l2; (void)e1; (void)e2;
    switch (k)
    {
    case 0: return rtti::metaTypeId<decltype(l1)>();
    case 1: return rtti::metaTypeId<decltype(l2)>();
    case 2: { struct L { int a; }; ID(L); }
    case 3: { struct L { char a[9]; }; ID(L); }
    case 4: ID(SpA<1>);
    case 5: ID(SpA<1u>);
    case 6: { using T = SpA<static_cast<void (*)(int)>(&sp_f)>; ID(T); }
    case 7: { using T = SpA<static_cast<void (*)(long)>(&sp_f)>; ID(T); }
    case 8: return rtti::metaTypeId<decltype(e1)>();
    case 9: return rtti::metaTypeId<decltype(e2)>();
    case 12: return rtti::metaTypeId<decltype(l1) *>();
    case 13: return rtti::metaTypeId<decltype(l1) const *>();
    case 21: ID(std::nullptr_t);
    case 22: ID(std::nullptr_t const);
    case 20: ID(Hidden);
    case 10: case 11: return other_function(k);
    }
    return {};
#endif
}
