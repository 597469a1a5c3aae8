// one of the files with many.cpp's many types: -DGROUP=0..7
#include "many.h"

#ifdef MANY_CONVERTERS
template<int N> struct Conv
{
    static bool reg(int salt) { return MetaType::registerConverter<int, Tag<N>>([salt](int x) { return Tag<N>{x + 1000 * N + salt}; }); }
    static void unreg() { MetaType::unregisterConverter<int, Tag<N>>(); }
    static bool has() { return MetaType::hasConverter<int, Tag<N>>(); }
    static long use(int x)
    {
        variant v{x};
        try { return v.to<Tag<N>>().v; } catch (bad_variant_convert &) { return -1; }
    }
};
#endif

#ifdef MANY_ITEMS
template<int N> static void define_class(bool inside, std::string const &name)
{
    auto g = global_define();
    if (inside) g._namespace("many")._class<Host>("Host").template _class<Tag<N>>(name);
    else g._namespace("many")._class<Tag<N>>(name);
}
#endif

#ifdef MANY_GRAPH
template<int N> static void define_spoke()
{
    auto g = global_define();
    g._namespace("graph")._class<Spoke<N>>(fmt("Spoke%d", N)).template _base<Hub>();
}
#endif

template<int ...N> static Group make(std::integer_sequence<int, N...>)
{
    constexpr int first = GROUP * GROUP_SIZE;
    (void)first;
    Group g;
#ifdef MANY_CONVERTERS
    g.converters = {ConvOps{Conv<first + N>::reg, Conv<first + N>::unreg, Conv<first + N>::has, Conv<first + N>::use}...};
#endif
#ifdef MANY_ITEMS
    g.classes = {ClassOps{define_class<first + N>, metaTypeId<Tag<first + N>>()}...};
#endif
#ifdef MANY_GRAPH
    g.spokes = {SpokeOps{define_spoke<first + N>, metaTypeId<Spoke<first + N>>()}...};
#endif
    return g;
}
#define JOIN2(a, b) a##b
#define JOIN(a, b) JOIN2(a, b)
Group JOIN(group, GROUP)() { return make(std::make_integer_sequence<int, GROUP_SIZE>{}); }
