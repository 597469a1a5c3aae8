// one of deep.cpp's hierarchies: -DGROUP=0..3
#include "deep.h"

#if GROUP == 0
template<int ...N> void chain(std::integer_sequence<int, N...>)
{
    int first = int(nodes.size());
    ([&] {
        auto name = fmt("Chain%d", N);
        bool shared = N == 0 || N == 1 || N == CHAIN / 2 || N == CHAIN - 9;
        if constexpr(N == 0) add<Ch<0>>("deep", name, 0, shared, {});
        else add<Ch<N>, Ch<N - 1>>("deep", name, N, shared, {first + N - 1});
    }(), ...);
    using L = types<Ch<N>...>;
    all_casts<L>(L{}, first);
}
void deep0() { chain(std::make_integer_sequence<int, CHAIN>{}); }
#elif GROUP == 1
template<int ...N> void fan(std::integer_sequence<int, N...>)
{
    int first = int(nodes.size());
    (add<Leg<N>>("deep", fmt("Leg%d", N), N, N % 5 == 3, {}), ...);
    add<TheFan, Leg<N>...>("deep", "Fan", 0, false, {first + N...});
    using L = types<Leg<N>..., TheFan>;
    all_casts<L>(L{}, first);
}
void deep1() { fan(std::make_integer_sequence<int, LEGS>{}); }
#elif GROUP == 2
template<int ...N> void leaves(std::integer_sequence<int, N...>)
{
    int first = int(nodes.size());
    add<Root>("deep", "Root", 0, true, {});
    (add<Leaf<N>, Root>("deep", fmt("Leaf%d", N), N, N % 3 == 1, {first}), ...);
    using L = types<Root, Leaf<N>...>;
    all_casts<L>(L{}, first);
}
void deep2() { leaves(std::make_integer_sequence<int, LEAVES>{}); }
#else
template<typename ...T> void lattice_casts(std::tuple<tag<T>...>, int first) { all_casts<types<T...>>(types<T...>{}, first); }
template<int ...N> void lattice(std::integer_sequence<int, N...>)
{
    int first = int(nodes.size());
    add<Join<0>>("deep", "Join0", 0, true, {});
    ([&] {
        constexpr int M = N + 1;
        add<Half<M, 1>, Join<M - 1>>("deep", fmt("Half%d_1", M), 3 * M + 1, false, {first + 3 * N});
        add<Half<M, 2>, Join<M - 1>>("deep", fmt("Half%d_2", M), 3 * M + 2, M == 3, {first + 3 * N});
        add<Join<M>, Half<M, 1>, Half<M, 2>>("deep", fmt("Join%d", M), 3 * M, M == 2, {first + 3 * N + 1, first + 3 * N + 2});
    }(), ...);
    using L = decltype(std::tuple_cat(std::tuple<tag<Join<0>>>{}, std::tuple<tag<Half<N + 1, 1>>, tag<Half<N + 1, 2>>, tag<Join<N + 1>>>{}...));
    lattice_casts(L{}, first);
}
void deep3() { lattice(std::make_integer_sequence<int, LEVELS>{}); }
#endif
