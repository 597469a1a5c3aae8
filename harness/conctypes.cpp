// Threads use types for the first time, look types up by name, and register, remove, query and use
// converters at the same time. What each saw is recorded; the history of every converter pair has to
// be linearizable, and the ids of types have to be one and the same for everyone.
#include "forked.h"
#define RV_WRAP_LOCKS
#include "delays.h"
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <rtti/metaerror.h>
#include <memory>
#include <set>
#include <thread>
#include <unordered_set>

using namespace rv;
using rtti::MetaType;
using rtti::MetaType_ID;
using rtti::variant;

namespace {
constexpr auto rel = std::memory_order_relaxed;
std::atomic<std::uint64_t> clock_{1};
std::uint64_t tick() { return clock_.fetch_add(1, rel); }
std::string log_;

// ---- types
template<int I> struct Ty { char c[I + 1]; };
constexpr int TYPES = 16, SHAPES = 10;
template<int S, typename T> struct shape;
template<typename T> struct shape<0, T> { using type = T; };
template<typename T> struct shape<1, T> { using type = T const; };
template<typename T> struct shape<2, T> { using type = T *; };
template<typename T> struct shape<3, T> { using type = T const *; };
template<typename T> struct shape<4, T> { using type = T &; };
template<typename T> struct shape<5, T> { using type = T const &; };
template<typename T> struct shape<6, T> { using type = T[3]; };
template<typename T> struct shape<7, T> { using type = T *const *; };
template<typename T> struct shape<8, T> { using type = T &&; };
template<typename T> struct shape<9, T> { using type = T (*)(T const &, T *); };

struct TypeCase
{
    MetaType_ID (*use)();
    MetaType_ID (*decay)();
    std::string_view name;
    std::size_t size;
};
template<typename T> MetaType_ID use() { return rtti::metaTypeId<T>(); }
template<typename T> constexpr std::size_t size_of()
{
    using U = std::remove_reference_t<T>;
    if constexpr (std::is_function_v<U>) return 0; else return sizeof(U);
}
std::vector<TypeCase> types;
template<int I, int ...S> void add_types(std::integer_sequence<int, S...>)
{
    (types.push_back({&use<typename shape<S, Ty<I>>::type>, &use<rtti::full_decay_t<typename shape<S, Ty<I>>::type>>, rtti::type_name<typename shape<S, Ty<I>>::type>(), size_of<typename shape<S, Ty<I>>::type>()}), ...);
}
template<int ...I> void all_types(std::integer_sequence<int, I...>) { (add_types<I>(std::make_integer_sequence<int, SHAPES>{}), ...); }

// ---- converters
template<int I> struct To { int v = -1, k = -1; };
struct Result { int v, k; };
template<int I> struct From
{
    int v = 0;
    To<0> method0() const { return {v, 1000000}; }
    To<1> method1() const { return {v, 1000000}; }
    To<0> method_ok0(bool &ok) const { ok = true; return {v, 2000000}; }
    To<1> method_ok1(bool &ok) const { ok = true; return {v, 2000000}; }
};
template<int J> struct Functor
{
    int k;
    std::unique_ptr<int> held;
    std::vector<int> more;
    explicit Functor(int k) : k(k), held(new int(k)), more(20, k) {}
    Functor(Functor const &o) : Functor(o.k) {}
    Functor(Functor &&) = default;
    template<typename F> To<J> of(F const &f) const { return {f.v, more[std::size_t(f.v % 20)] == k ? *held : -7}; }
};
template<int I, int J> struct F : Functor<J>
{
    using Functor<J>::Functor;
    To<J> operator()(From<I> const &f) const { return this->of(f); }
};
template<int I, int J> To<J> function(From<I> f) { return {f.v, 3000000}; }

enum Op { REG, UNREG, HAS, CONV };
struct Ev
{
    int what, pair;
    std::uint64_t b, e;
    int k;         // of the converter
    bool yes;
};
struct TypeEv { int type; bool by_name; std::uint64_t b, e; std::uintptr_t id; bool right; };
struct Thread
{
    std::vector<Ev> evs;
    std::vector<TypeEv> tys;
    Rng rng{1};
    int id = 0;
    long problems = 0;
};
thread_local Thread *me;

template<int I, int J> struct Pair
{
    static bool reg(int how, int &k)
    {
        switch (how)
        {
        case 0: k = 3000000; return MetaType::registerConverter(&function<I, J>);
        case 1: k = 1000000; return J ? MetaType::registerConverter(&From<I>::method1) : MetaType::registerConverter(&From<I>::method0);
        case 2: k = 2000000; return J ? MetaType::registerConverter(&From<I>::method_ok1) : MetaType::registerConverter(&From<I>::method_ok0);
        case 3:
        {
            // registered under the reference types, which are the same pair
            F<I, J> f(k);
            return MetaType::registerConverter<From<I>, To<J>>(f);
        }
        default: return MetaType::registerConverter<From<I>, To<J>>(F<I, J>(k));
        }
    }
    static bool conv(Rng &r, int v, int &k)
    {
        To<J> out;
        switch (r.below(4))
        {
        case 0:
        {
            variant x = From<I>{v};
            try { out = x.to<To<J>>(); }
            catch (rtti::bad_variant_convert const &) { return false; }
            break;
        }
        case 1:
        {
            variant x = From<I>{v};
            if (!x.tryConvert<To<J>>())
            {
                if (!x.is<From<I>>()) k = -5;
                return false;
            }
            out = x.ref<To<J>>();
            break;
        }
        case 2:
        {
            variant x = From<I>{v};
            try { x.convert<To<J>>(); }
            catch (rtti::bad_variant_convert const &) { return false; }
            out = x.ref<To<J>>();
            break;
        }
        default:
        {
            From<I> f{v};
            variant const x = std::cref(f);
            try { out = x.to<To<J>>(); }
            catch (rtti::bad_variant_convert const &) { return false; }
            break;
        }
        }
        k = out.v == v ? out.k : -6;
        return true;
    }
    static bool has(Rng &r)
    {
        switch (r.below(4))
        {
        case 0: return MetaType::hasConverter<From<I>, To<J>>();
        case 1: return MetaType::hasConverter(rtti::metaTypeId<From<I> const &>(), rtti::metaTypeId<To<J>>());
        case 2: return MetaType::hasConverter(MetaType{rtti::metaTypeId<From<I>>()}, MetaType{rtti::metaTypeId<To<J> &>()});
        default: { variant x = From<I>{1}; return x.canConvert<To<J>>(); }
        }
    }
    static void unreg(Rng &r)
    {
        if (r.chance(1, 2)) MetaType::unregisterConverter<From<I>, To<J>>();
        else MetaType::unregisterConverter(rtti::metaTypeId<From<I> const>(), rtti::metaTypeId<To<J>>());
    }
    static void step()
    {
        auto &r = me->rng;
        Ev e{int(r.below(4)), I * 2 + J, tick(), 0, -1, false};
        switch (e.what)
        {
        case REG: e.k = me->id * 10000 + int(me->evs.size()); e.yes = reg(int(r.below(6)), e.k); break;
        case UNREG: unreg(r); break;
        case HAS: e.yes = has(r); break;
        default: e.yes = conv(r, int(r.below(1000)), e.k); break;
        }
        e.e = tick();
        me->evs.push_back(e);
    }
};
void (*const steps[])() = {&Pair<0, 0>::step, &Pair<0, 1>::step, &Pair<1, 0>::step, &Pair<1, 1>::step, &Pair<2, 0>::step, &Pair<2, 1>::step, &Pair<3, 0>::step, &Pair<3, 1>::step};
constexpr int PAIRS = int(std::size(steps));

/// Is there an order of these operations, agreeing with real time, that a map of one entry could
/// have gone through? 0: no, 1: yes, 2: given up.
int linearizable(std::vector<Ev> const &h)
{
    std::size_t n = h.size();
    if (!n) return 1;
    std::set<std::pair<std::vector<bool>, int>> seen;
    struct Frame { std::vector<bool> done; int state; };
    std::vector<Frame> todo{{std::vector<bool>(n), -1}};
    while (!todo.empty())
    {
        auto f = std::move(todo.back());
        todo.pop_back();
        std::uint64_t first_end = ~0ull;
        bool any = false;
        for (std::size_t i = 0; i < n; ++i) if (!f.done[i]) { first_end = std::min(first_end, h[i].e); any = true; }
        if (!any) return 1;
        for (std::size_t i = 0; i < n; ++i)
        {
            if (f.done[i] || h[i].b > first_end) continue;
            int s = f.state;
            auto &e = h[i];
            bool fits = true;
            switch (e.what)
            {
            case REG: fits = e.yes == (s == -1); if (e.yes) s = e.k; break;
            case UNREG: s = -1; break;
            case HAS: fits = e.yes == (s != -1); break;
            default: fits = e.yes ? e.k == s : s == -1; break;
            }
            if (!fits) continue;
            auto d = f.done;
            d[i] = true;
            if (seen.emplace(d, s).second) todo.push_back({std::move(d), s});
        }
        if (seen.size() > 200000) return 2;
    }
    return 0;
}

void type_step()
{
    auto &r = me->rng;
    int n = int(r.below(types.size()));
    auto &t = types[n];
    TypeEv e{n, r.chance(1, 2), tick(), 0, 0, true};
    if (e.by_name)
    {
        MetaType m{t.name};
        e.id = m.typeId().value();
        e.e = tick();
        if (m.valid())
            e.right = m.typeName() == t.name && m.typeSize() == t.size && MetaType{m.decayId()}.valid();
    }
    else
    {
        auto id = t.use();
        e.id = id.value();
        e.e = tick();
        MetaType m{id};
        e.right = m.valid() && m.typeName() == t.name && m.typeSize() == t.size && m.decayId() == t.decay() && MetaType{t.name}.typeId() == id;
    }
    me->tys.push_back(e);
}

void one(long i, Rng &rng)
{
    int threads = std::stoi(opt("--threads", "2"));
    int ops = rng.range(5, 60), share = rng.range(0, 4), pairs = rng.range(1, PAIRS);
    static unsigned const strengths[] = {0, 2, 8, 24};
    unsigned strength = strengths[rng.below(4)];
    log_ = fmt("%d threads, %d operations, %d/4 on types, %d pairs, delays %u", threads, ops, share, pairs, strength);
    begin_case(i, "registries", log_);
    std::vector<std::unique_ptr<Thread>> data;
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
    {
        data.push_back(std::make_unique<Thread>());
        data.back()->rng = Rng(rng.next());
        data.back()->id = t + 1;
        data.back()->evs.reserve(256);
        data.back()->tys.reserve(256);
    }
    std::atomic<int> ready{0};
    sched::begin(strength);
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            me = data[t].get();
            sched::enter(t, me->rng.next());
            ready.fetch_add(1, rel);
            while (ready.load(rel) < threads) sched_yield();
            for (int k = 0; k < ops; ++k)
                if (int(me->rng.below(4)) < share) type_step();
                else steps[me->rng.below(std::uint64_t(pairs))]();
        });
    for (auto &t : ts) t.join();
    auto schedule = sched::end();
    long judged = 0;
    // types
    std::map<int, std::uintptr_t> ids;
    std::map<int, std::uint64_t> done, begun;
    for (auto &t : data)
        for (auto &e : t->tys)
        {
            ++judged;
            check(e.right, "type-incomplete", std::string(types[e.type].name) + (e.by_name ? " found by name" : " used") + "; " + log_);
            if (!e.by_name)
            {
                auto &d = done.emplace(e.type, ~0ull).first->second;
                d = std::min(d, e.e);
                auto &b = begun.emplace(e.type, ~0ull).first->second;
                b = std::min(b, e.b);
            }
        }
    for (auto &t : data)
        for (auto &e : t->tys)
        {
            ++judged;
            auto name = std::string(types[e.type].name);
            auto at = done.find(e.type);
            if (!e.id)
            {
                check(e.by_name && (at == done.end() || at->second > e.b), "type-missing", name + "; " + log_);
                cov("names not found yet");
                continue;
            }
            auto x = ids.emplace(e.type, e.id).first;
            check(x->second == e.id, "type-two-ids", name + "; " + log_);
            cov(e.by_name ? "names found" : "uses of types");
        }
    std::set<std::uintptr_t> distinct;
    for (auto &x : ids)
    {
        ++judged;
        check(distinct.insert(x.second).second, "type-shares-id", std::string(types[x.first].name) + "; " + log_);
        check(types[x.first].use().value() == x.second, "type-two-ids", std::string(types[x.first].name) + " afterwards; " + log_);
    }
    // converters
    std::vector<Ev> h[PAIRS];
    for (auto &t : data) for (auto &e : t->evs) h[e.pair].push_back(e);
    for (int p = 0; p < PAIRS; ++p)
    {
        std::sort(h[p].begin(), h[p].end(), [](Ev const &a, Ev const &b) { return a.b < b.b; });
        for (auto &e : h[p])
        {
            ++judged;
            static char const *const names[] = {"registrations", "removals", "queries", "conversions"};
            cov(std::string("history: ") + names[e.what]);
            if (e.what == CONV && e.yes) { cov("conversions done"); check(e.k >= 0, "conversion-wrong", fmt("%d; ", e.k) + log_); }
            if (e.what == REG && !e.yes) cov("registrations refused");
            if (e.what == CONV && !e.yes) check(e.k == -1, "conversion-wrong", fmt("%d; ", e.k) + log_);
        }
        int r = linearizable(h[p]);
        cov(r == 2 ? "histories given up" : "histories judged");
        if (r == 0)
        {
            std::string t;
            for (auto &e : h[p]) t += fmt("%s[%llu,%llu]%s%d ", e.what == REG ? "reg" : e.what == UNREG ? "rem" : e.what == HAS ? "has" : "conv", (unsigned long long)e.b, (unsigned long long)e.e, e.yes ? "+" : "-", e.k);
            check(false, "not-linearizable", fmt("pair %d: ", p) + t.substr(0, 900) + "; " + log_);
        }
    }
    eval(schedule, true, std::uint64_t(judged));
    sample(log_);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    all_types(std::make_integer_sequence<int, TYPES>{});
    forked_cases(std::stol(opt("--n", "1000")), one);
    return finish();
}
