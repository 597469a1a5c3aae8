// C09: equality and hashing over a pool of variants that hold the same and different values in every possible way.
#include "alloc_hook.h"
#include "kinds.h"
using namespace kinds;
using rtti::variant;
using rtti::MetaType;

namespace {

// equality coarser than identity, with a hash of its own
struct Mod7 { int v; };
bool operator==(Mod7 const &a, Mod7 const &b) { return a.v % 7 == b.v % 7; }
// equality, no hash
struct Plain { int v; long pad[4]; };
bool operator==(Plain const &a, Plain const &b) { return a.v == b.v; }
// padding and a cache that are not part of the value
struct Cached { char c; double d; mutable int cache; };
bool operator==(Cached const &a, Cached const &b) { return a.c == b.c && a.d == b.d; }
// the same for every pair
struct Unit { int v; };
bool operator==(Unit const &, Unit const &) { return true; }

} // namespace
namespace std {
template<> struct hash<Mod7> { size_t operator()(Mod7 const &x) const { return size_t(x.v % 7) * 2654435761u + 5; } };
template<> struct hash<Cached> { size_t operator()(Cached const &x) const { return size_t(x.c) + hash<double>{}(x.d); } };
}
namespace {

struct EqKind
{
    std::string name, key;                     // key: kinds with the same one hold the same decayed type
    int dom;
    bool eq, by_identity, movable_only;
    void *(*create)(int);
    void (*del)(void *);
    void (*put)(variant &, void *, int);       // 0 value, 1 ref, 2 cref
    int (*eq_obj)(variant const &, void const *);
    int (*ne_obj)(variant const &, void const *);
    long (*cls)(void const *);                 // class of equality
};

template<typename T> struct K
{
    static int eq_obj(variant const &v, void const *o)
    { try { return v == *static_cast<T const *>(o); } catch (rtti::runtime_error &) { return -1; } }
    static int ne_obj(variant const &v, void const *o)
    { try { return v != *static_cast<T const *>(o); } catch (rtti::runtime_error &) { return -1; } }
    static void put(variant &v, void *o, int mode)
    {
        T &t = *static_cast<T *>(o);
        if (mode == 1) v = std::ref(t);
        else if (mode == 2) v = std::cref(t);
        else if constexpr(std::is_copy_constructible_v<std::remove_all_extents_t<T>>) v = static_cast<T const &>(t);
    }
};
template<typename T, typename F, typename G> void add(std::vector<EqKind> &v, char const *name, char const *key, int dom, bool eq, F create, G cls)
{
    v.push_back(EqKind{name, key, dom, eq, false, false, create,
        [](void *o) { OpsOf<T>::destroy(*static_cast<T *>(o)); std::free(o); },
        K<T>::put, K<T>::eq_obj, K<T>::ne_obj, cls});
}
template<typename T> void *make_raw()
{
    void *w = nullptr;
    if (posix_memalign(&w, std::max<std::size_t>(alignof(T), 16), sizeof(T))) std::abort();
    std::memset(w, 0xa5, sizeof(T));
    return w;
}
template<typename T> T const &as(void const *o) { return *static_cast<T const *>(o); }

using pci = int const *;
using pi2 = int *[2];
using pci2 = int const *[2];
using ppi = int **;
using pcpi = int *const *;
using pcpci = int const *const *;
using VV = std::vector<variant>;
using Mod2 = Mod7[2];
using D2 = double[2];
using F23 = float[2][3];
using Ca2 = Cached[2];
int *g_ptrs[8];

template<typename T> void table_kind(std::vector<EqKind> &v, char const *name)
{
    using E = typename elem<T>::type;
    constexpr bool copyable = std::is_copy_constructible_v<E>;
    constexpr bool smart = std::is_same_v<E, std::shared_ptr<Small>> || std::is_same_v<E, std::unique_ptr<Big>>;
    bool eq = rtti::has_eq_v<E, E>;
    // as the compiler says, spelled out so that a broken trait shows
    std::string n = name;
    eq = !(n == "NoEq" || n == "Empty" || n == "std::function<int()>");
    v.push_back(EqKind{name, n == "int*" ? "ptr-int" : name, Io<T>::dom, eq, smart, !copyable, OpsOf<T>::create, OpsOf<T>::del, K<T>::put, K<T>::eq_obj, K<T>::ne_obj,
        [](void const *o) -> long {
            if constexpr(smart) return reinterpret_cast<long>(as<E>(o).get());
            else return OpsOf<T>::read_obj(o);
        }});
}

std::vector<EqKind> const &eq_kinds()
{
    static auto *t = [] {
        auto &v = *new std::vector<EqKind>;
#define X(T) table_kind<T>(v, #T);
        RV_KINDS_0(X) RV_KINDS_1(X) RV_KINDS_2(X) RV_KINDS_3(X) RV_KINDS_4(X) RV_KINDS_5(X) RV_KINDS_6(X)
#undef X
        for (int i = 0; i < 8; ++i) g_ptrs[i] = &g_ints[i];
        add<Mod7>(v, "Mod7", "Mod7", 20, true, [](int p) { auto w = make_raw<Mod7>(); new (w) Mod7{p}; return w; }, [](void const *o) { return long(as<Mod7>(o).v % 7); });
        add<Mod2>(v, "Mod7[2]", "Mod7[2]", 20, true, [](int p) { auto w = make_raw<Mod2>(); new (w) Mod7{p}; new (static_cast<Mod7 *>(w) + 1) Mod7{p + 7}; return w; },
                  [](void const *o) { return long(as<Mod7>(o).v % 7); });
        add<Plain>(v, "Plain", "Plain", 20, true, [](int p) { auto w = make_raw<Plain>(); static_cast<Plain *>(w)->v = p; return w; }, [](void const *o) { return long(as<Plain>(o).v); });
        add<Cached>(v, "Cached", "Cached", 20, true, [](int p) { auto w = make_raw<Cached>(); auto c = static_cast<Cached *>(w); c->c = char(p % 3); c->d = p % 2 ? 0.0 : -0.0; static int n; c->cache = ++n; return w; },
                    [](void const *o) { return long(as<Cached>(o).c); });
        add<Unit>(v, "Unit", "Unit", 20, true, [](int p) { auto w = make_raw<Unit>(); new (w) Unit{p}; return w; }, [](void const *) { return 0l; });
        add<pci>(v, "int const*", "ptr-int", 8, true, [](int p) { auto w = make_raw<pci>(); *static_cast<pci *>(w) = &g_ints[p]; return w; }, [](void const *o) { return long(as<pci>(o) - g_ints); });
        add<pi2>(v, "int*[2]", "int*[2]", 7, true, [](int p) { auto w = make_raw<pi2>(); auto q = static_cast<int **>(w); q[0] = &g_ints[p]; q[1] = &g_ints[7 - p]; return w; }, [](void const *o) { return long(as<pi2>(o)[0] - g_ints); });
        add<pci2>(v, "int const*[2]", "int*[2]", 7, true, [](int p) { auto w = make_raw<pci2>(); auto q = static_cast<int const **>(w); q[0] = &g_ints[p]; q[1] = &g_ints[7 - p]; return w; }, [](void const *o) { return long(as<pci2>(o)[0] - g_ints); });
        add<ppi>(v, "int**", "int**", 8, true, [](int p) { auto w = make_raw<ppi>(); *static_cast<ppi *>(w) = &g_ptrs[p]; return w; }, [](void const *o) { return long(as<ppi>(o) - g_ptrs); });
        add<pcpi>(v, "int*const*", "int**", 8, true, [](int p) { auto w = make_raw<pcpi>(); *static_cast<pcpi *>(w) = &g_ptrs[p]; return w; }, [](void const *o) { return long(as<pcpi>(o) - g_ptrs); });
        add<pcpci>(v, "int const*const*", "int**", 8, true, [](int p) { auto w = make_raw<pcpci>(); *static_cast<pcpci *>(w) = &g_ptrs[p]; return w; }, [](void const *o) { return long(as<pcpci>(o) - static_cast<int const *const *>(g_ptrs)); });
        add<VV>(v, "vector<variant>", "vector<variant>", 10, true, [](int p) { auto w = make_raw<VV>(); auto q = new (w) VV; q->emplace_back(p); q->emplace_back(std::string("text")); q->emplace_back(); if (p % 2) q->emplace_back(Big(p)); return w; },
                [](void const *o) { return long(as<VV>(o)[0].cref<int>()); });
        add<unsigned>(v, "unsigned", "unsigned", 50, true, [](int p) { auto w = make_raw<unsigned>(); new (w) unsigned(p); return w; }, [](void const *o) { return long(as<unsigned>(o)); });
        add<float>(v, "float", "float", 5, true, [](int p) { auto w = make_raw<float>(); new (w) float(p == 4 ? -0.0f : p); return w; }, [](void const *o) { return long(as<float>(o)); });
        // values that are equal without being the same bytes
        add<double>(v, "zero double", "double", 2, true, [](int p) { auto w = make_raw<double>(); new (w) double(p ? -0.0 : 0.0); return w; }, [](void const *) { return 0l; });
        add<long double>(v, "zero long double", "long double", 2, true, [](int p) { auto w = make_raw<long double>(); new (w) (long double)(p ? -0.0l : 0.0l); return w; }, [](void const *) { return 0l; });
        add<D2>(v, "double[2]", "double[2]", 9, true, [](int p) { auto w = make_raw<D2>(); auto q = static_cast<double *>(w); q[0] = p % 3 == 2 ? -0.0 : p % 3; q[1] = p / 3 == 2 ? -0.0 : p / 3; return w; },
                [](void const *o) { auto q = static_cast<double const *>(o); return long(q[0]) + 10 * long(q[1]); });
        add<F23>(v, "float[2][3]", "float[2][3]", 18, true, [](int p) { auto w = make_raw<F23>(); auto q = static_cast<float *>(w); for (int i = 0; i < 6; ++i) q[i] = p % 3 ? -0.0f : 0.0f; q[p / 3] = p % 3 == 2; return w; },
                [](void const *o) { auto q = static_cast<float const *>(o); long x = 0; for (int i = 0; i < 6; ++i) x = x * 2 + long(q[i]); return x; });
        add<Ca2>(v, "Cached[2]", "Cached[2]", 9, true, [](int p) { auto w = make_raw<Ca2>(); auto c = static_cast<Cached *>(w); static int n; for (int i = 0; i < 2; ++i) { c[i].c = char(i ? p / 3 : p % 3); c[i].d = n % 2 ? 0.0 : -0.0; c[i].cache = ++n; } return w; },
                [](void const *o) { auto q = static_cast<Cached const *>(o); return long(q[0].c) + 10 * long(q[1].c); });
        return &v;
    }();
    return *t;
}

struct Specimen
{
    int kind = -1, mode = 0;
    std::string key;
    long cls = 0;
    bool eq = true;
    variant v;
    void const *obj = nullptr;       // a user object with the same value, if one is left
    std::string text;
};

int ask_eq(variant const &a, variant const &b)
{ try { return a == b; } catch (rtti::runtime_error &) { return -1; } catch (...) { return -2; } }
int ask_ne(variant const &a, variant const &b)
{ try { return a != b; } catch (rtti::runtime_error &) { return -1; } catch (...) { return -2; } }
int neg(int r) { return r < 0 ? r : !r; }

void pool_case(long n, Rng &r)
{
    auto const &ks = eq_kinds();
    std::vector<Specimen> s;
    std::vector<std::pair<int, void *>> objs;
    s.emplace_back();
    s.back().text = "empty";
    s.emplace_back();
    s.back().text = "cleared";
    s.back().v = 5;
    s.back().v.clear();
    // every run has a random third of the kinds, each with two or three values in several forms
    for (std::size_t k = 0; k < ks.size(); ++k)
    {
        if (!r.chance(1, 3)) continue;
        auto &kd = ks[k];
        int p0 = int(r.below(kd.dom));
        for (int j = 0; j < 3; ++j)
        {
            int p = j == 0 ? p0 : j == 1 ? int(r.below(kd.dom)) : (p0 + 7) % kd.dom;
            void *o = kd.create(p);
            objs.push_back({int(k), o});
            for (int mode = 0; mode < 3; ++mode)
            {
                if (mode == 0 && kd.movable_only) continue;
                if (j && r.chance(1, 2)) continue;
                s.emplace_back();
                auto &x = s.back();
                x.kind = int(k);
                x.mode = mode;
                x.key = kd.key;
                x.cls = kd.cls(o);
                x.eq = kd.eq;
                x.obj = o;
                kd.put(x.v, o, mode);
                static char const *m[] = {"", "ref ", "cref "};
                x.text = m[mode] + kd.name + fmt("{%d}", p);
                if (r.chance(1, 4)) { variant w(x.v); x.v = std::move(w); x.text += " copied"; }
                if (r.chance(1, 4)) { variant w(std::move(x.v)); swap(w, x.v); x.text += " moved"; }
            }
        }
    }
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        std::size_t hi = std::hash<variant>{}(s[i].v);
        check(hi == std::hash<variant>{}(s[i].v), "hash-not-stable", s[i].text);
        for (std::size_t j = 0; j < s.size(); ++j)
        {
            auto &a = s[i], &b = s[j];
            bool ea = a.kind < 0, eb = b.kind < 0;
            int want = ea || eb ? (ea && eb) : a.key != b.key ? 0 : !a.eq ? -1 : a.cls == b.cls;
            begin_case(n, "compare", a.text + " == " + b.text);
            std::string what = a.text + " == " + b.text;
            int got = ask_eq(a.v, b.v);
            check(got == want, "equality", what + fmt(": answered %d, expected %d (-1: throws)", got, want));
            check(ask_ne(a.v, b.v) == neg(want), "inequality", what);
            bool related = ea || eb || a.key == b.key;
            eval(comb(comb(hash_str(a.text), hash_str(b.text)), 1), related);
            if (want == 1)
            {
                check(hi == std::hash<variant>{}(b.v), "hash-differs-for-equal", what);
                cov("equal pairs");
            }
            else cov(want ? "incomparable pairs" : related ? "different pairs of one type" : "pairs of different types");
            if (b.obj)
            {
                int got2 = ks[b.kind].eq_obj(a.v, b.obj);
                check(got2 == want, "equality-with-value", what + fmt(": answered %d, expected %d", got2, want));
                check(ks[b.kind].ne_obj(a.v, b.obj) == neg(want), "inequality-with-value", what);
            }
        }
        if (i % 40 == 3) sample(s[i].text + fmt(" compared with %zu others", s.size()));
    }
    s.clear();
    for (auto &o : objs) ks[o.first].del(o.second);
}

// --- eq() and converters ----------------------------------------------------------------------------
struct Conv { int from, to; };       // indices into et
template<int N> using I = std::integral_constant<int, N>;
struct EqType
{
    char const *name;
    bool array;
    void *(*create)(int);
    void (*del)(void *);
    long (*read)(void const *);
    void (*put)(variant &, void *, int);
    int (*eq)(variant const &, void const *);
    int (*neq)(variant const &, void const *);
    int dom;
};
template<typename T> EqType eq_type(char const *name)
{
    return EqType{name, std::is_array_v<T>, OpsOf<T>::create, OpsOf<T>::del, OpsOf<T>::read_obj, K<T>::put,
        [](variant const &v, void const *o) -> int { try { return v.eq(as<T>(o)); } catch (rtti::runtime_error &) { return -1; } },
        [](variant const &v, void const *o) -> int { try { return v.neq(as<T>(o)); } catch (rtti::runtime_error &) { return -1; } }, Io<T>::dom};
}
int g_calls;
constexpr long FAIL = -55555;
// what the converters below compute
long conv(int from, int to, long x)
{
    switch (from * 10 + to)
    {
    case 1: return x + 3;                       // int -> Small
    case 12: return x + 1;                      // Small -> Big
    case 30: return x % 2 ? x : FAIL;           // string -> int
    case 25: return x % 3 ? x / 2 : FAIL;       // Big -> Over128
    case 46: return x;                          // Over32 -> CopyOnlyB
    case 71: return x % 2 + 1;                  // int* (and arrays) -> Small
    case 27: return x % 8;                      // Big -> int*, which is what int[3] decays to
    case 84: return x;                          // MoveOnlyS -> Over32 (by method-like functor)
    default: return BAD;
    }
}
bool has(int from, int to) { return conv(from, to, 1) != BAD; }
void converters()
{
    MetaType::registerConverter<int, Small>([](int x) { ++g_calls; return Small(x + 3); });
    MetaType::registerConverter<Small, Big>([](Small const &x) { ++g_calls; return Big(x.value() + 1); });
    MetaType::registerConverter<std::string, int>([](std::string const &x, bool &ok) { ++g_calls; long v = Io<std::string>::read(x); ok = v % 2; return int(v); });
    MetaType::registerConverter<Big, Over128>([](Big const &x, bool &ok) { ++g_calls; ok = x.value() % 3; return Over128(x.value() / 2); });
    MetaType::registerConverter<Over32, CopyOnlyB>([](Over32 const &x) { ++g_calls; return CopyOnlyB(x.value()); });
    MetaType::registerConverter<int *, Small>([](int *x) { ++g_calls; return Small(*x % 2 + 1); });
    MetaType::registerConverter<Big, int *>([](Big const &x) { ++g_calls; return &g_ints[x.value() % 8]; });
    MetaType::registerConverter<MoveOnlyS, Over32>([](MoveOnlyS const &x) { ++g_calls; return Over32(x.value()); });
}

void eq_case(long n, Rng &r)
{
    static std::vector<EqType> const t = {eq_type<int>("int"), eq_type<Small>("Small"), eq_type<Big>("Big"), eq_type<std::string>("std::string"), eq_type<Over32>("Over32"),
                                          eq_type<Over128>("Over128"), eq_type<CopyOnlyB>("CopyOnlyB"), eq_type<int[3]>("int[3]"), eq_type<MoveOnlyS>("MoveOnlyS"), eq_type<int *>("int*")};
    int a = int(r.below(t.size())), b = int(r.below(t.size()));
    int mode = a == 8 ? r.range(1, 2) : int(r.below(3));
    int p = int(r.below(std::min(t[a].dom, 30))), q = int(r.below(std::min(t[b].dom, 30)));
    // aim at equal results half of the time
    auto model_id = [](int k) { return k == 9 ? 7 : k; };
    if (r.chance(1, 2))
    {
        if (a == b) q = p;
        else if (has(model_id(a), model_id(b)) && a != 9) { long x = conv(model_id(a), model_id(b), p); if (x >= 0 && x < t[b].dom) q = int(x); }
        else if (has(model_id(b), model_id(a)) && b != 9) { long x = conv(model_id(b), model_id(a), q); if (x >= 0 && x < t[a].dom) p = int(x); }
    }
    void *oa = t[a].create(p), *ob = t[b].create(q);
    {
        variant v;
        t[a].put(v, oa, mode);
        long x = t[a].read(oa), y = t[b].read(ob);
        int want = 0, calls = 0;
        if (a == b) want = x == y;
        if (!want && a != b)
        {
            int ma = model_id(a), mb = model_id(b);
            if (!t[b].array && has(ma, mb))
            {
                ++calls;
                long c = conv(ma, mb, a == 9 ? g_ints[x] : x);
                want = c != FAIL && c == y;
            }
            else if (!t[a].array && has(mb, ma))
            {
                ++calls;
                long c = conv(mb, ma, b == 9 ? g_ints[y] : y);
                want = c != FAIL && c == x;
            }
        }
        static char const *m[] = {"", "ref ", "cref "};
        std::string what = fmt("%s%s{%ld}.eq(%s{%ld})", m[mode], t[a].name, x, t[b].name, y);
        begin_case(n, "eq", what);
        g_calls = 0;
        int got = t[a].eq == nullptr ? 0 : t[b].eq(v, ob);
        check(got == want, "eq", what + fmt(": answered %d, expected %d", got, want));
        check(g_calls == calls, "eq-conversions", what + fmt(": %d conversions, expected %d", g_calls, calls));
        got = t[b].neq(v, ob);
        check(got == !want, "neq", what);
        check(t[a].read(oa) == x && t[b].read(ob) == y, "eq-changed-value", what);
        cov(calls ? (want ? "eq through a converter" : "neq through a converter") : want ? "eq directly" : "neq directly");
        eval(hash_str(what), calls || want);
    }
    t[a].del(oa);
    t[b].del(ob);
}

} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute = {"moved-from-object"};
    converters();
    cov_max("kinds", eq_kinds().size());
    long pools = std::atol(opt("--pools", "48").c_str()), eqs = std::atol(opt("--eqs", "20000").c_str());
    for_cases(pools + eqs, [&](long i, Rng &r) {
        auto uid = ledger().next_uid;
        alloc::leak_checked("storage-leak", [&, first = r] {
            auto q = first;
            alloc::Scope sc;
            if (i < pools) pool_case(i, q);
            else eq_case(i, q);
        });
        ledger().expect_none(uid, "equality");
    });
    return finish();
}
