// C25: the tools around the library. Facts the generated programs computed are compared with the model that wrote
// them; scope guards, function wrappers, tagged ids, joined strings and bit masks are exercised at run time.
#include "tools.h"
#include "tools_list.h"
#include <rtti/finally.h>
#include <rtti/signature.h>
#include <rtti/tagged_id.h>
#include <memory>
#include <optional>
#include <stdexcept>

using rv::check;
using rv::fmt;

namespace {

// ---- scope guards ----
struct Thrown { int n; };

std::vector<int> *g_log;
struct Act
{
    int id;
    void operator()() const { g_log->push_back(id); }
};
/// An action with state of its own and a move that empties the source.
struct Owner
{
    std::unique_ptr<int> id;
    explicit Owner(int n) : id(new int(n)) {}
    Owner(Owner &&) noexcept = default;
    Owner(Owner const &o) : id(o.id ? new int(*o.id) : nullptr) {}
    void operator()() { g_log->push_back(id ? *id : -1); id.reset(); }
};

struct Script
{
    rv::Rng &r;
    std::vector<int> got, want;
    std::string text;
    int next = 0, depth = 0;
    int guards = 0, thrown = 0, moved = 0, dismissed = 0;

    // leaving with an exception or not: the model is told before the scope ends, the guards log when it does
    void leave(bool thrw, int n)
    {
        if (thrw) { ++thrown; throw Thrown{n}; }
    }
    void body()
    {
        if (depth < 4)
            for (int n = int(r.below(3)); n > 0; --n)
            {
                ++depth;
                try { scope(); } catch (Thrown const &) { text += "caught "; }
                --depth;
            }
    }
    void scope()
    {
        int a = next++, b = next++;
        guards += 2;
        bool thrw = r.chance(1, 3);
        int how = int(r.below(8));
        text += fmt("%d:%d%s ", how, a, thrw ? "!" : "");
        switch (how)
        {
            case 0:     // two guards end in reverse order
            {
                Note n1{this, {b, a}};
                FINALLY { got.push_back(a); };
                body();
                FINALLY { got.push_back(b); };
                leave(thrw, a);
                break;
            }
            case 1:     // dismissed guards do nothing
            {
                Note n1{this, {a}};
                FINALLY_EX(first) { got.push_back(a); };
                FINALLY_EX(second) { got.push_back(b); };
                body();
                second.dismiss();
                ++dismissed;
                leave(thrw, a);
                break;
            }
            case 2:     // dismissed only when all went well
            {
                Note n1{this, thrw ? std::vector<int>{b, a} : std::vector<int>{b}};
                FINALLY_EX(rollback) { got.push_back(a); };
                FINALLY { got.push_back(b); };
                body();
                leave(thrw, a);
                rollback.dismiss();
                ++dismissed;
                break;
            }
            case 3:     // every turn of a loop, left early
            {
                int turns = int(r.below(5)), stop = int(r.below(5));
                for (int i = 0; i < turns; ++i)
                {
                    Note n1{this, {1000 + a, 2000 + a}};
                    FINALLY { got.push_back(2000 + a); };
                    FINALLY { got.push_back(1000 + a); };
                    if (i == stop) break;
                    if (r.chance(1, 3)) continue;
                    body();
                }
                break;
            }
            case 4:     // handed on: one owner
            {
                Note n1{this, {b, a}};
                auto outer = internal::scope_guard_constructor() << Act{a};
                auto inner = internal::scope_guard_constructor() << Act{b};
                auto taken = std::move(inner);
                ++moved;
                body();
                leave(thrw, a);
                break;
            }
            case 5:     // handed on out of a function, again and again, then kept or dismissed
            {
                bool keep = r.chance(1, 2);
                Note n1{this, keep ? std::vector<int>{a} : std::vector<int>{}};
                auto make = [&]{ return internal::scope_guard_constructor() << Owner(a); };
                auto g1 = make();
                auto g2 = std::move(g1);
                std::optional<decltype(g2)> g3{std::move(g2)};
                moved += 2;
                body();
                if (!keep) { g3->dismiss(); ++dismissed; }
                leave(thrw, a);
                break;
            }
            case 6:     // a dismissed guard stays dismissed when handed on; an early end
            {
                Note n1{this, {b}};
                auto g1 = internal::scope_guard_constructor() << Act{a};
                g1.dismiss();
                ++dismissed;
                auto g2 = std::move(g1);
                ++moved;
                std::optional<decltype(g2)> g3{internal::scope_guard_constructor() << Act{b}};
                body();
                if (r.chance(1, 2)) g3.reset();
                leave(thrw, a);
                break;
            }
            default:    // an action kept elsewhere is copied, an early return
            {
                Note n1{this, {a}};
                Act const kept{a};
                auto g = internal::scope_guard_constructor() << kept;
                body();
                if (thrw) return;
                leave(thrw, b);
            }
        }
    }
    /// Tells the model, when the scope it stands first in is left, which actions must have just run.
    struct Note
    {
        Script *s;
        std::vector<int> ids;
        Note(Script *s_, std::vector<int> i) : s(s_), ids(std::move(i)) {}
        ~Note()
        {
            for (int i : ids) s->want.push_back(i);
            // compared here: later guards could hide a difference
            s->agree &= s->got == s->want;
        }
    };
    bool agree = true;
};

void guards(rv::Rng &r)
{
    Script s{r};
    g_log = &s.got;
    try { s.scope(); } catch (Thrown const &) {}
    auto list = [](std::vector<int> const &v) { std::string t; for (int i : v) t += std::to_string(i) + " "; return t.substr(0, 200); };
    check(s.agree && s.got == s.want, "guard runs once", "actions ran: " + list(s.got) + "; expected: " + list(s.want) + "; " + s.text.substr(0, 200));
    rv::eval(rv::hash_str(s.text), !s.want.empty(), s.guards);
    rv::cov("guards", s.guards);
    rv::cov("guards left by exception", s.thrown);
    rv::cov("guards moved", s.moved);
    rv::cov("guards dismissed", s.dismissed);
}

// ---- function wrappers ----
struct Called { int fn = 0, n = 0; void const *self = nullptr, *arg = nullptr; int val = 0; } g_call;
struct Big { int v; char fill[60]; Big(int n) : v(n) { std::memset(fill, n, sizeof fill); } };
int free1(int a) { g_call = {1, g_call.n + 1, nullptr, nullptr, a}; return a + 1; }
int &free2(int &a) noexcept { g_call = {2, g_call.n + 1, nullptr, &a, a}; return a; }
void free3(Big const &b, std::unique_ptr<int> &&p) { g_call = {3, g_call.n + 1, &b, p.get(), b.v}; p.reset(); }
int free4(std::string s, double d) { if (d < 0) throw Thrown{int(s.size())}; g_call = {4, g_call.n + 1, nullptr, nullptr, int(s.size())}; return int(d); }
struct Functor
{
    int state;
    int operator()(int a) { g_call = {5, g_call.n + 1, nullptr, nullptr, a}; return state += a; }
};
struct QuietFunctor
{
    std::shared_ptr<int> p;
    int operator()(int a) const noexcept { g_call = {6, g_call.n + 1, nullptr, p.get(), a}; return *p + a; }
};

void functions(rv::Rng &r)
{
    int a = int(r.below(1000));
    g_call = {};
    auto once = [&](int fn) { return check(g_call.fn == fn && g_call.n == 1, "make_function calls once", fmt("function %d: called %d, %d times", fn, g_call.fn, g_call.n)); };
    int k = int(r.below(9));
    rv::eval(rv::comb(77, k * 1000 + a));
    rv::cov("functions wrapped");
    switch (k)
    {
        case 0: { auto f = mpl::make_function(free1); check(f(a) == a + 1 && g_call.val == a, "make_function result", "free function"); once(1); break; }
        case 1: { auto f = mpl::make_function(&free2); int &x = f(a); check(&x == &a && g_call.arg == &a, "make_function result", "reference"); once(2); break; }
        case 2:
        {
            auto f = mpl::make_function(&free3);
            Big b(a % 100);
            std::unique_ptr<int> p(new int(3));
            void *at = p.get();
            f(b, std::move(p));
            check(g_call.self == &b && g_call.arg == at && !p, "make_function result", "object and rvalue");
            once(3);
            break;
        }
        case 3:
        {
            auto f = mpl::make_function(free4);
            std::string s(a % 50, 'x');
            bool thrw = r.chance(1, 2);
            try
            {
                int got = f(s, thrw ? -1. : 7.5);
                check(!thrw && got == 7 && g_call.val == int(s.size()), "make_function result", "string and double");
                once(4);
            }
            catch (Thrown const &t) { check(thrw && t.n == int(s.size()), "make_function result", "exception"); }
            check(s == std::string(a % 50, 'x'), "make_function result", "argument changed");
            break;
        }
        case 4:     // a copy of the functor is kept
        {
            Functor F{10};
            auto f = mpl::make_function(F);
            check(f(a) == 10 + a && F.state == 10, "make_function result", "functor");
            once(5);
            check(f(1) == 11 + a && F.state == 10, "make_function result", "functor, second call");
            break;
        }
        case 5:
        {
            auto p = std::make_shared<int>(a);
            {
                QuietFunctor q{p};
                auto f = mpl::make_function(std::move(q));
                check(!q.p && p.use_count() == 2, "make_function result", "functor moved in");
                check(f(2) == a + 2 && g_call.arg == p.get(), "make_function result", "noexcept functor");
                once(6);
            }
            check(p.use_count() == 1, "make_function result", "functor released");
            break;
        }
        case 6:
        {
            int seen = 0;
            auto f = mpl::make_function([&seen, a](int x, long y) mutable { seen += x; return a++ + y; });
            check(f(3, 4) == a + 4 && f(1, 0) == a + 1 && seen == 4, "make_function result", "lambda");
            break;
        }
        case 7:
        {
            auto f = mpl::make_function([a]() noexcept { return std::make_unique<int>(a); });
            auto p = f();
            check(p && *p == a, "make_function result", "noexcept lambda");
            break;
        }
        default:
        {
            std::function<int(int)> g = free1;
            auto f = mpl::make_function(g);
            check(f(a) == a + 1, "make_function result", "std::function");
            once(1);
            check(bool(g), "make_function result", "std::function copied");
        }
    }
}

// ---- tagged ids ----
struct IdTag;
template<typename T, T dflt>
void ids_of(rv::Rng &r)
{
    using ID = mpl::ID<IdTag, T, dflt>;
    ID none;
    check(!none.valid() && none.value() == dflt && none == ID{dflt}, "id", "default id");
    T v[6];
    for (int i = 0; i < 6; ++i)
        v[i] = r.chance(1, 4) ? dflt : r.chance(1, 3) && i ? v[i - 1] : T(r.next());
    for (T a : v)
    {
        ID x{a};
        check(x.value() == a && static_cast<T>(x) == a, "id", "value");
        check(x.valid() == (a != dflt), "id", "valid");
        for (T b : v)
        {
            ID y{b};
            check((x == y) == (a == b) && (x != y) == (a != b), "id", "comparison");
            check(a != b || std::hash<ID>{}(x) == std::hash<ID>{}(y), "id", "hash of equal ids");
            rv::eval(rv::comb(rv::comb(91, std::uint64_t(a)), std::uint64_t(b)));
        }
        ID z = x;
        check(z == x, "id", "copy");
        z = none;
        check(z == none && x.value() == a, "id", "assignment");
    }
}
void ids(rv::Rng &r)
{
    ids_of<std::size_t, 0>(r);
    ids_of<int, -1>(r);
    ids_of<unsigned char, 255>(r);
    ids_of<long, 7>(r);
    rv::cov("ids", 24);
}

// ---- strings, masks, streams ----
enum class Mask8 : unsigned char {};
enum class Mask64 : long long {};
enum Plain : unsigned {};

} // namespace

namespace rtti {
BITMASK_ENUM(Mask8)
BITMASK_ENUM(Mask64)
BITMASK_ENUM(Plain)
}

namespace {

template<typename E> void mask(rv::Rng &r)
{
    using T = std::underlying_type_t<E>;
    T a = T(r.next()), b = r.chance(1, 4) ? T(0) : T(r.next());
    using rtti::operator|;
    using rtti::operator&;
    check(T(E(a) | E(b)) == T(a | b), "mask", "or");
    check(T(E(a) & E(b)) == T(a & b), "mask", "and");
    rv::eval(rv::comb(rv::comb(92, std::uint64_t(a)), std::uint64_t(b)));
}

void strings(rv::Rng &r)
{
    using rtti::operator+;
    auto any = [&](int n) { std::string s; for (int i = int(r.below(n)); i > 0; --i) s += char(r.below(4) ? 'a' + r.below(26) : r.below(256)); return s; };
    std::string l = any(40), t = any(40);
    std::string_view v = r.chance(1, 8) ? std::string_view() : std::string_view(t);
    std::string want = l;
    want.append(v.data() ? v.data() : "", v.size());
    std::string const keep = l;
    check(l + v == want && l == keep, "joined string", "lvalue");
    check(keep + v == want, "joined string", "const lvalue");
    check(std::string(l) + v == want, "joined string", "rvalue");
    // the view may be a part of the string itself
    std::size_t from = r.below(l.size() + 1), n = r.below(l.size() + 1);
    std::string self = l;
    std::string part = l.substr(from, n);
    check(self + std::string_view(self).substr(from, n) == l + part, "joined string", "part of itself");
    std::string_view own = std::string_view(self).substr(from, n);
    check(std::move(self) + own == l + part, "joined string", "part of itself, rvalue");
    rv::eval(rv::hash_str(want), true, 5);
    mask<Mask8>(r);
    mask<Mask64>(r);
    mask<Plain>(r);
    // values separated by, not ended with, the prefix
    std::ostringstream os, wos;
    std::string sep = any(5);
    auto it = rtti::prefix_ostream_iterator<int>{os, sep};
    int cnt = int(r.below(6));
    for (int i = 0; i < cnt; ++i)
    {
        int x = int(r.below(1000));
        switch (r.below(3)) { case 0: it = x; break; case 1: *it = x; ++it; break; default: *it++ = x; }
        if (i) wos << sep;
        wos << x;
    }
    check(os.str() == wos.str(), "separated values", os.str() + " for " + wos.str());
    rv::cov("strings");
}

template<typename ...T> void one_signature(rv::Rng &r, char const *want)
{
    std::string n;
    for (int i = int(r.below(9)); i > 0; --i) n += char('a' + r.below(26));
    check(rtti::signature<T...>::get(n) == n + want, "signature", rtti::signature<T...>::get(n) + " for " + n + want);
    check(rtti::signature<mpl::type_list<T...>>::get(n) == n + want, "signature", "of a list");
    rv::eval(rv::hash_str(n + want), true, 2);
}
struct SigC { void f(int) const; int g(char &, long &&) &&; };
void signatures(rv::Rng &r)
{
    one_signature<>(r, "()");
    one_signature<int>(r, "(int)");
    one_signature<int, char &, double &&>(r, "(int, char&, double&&)");
    one_signature<int, int, int, int>(r, "(int, int, int, int)");
    one_signature<void *>(r, "(void*)");
    auto n = rtti::f_signature<int (*)(char, long &)>::get("x");
    check(n == "x(char, long int&)", "signature", n);
    int order[8], k = 0, next = 0;
    auto put = [&](int v) { order[k++] = v; return v; };
    auto all = [&](auto ...v) { EXPAND(put(v + next)) };
    all(0, 1, 2, 3, 4);
    check(k == 5, "expanded in order", fmt("%d of 5", k));
    for (int i = 0; i < k; ++i) check(order[i] == i, "expanded in order", fmt("%d at %d", order[i], i));
    (void)next;
}

} // namespace

int main(int argc, char **argv)
{
    rv::init(argc, argv);
    auto &s = rv::S();
    // the facts of the generated programs
    int nf = int(sizeof tl::fillers / sizeof *tl::fillers);
    for (int i = s.shard; i < nf; i += s.shards)
    {
        std::vector<tl::Fact> f;
        tl::fillers[i](f);
        rv::begin_case(i, "facts", fmt("unit %d", i));
        for (auto &x : f)
        {
            check(x.got == x.want, x.key, std::string(x.what) + " is " + x.got + ", not " + x.want);
            rv::eval(rv::comb(rv::hash_str(x.what), rv::hash_str(x.want)));
            rv::cov(x.key);
        }
        if (!f.empty()) { auto &x = f[f.size() / 2]; rv::sample(fmt("%s: %.200s = %.200s", x.key, x.what, x.got.c_str())); }
    }
    rv::for_cases(std::atol(rv::opt("n", "20000").c_str()), [](long n, rv::Rng &r) {
        static char const *const kinds[] = {"guards", "functions", "ids", "strings", "signatures"};
        static int const which[] = {0, 0, 0, 0, 1, 1, 2, 3, 3, 4};
        int k = which[n / rv::S().shards % 10];
        rv::begin_case(n, kinds[k], "");
        switch (k)
        {
            case 0: guards(r); break;
            case 1: functions(r); break;
            case 2: ids(r); break;
            case 3: strings(r); break;
            default: signatures(r);
        }
    });
    return rv::finish();
}
