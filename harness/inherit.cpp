// Names defined again and again in a hierarchy declared at random: what each class finds under
// a name, by the model of "own definitions first, then those of the bases in declaration order".
#include "forked.h"
#include "bases.h"
#include <deque>
using namespace rv;
using namespace rtti;
using bases::N;

namespace {
constexpr int NAMES = 5;
int vars[N][NAMES][2];
long calls_made[N][NAMES][2];
std::string const names_of_classes[N] = {"I0", "I1", "I2", "I3", "I4", "I5", "I6", "I7", "I8"};

template<int C, int K> int plain() { ++calls_made[C][K][0]; return C * 100 + K * 10; }
template<int C, int K> int with_int(int x) { ++calls_made[C][K][1]; return C * 100 + K * 10 + 1 + x * 1000; }
using Fn0 = int (*)();
using Fn1 = int (*)(int);
template<int C, int ...K> void fill(Fn0 *a, Fn1 *b, std::integer_sequence<int, K...>) { ((a[K] = plain<C, K>, b[K] = with_int<C, K>), ...); }
Fn0 fn0[N][NAMES];
Fn1 fn1[N][NAMES];
template<int ...C> void fill_all(std::integer_sequence<int, C...>) { (fill<C>(fn0[C], fn1[C], std::make_integer_sequence<int, NAMES>{}), ...); }

/// One definition: bases, a property or a method (plain, or taking an int).
struct Def { enum What { BASES, PROPERTY, METHOD0, METHOD1 } what; int k = 0, w = 0; std::vector<int> bases; };
struct Item { int cls, k, w; };

struct Cls
{
    bool exists = false, lazy = false, waiting = false;
    std::deque<Def> defs;                   // done, or waiting to be
    std::vector<int> bases;
    std::vector<Item> props, methods;       // in order of definition
};
Cls model[N];
std::string history;

std::string prop_name(int k) { return fmt("p%d", k); }
std::string method_name(int k) { return fmt("m%d", k); }
std::string sig(int k, int w) { return method_name(k) + (w ? "(int)" : "()"); }

template<int F, int I, typename D> void apply(D d, Def const &x)
{
    switch (x.what)
    {
    case Def::BASES: for (int b : x.bases) bases::any<F, I>(d, b, std::make_integer_sequence<int, I>{}); break;
    case Def::PROPERTY: d._property(prop_name(x.k), &vars[I][x.k][x.w]); break;
    case Def::METHOD0: d._method(method_name(x.k), fn0[I][x.k]); break;
    case Def::METHOD1: d._method(method_name(x.k), fn1[I][x.k]); break;
    }
}
struct Ops
{
    void (*define)(bool lazy);
    void (*add)(Def const &);
    MetaType_ID (*id)();
};
template<int F, int I> Ops ops()
{
    using T = bases::K<F, I>;
    Ops o;
    o.define = [](bool lazy) {
        auto g = global_define();
        auto c = g._namespace("inherit")._class<T>(names_of_classes[I]);
        if (lazy) c._lazy([](meta_define<T> d) { for (auto &x : model[I].defs) apply<F, I>(d, x); });
    };
    o.add = [](Def const &x) {
        auto g = global_define();
        apply<F, I>(g._namespace("inherit")._class<T>(names_of_classes[I]), x);
    };
    o.id = [] { return metaTypeId<T>(); };
    return o;
}
template<int ...I> std::vector<Ops> all_ops(std::integer_sequence<int, I...>) { return {ops<1000, I>()...}; }

/// The model: what a definition changes.
void note(int i, Def const &x)
{
    auto &c = model[i];
    switch (x.what)
    {
    case Def::BASES: for (int b : x.bases) if (std::find(c.bases.begin(), c.bases.end(), b) == c.bases.end()) c.bases.push_back(b); break;
    case Def::PROPERTY:
        for (auto &p : c.props) if (p.k == x.k) return;
        c.props.push_back({i, x.k, x.w});
        break;
    default:
    {
        int w = x.what == Def::METHOD1;
        for (auto &m : c.methods) if (m.k == x.k && m.w == w) return;
        c.methods.push_back({i, x.k, w});
    }
    }
}
Item const *find_prop(int i, int k, int depth = 0)
{
    for (auto &p : model[i].props) if (p.k == k) return &p;
    for (int b : model[i].bases) if (auto *p = find_prop(b, k, depth + 1)) return p;
    return nullptr;
}
// w < 0: by plain name, the first such overload
Item const *find_method(int i, int k, int w)
{
    for (auto &m : model[i].methods) if (m.k == k && (w < 0 || m.w == w)) return &m;
    for (int b : model[i].bases) if (auto *m = find_method(b, k, w)) return m;
    return nullptr;
}
std::string who(Item const *p) { return p ? names_of_classes[p->cls] : std::string("none"); }
bool judging(char const *what) { static std::string j = opt("--judge", ""); return j.empty() || j == what; }

void look_property(MetaClass const *c, int i, int k, Rng &rng)
{
    auto *want = find_prop(i, k);
    auto *p = c->getProperty(prop_name(k));
    auto text = fmt("property %s of %s", prop_name(k).c_str(), names_of_classes[i].c_str());
    eval(comb(hash_str(history), comb(i, k)), want && want->cls != i);
    if (want) cov(want->cls == i ? "own property" : "inherited property"); else cov("no such property");
    if (!check((p != nullptr) == (want != nullptr), want ? "property-not-found" : "property-from-nowhere", text + " should be that of " + who(want) + ";" + history) || !p) return;
    auto owner = static_cast<MetaClass const *>(p->owner());
    check(p->owner() && p->owner()->name() == names_of_classes[want->cls], "property-of-another-class",
          text + " is that of " + (owner ? owner->name() : "nobody") + ", not of " + who(want) + ";" + history);
    int &var = vars[want->cls][k][want->w];
    static int next = 1000;
    int before[N][NAMES][2];
    std::memcpy(before, vars, sizeof vars);
    try
    {
        if (rng.chance(1, 2)) check(p->get().to<int>() == var, "property-value", text + ": get yields another value;" + history);
        if (rng.chance(1, 2))
        {
            p->set(++next);
            check(var == next, "property-value", text + ": set does not reach the variable;" + history);
            (&before[0][0][0])[&var - &vars[0][0][0]] = next;
        }
    }
    catch (std::exception const &e) { check(false, "property-error", text + ": " + e.what() + ";" + history); }
    check(std::memcmp(before, vars, sizeof vars) == 0, "property-value", text + ": another variable has changed;" + history);
}
void look_method(MetaClass const *c, int i, int k, int w)
{
    auto *want = find_method(i, k, w);
    auto name = w < 0 ? method_name(k) : sig(k, w);
    auto *m = c->getMethod(name);
    auto text = fmt("method %s of %s", name.c_str(), names_of_classes[i].c_str());
    eval(comb(hash_str(history), comb(i * 10 + k, w + 5)), want && want->cls != i);
    if (want) cov(want->cls == i ? "own method" : "inherited method"); else cov("no such method");
    if (!check((m != nullptr) == (want != nullptr), want ? "method-not-found" : "method-from-nowhere", text + " should be that of " + who(want) + ";" + history) || !m) return;
    check(m->name() == sig(k, want->w), "method-overload", text + ": found " + m->name() + ";" + history);
    check(m->owner() && m->owner()->name() == names_of_classes[want->cls], "method-of-another-class", text + ": found that of " + m->owner()->name() + ", not of " + who(want) + ";" + history);
    auto before = calls_made[want->cls][k][want->w];
    try
    {
        auto r = want->w ? m->invoke(7) : m->invoke();
        check(r.to<int>() == want->cls * 100 + k * 10 + want->w * 7001, "method-called-another", text + ": calls another function;" + history);
        check(calls_made[want->cls][k][want->w] == before + 1, "method-called-another", text + ": called wrongly;" + history);
    }
    catch (std::exception const &e) { check(false, "method-error", text + ": " + e.what() + ";" + history); }
}

void one(long i, Rng &rng)
{
    begin_case(i, "history", "");
    static auto const o = all_ops(std::make_integer_sequence<int, N>{});
    auto random_def = [&](int c) {
        Def d;
        int what = int(rng.below(8));
        d.k = int(rng.below(NAMES));
        d.w = int(rng.below(2));
        if (what < 3 && c > 0)
        {
            d.what = Def::BASES;
            for (int n = int(rng.range(1, 3)); n--;)
            {
                int b = int(rng.below(std::uint64_t(c)));
                if (model[b].exists) d.bases.push_back(b);
            }
        }
        else d.what = what < 5 ? Def::PROPERTY : what < 7 ? Def::METHOD0 : Def::METHOD1;
        return d;
    };
    auto text = [&](Def const &d) {
        if (d.what == Def::PROPERTY) return prop_name(d.k);
        if (d.what == Def::METHOD0 || d.what == Def::METHOD1) return sig(d.k, d.what == Def::METHOD1);
        std::string s = "bases";
        for (int b : d.bases) s += fmt(":%d", b);
        return s;
    };
    int defined = 0;
    int looks = int(rng.range(20, 120));
    for (int step = 0; step < 400 && looks; ++step)
    {
        int what = int(rng.below(10));
        if (what < 3 && defined < N)
        {
            int c = defined++;
            auto &m = model[c];
            m.exists = true;
            m.lazy = rng.chance(1, 3);
            history += fmt(" %s%s", m.lazy ? "lazy " : "", names_of_classes[c].c_str());
            if (m.lazy)
            {
                // what it will define is known to the model at once: every look runs it
                for (int n = int(rng.range(1, 7)); n--;)
                {
                    m.defs.push_back(random_def(c));
                    note(c, m.defs.back());
                    history += "," + text(m.defs.back());
                }
            }
            o[c].define(m.lazy);
        }
        else if (what < 6 && defined)
        {
            int c = int(rng.below(std::uint64_t(defined)));
            auto d = random_def(c);
            if (model[c].lazy) continue;     // may be waiting, or be through
            history += fmt(" %s+%s", names_of_classes[c].c_str(), text(d).c_str());
            o[c].add(d);
            note(c, d);
        }
        else if (defined)
        {
            int c = int(rng.below(std::uint64_t(defined)));
            auto *mc = MetaClass::find(o[c].id());
            if (!check(mc != nullptr, "class-lost", history)) return;
            --looks;
            history += fmt(" ?%s", names_of_classes[c].c_str());
            if (judging("properties")) look_property(mc, c, int(rng.below(NAMES)), rng);
            if (judging("methods")) look_method(mc, c, int(rng.below(NAMES)), int(rng.below(3)) - 1);
        }
    }
    for (int c = 0; c < defined; ++c)
        for (int k = 0; k < NAMES; ++k)
        {
            auto *mc = MetaClass::find(o[c].id());
            if (judging("properties")) look_property(mc, c, k, rng);
            if (judging("methods")) for (int w = -1; w < 2; ++w) look_method(mc, c, k, w);
        }
    sample(history);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    fill_all(std::make_integer_sequence<int, N>{});
    forked_cases(std::stol(opt("--n", "400")), one);
    return finish();
}
