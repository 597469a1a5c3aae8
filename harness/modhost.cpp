// A program which loads modules, in random orders and ways, and lets them work on each other's values,
// definitions and converters; a model says what each of them must see. Some are unloaded again.
#include "forked.h"
#include "modules.h"
#include <dlfcn.h>
#include <memory>
#include <set>
using namespace rv;
using namespace shared;
using rtti::variant;

namespace {
std::map<void const *, int> &live() { static auto *m = new std::map<void const *, int>; return *m; }
void *leaf_store = nullptr;
std::uint64_t lives = 0;
} // namespace
extern "C" void rvm_born(void const *p, int type)
{ ++lives; if (!live().emplace(p, type).second) viol("life", "two objects at one place"); }
extern "C" void rvm_dead(void const *p, int type)
{
    auto it = live().find(p);
    if (check(it != live().end() && it->second == type, "life", "the end of an object that does not exist")) live().erase(it);
}
extern "C" void rvm_alive(void const *p, int type)
{ auto it = live().find(p); check(it != live().end() && it->second == type, "life", "use of an object that does not exist"); }
extern "C" void *rvm_leaves() { return leaf_store; }
shared::ModApi const *rv_own();

namespace {
constexpr int MODS = 7, SLOTS = 8;
std::string dir;
// which modules may really go: the others contain symbols that keep them
bool const hidden[MODS] = {false, false, true, false, true, false, true};
char const *const mod_names[MODS] = {"program", "default visibility", "hidden", "default visibility, no unique symbols", "hidden, defines when loaded", "default visibility, symbols bound to itself", "hidden, another"};
int const at_load[MODS] = {-1, -1, -1, -1, 1, -1, -1};   // the class such a module defines

struct Slot { int type = -1, n = 0, maker = 0; alignas(variant) unsigned char space[sizeof(variant)]; variant &v() { return *reinterpret_cast<variant *>(space); } };
struct Raw { int type, n; void *p; };
struct World
{
    Rng &rng;
    void *handle[MODS] = {};
    ModApi const *api[MODS] = {};
    bool ever[MODS] = {};
    bool stays[MODS] = {};            // has defined something
    bool unloading = false;
    Slot slots[SLOTS];
    std::vector<Raw> raws;
    unsigned defined[CLASSES] = {};
    int conv[CONVERTERS] = {-1, -1, -1, -1}, conv_by[CONVERTERS] = {-1, -1, -1, -1};
    std::vector<std::size_t> ids[TYPES];
    std::string description[TYPES];
    std::set<std::size_t> all_ids;
    std::size_t fresh[FRESH] = {};
    int fresh_owner[FRESH];
    bool fresh_gone[FRESH] = {};
    std::string log;
    std::uint64_t checks = 0;
    std::uint64_t shape = 0;
    explicit World(Rng &r) : rng(r) { std::fill_n(fresh_owner, FRESH, -1); }
    int any()
    {
        for (;;) { int k = int(rng.below(MODS)); if (api[k]) return k; }
    }
    void note(std::string const &t)
    {
        log += t + "; ";
        if (log.size() > 900) log.erase(0, log.size() - 800);
        at("modules", log.size() > 150 ? log.substr(log.size() - 150) : log);
    }
    void ok(bool b, char const *key, std::string const &what) { ++checks; check(b, key, what); }
};
int value(int type, int n) { return is_pointer(type) ? n % 8 : n; }
bool convertible(World const &w, int from, int to, int &n)
{
    for (int c = 0; c < CONVERTERS; ++c)
        if (conv_from[c] == from && conv_to[c] == to && w.conv[c] >= 0) { n = n * 100 + w.conv[c]; return true; }
    return false;
}

bool load(World &w, int k)
{
    if (w.api[k]) return true;
    int flags = (w.rng.chance(1, 2) ? RTLD_NOW : RTLD_LAZY) | (w.rng.chance(1, 3) ? RTLD_GLOBAL : RTLD_LOCAL);
    w.note(fmt("load %d%s", k, flags & RTLD_GLOBAL ? " global" : ""));
    w.handle[k] = ::dlopen((dir + "/mod" + std::to_string(k) + ".so").c_str(), flags);
    if (!w.handle[k]) { std::fprintf(stderr, "%s\n", ::dlerror()); ::_exit(9); }
    w.api[k] = reinterpret_cast<ModApi const *(*)()>(::dlsym(w.handle[k], "rv_module"))();
    if (w.api[k]->number != k) ::_exit(9);
    cov(w.ever[k] ? "modules loaded again" : "modules loaded");
    cov(std::string("module: ") + mod_names[k]);
    w.ever[k] = true;
    if (at_load[k] >= 0) { w.defined[at_load[k]] |= 1u << k; w.stays[k] = true; }
    return true;
}
void set(World &w, int s, int type, int n, int maker) { auto &x = w.slots[s]; x.type = type; x.n = n; x.maker = maker; }

void look(World &w, int j, int s)
{
    auto &x = w.slots[s];
    auto &a = *w.api[j];
    if (x.type < 0) { w.ok(a.empty(x.v()) && a.type_of(x.v()) == 0, "value", "not empty"); return; }
    w.ok(!a.empty(x.v()), "value", "empty");
    auto &t = a.types[x.type];
    w.ok(t.is(x.v()), "value", fmt("type %d made by %d is not one in %d", x.type, x.maker, j));
    w.ok(a.type_of(x.v()) == t.id(), "value", fmt("id of type %d made by %d, in %d", x.type, x.maker, j));
    auto way = w.rng.range(0, 3);
    w.ok(t.read(x.v(), way) == value(x.type, x.n), "value", fmt("type %d made by %d read by %d in way %d", x.type, x.maker, j, way));
    w.ok(t.canconvert(x.v()) && t.to(x.v()) == value(x.type, x.n), "value", fmt("type %d made by %d converted to itself by %d", x.type, x.maker, j));
    w.ok(t.equal(x.v(), x.n) && !t.equal(x.v(), x.n + 1), "equality", fmt("type %d made by %d compared by %d", x.type, x.maker, j));
    int other = int(w.rng.below(TYPES));
    bool related = other == x.type || (is_pointer(other) && is_pointer(x.type)) || ((x.type == LEAF || x.type == DERIVED) && (other == BASE || other == MIXIN || other == DERIVED));
    if (!related) w.ok(!a.types[other].is(x.v()), "value", fmt("type %d made by %d is a %d in %d", x.type, x.maker, other, j));
    cov("values looked at by another module", x.maker != j);
}

void step(World &w)
{
    auto &r = w.rng;
    int i = w.any(), j = w.any(), s = int(r.below(SLOTS)), u = int(r.below(SLOTS)), t = int(r.below(TYPES)), n = r.range(1, 60), c = int(r.below(CLASSES)), v = int(r.below(CONVERTERS));
    auto &A = *w.api[i];
    auto &B = *w.api[j];
    switch (r.below(24))
    {
    case 0: load(w, r.range(1, MODS - 1)); break;
    case 1: case 2:
    {
        w.note(fmt("ids of %d in %d", t, i));
        std::size_t out[16];
        std::vector<std::size_t> ids(1, A.types[t].id());
        ids.insert(ids.end(), out, out + A.types[t].ids(out));
        std::string d;
        A.types[t].describe(d);
        if (w.ids[t].empty())
        {
            w.ids[t] = ids;
            w.description[t] = d;
            for (auto id : ids)
                // pointers and constants in the list are made from each other
                w.ok(id != 0 && (w.all_ids.insert(id).second || t == BASE_P || t == CBASE_P || t == LEAF_P || t == BASE || t == LEAF || t == STRING || t == VECTOR), "ids", fmt("id of type %d is another's or none", t));
        }
        w.ok(w.ids[t] == ids, "ids", fmt("ids of type %d in %d", t, i));
        w.ok(w.description[t] == d, "ids", fmt("description of type %d in %d: %s, not %s", t, i, d.c_str(), w.description[t].c_str()));
        break;
    }
    case 3: case 4: w.note(fmt("%d makes type %d in %d", i, t, s)); A.types[t].make(n, w.slots[s].v()); set(w, s, t, n, i); look(w, j, s); break;
    case 5:
        w.note(fmt("%d destroys %d, %d makes type %d there", i, s, j, t));
        A.destroy(&w.slots[s].v()); B.types[t].fresh(n, w.slots[s].space); set(w, s, t, n, j); look(w, i, s);
        break;
    case 6: w.note(fmt("%d copies %d to %d", i, s, u)); A.copy(w.slots[s].v(), w.slots[u].v()); set(w, u, w.slots[s].type, w.slots[s].n, w.slots[s].maker); look(w, j, u); look(w, j, s); break;
    case 7:
        if (s == u) break;
        w.note(fmt("%d destroys %d, %d copies %d there", i, u, j, s));
        A.destroy(&w.slots[u].v()); B.copy_new(w.slots[s].v(), w.slots[u].space); set(w, u, w.slots[s].type, w.slots[s].n, w.slots[s].maker); look(w, i, u);
        break;
    case 8:
        if (s == u) break;
        w.note(fmt("%d moves %d to %d", i, s, u));
        A.move(w.slots[s].v(), w.slots[u].v()); set(w, u, w.slots[s].type, w.slots[s].n, w.slots[s].maker); set(w, s, -1, 0, 0); look(w, j, u); look(w, j, s);
        break;
    case 9:
        if (s == u) break;
        w.note(fmt("%d swaps %d and %d", i, s, u));
        A.swap(w.slots[s].v(), w.slots[u].v());
        std::swap(w.slots[s].type, w.slots[u].type); std::swap(w.slots[s].n, w.slots[u].n); std::swap(w.slots[s].maker, w.slots[u].maker);
        look(w, j, s); look(w, j, u);
        break;
    case 10: w.note(fmt("%d clears %d", i, s)); A.clear(w.slots[s].v()); set(w, s, -1, 0, 0); look(w, j, s); break;
    case 11:
        if (w.slots[s].type < 0) break;
        w.note(fmt("%d writes %d", i, s));
        A.types[w.slots[s].type].write(w.slots[s].v(), n); w.slots[s].n = n; look(w, j, s);
        break;
    case 12:
    {
        w.note(fmt("%d compares %d and %d", i, s, u));
        auto &x = w.slots[s], &y = w.slots[u];
        if (x.type < 0 || y.type < 0) break;
        if (x.type == y.type) w.ok(A.equal(x.v(), y.v()) == (value(x.type, x.n) == value(y.type, y.n)), "equality", fmt("type %d made by %d and %d, compared by %d", x.type, x.maker, y.maker, i));
        break;
    }
    case 13:
    {
        w.note(fmt("%d makes an object of type %d by its id", i, t));
        auto p = A.types[t].meta_new(n);
        w.ok(p && B.types[t].meta_copy(p, n) == value(t, n), "functions of a type", fmt("type %d in %d and %d", t, i, j));
        w.raws.push_back({t, n, p});
        if (w.raws.size() > 3)
        {
            auto x = w.raws[0];
            w.raws.erase(w.raws.begin());
            auto &C = *w.api[w.any()];
            w.ok(C.types[x.type].meta_copy(x.p, x.n) == value(x.type, x.n), "functions of a type", "object made before");
            C.types[x.type].meta_delete(x.p);
        }
        break;
    }
    case 14:
    {
        if (w.unloading && hidden[i]) break;
        bool ready = c < 2 || c == 4 || (c == 2 ? w.defined[0] != 0 : w.defined[1] && w.defined[2]);
        bool lazy = r.chance(1, 4);
        if (!ready) break;
        w.note(fmt("%d defines %d%s", i, c, lazy ? " later" : ""));
        if (lazy) A.define_lazy(c); else A.define(c);
        w.defined[c] |= 1u << i;
        w.stays[i] = true;
        cov(lazy ? "classes defined later" : "classes defined");
        break;
    }
    case 15: case 16:
    {
        if (!w.defined[c]) { w.ok(!A.known(c), "class", fmt("%d knows %d", i, c)); break; }
        w.note(fmt("%d looks at class %d", i, c));
        w.ok(A.known(c), "class", fmt("%d does not know %d", i, c));
        unsigned inherited = c == 2 ? w.defined[0] : c == 3 ? w.defined[0] | w.defined[1] | w.defined[2] : 0;
        auto e = A.look(c, w.defined[c], inherited, n);
        w.ok(!e, "class", fmt("class %d defined by %x seen by %d: %s", c, w.defined[c], i, e ? e : ""));
        cov("classes looked at");
        cov("classes looked at by a module that did not define them", !(w.defined[c] >> i & 1));
        break;
    }
    case 17:
    {
        if (!(w.defined[0] && w.defined[1] && w.defined[2] && w.defined[3])) break;
        w.note(fmt("%d makes a leaf, %d casts", i, j));
        auto l = static_cast<Leaf *>(A.types[LEAF].meta_new(n));
        auto base = static_cast<Base *>(A.types[BASE].meta_new(n));
        auto e = B.cast(l, l, l);
        w.ok(!e, "cast", fmt("of an object of %d in %d: %s", i, j, e ? e : ""));
        e = B.class_of(*base, *l);
        w.ok(!e, "cast", fmt("class of an object of %d in %d: %s", i, j, e ? e : ""));
        B.types[LEAF].meta_delete(l);
        A.types[BASE].meta_delete(base);
        for (int k = 0; k < SLOTS; ++k)
            if (w.slots[k].type == LEAF)
            {
                e = B.part(w.slots[k].v(), w.slots[k].n);
                w.ok(!e, "cast", fmt("variant made by %d in %d: %s", w.slots[k].maker, j, e ? e : ""));
                cov("variants with objects of derived classes");
            }
        cov("casts of another module's objects", i != j);
        break;
    }
    case 18:
    {
        bool common = r.chance(1, 4);
        // whose code a common converter is depends on how the symbols were bound
        if (common && w.unloading) break;
        w.note(fmt("%d registers converter %d%s", i, v, common ? " like others" : ""));
        bool free = w.conv[v] < 0;
        w.ok(A.reg(v, common) == free, "converter", fmt("%d registers %d, which %s", i, v, free ? "nobody had" : "somebody had"));
        if (free) { w.conv[v] = common ? 99 : i; w.conv_by[v] = i; cov("converters registered"); }
        else cov("converters refused");
        break;
    }
    case 19:
        if (!r.chance(1, 3)) break;
        w.note(fmt("%d removes converter %d", i, v));
        A.unreg(v); w.conv[v] = w.conv_by[v] = -1;
        break;
    case 20: case 21:
    {
        w.note(fmt("converters in %d", i));
        w.ok(A.has(v) == (w.conv[v] >= 0), "converter", fmt("%d in %d: of %d", v, i, w.conv[v]));
        s = int(r.below(SLOTS));
        B.types[conv_from[v]].make(n, w.slots[s].v());
        set(w, s, conv_from[v], n, j);
        int expected = n;
        bool can = convertible(w, conv_from[v], conv_to[v], expected);
        auto &T = A.types[conv_to[v]];
        w.ok(T.canconvert(w.slots[s].v()) == can, "converter", fmt("%d in %d: whether it converts", v, i));
        try
        {
            int got = T.to(w.slots[s].v());
            w.ok(can && got == expected, "converter", fmt("%d in %d, of %d by %d: %d, not %d", v, i, w.conv[v], w.conv_by[v], got, can ? expected : -1));
            cov("converted");
            cov("converted by another module's converter", w.conv_by[v] != i);
        }
        catch (rtti::bad_variant_convert const &) { w.ok(!can, "converter", fmt("%d in %d: not converted", v, i)); cov("refusals to convert seen in the program"); }
        break;
    }
    case 22:
    {
        int const expected[FAILURES] = {2, 1, 8, 1, 5, 6};
        int kind = int(r.below(FAILURES));
        if (kind == ARGUMENT && w.unloading && hidden[i]) break;
        if (kind == REFUSED && w.unloading && hidden[i]) break;
        if (kind == ARGUMENT) w.stays[i] = true;
        if (kind == REFUSED) w.stays[i] = true;
        if (kind == INVOKE && !rtti::MetaNamespace::global()->getMethod("takes")) break;
        w.note(fmt("error %d of %d in %d", kind, i, j));
        int got = B.caught(A.fail, kind);
        w.ok(got == expected[kind], "error", fmt("kind %d of %d caught in %d as %d", kind, i, j, got));
        cov("errors caught by another module", i != j);
        break;
    }
    case 23:
    {
        int f = int(r.below(FRESH));
        w.note(fmt("%d has a type %d of its own", i, f));
        if (!w.fresh[f]) { w.ok(true, "", ""); w.fresh[f] = A.fresh_id(f); w.fresh_owner[f] = i; }
        w.ok(A.fresh_id(f) == w.fresh[f] && A.fresh_by_name(f) == w.fresh[f], "ids", fmt("type %d of %d in %d", f, w.fresh_owner[f], i));
        w.ok(A.fresh_variant(f) == 10, "value", fmt("type %d of %d in %d", f, w.fresh_owner[f], i));
        if (!w.fresh_gone[f]) w.ok(A.fresh_meta(f) == 6, "functions of a type", fmt("type %d of %d in %d", f, w.fresh_owner[f], i));
        else cov("types used whose first module is gone");
        break;
    }
    }
}
void unload(World &w)
{
    int k = w.rng.range(1, MODS - 1);
    if (!w.api[k] || w.stays[k]) return;
    for (int s = 0; s < SLOTS; ++s)
        if (w.slots[s].maker == k) { w.api[w.any()]->clear(w.slots[s].v()); set(w, s, -1, 0, 0); }
    w.note(fmt("unload %d", k));
    w.api[k] = nullptr;
    if (::dlclose(w.handle[k]) != 0) std::abort();
    auto again = ::dlopen((dir + "/mod" + std::to_string(k) + ".so").c_str(), RTLD_NOLOAD | RTLD_NOW);
    if (again)
    {
        // still there, since others use its symbols
        ::dlclose(again);
        cov("modules that stay when unloaded");
        return;
    }
    cov("modules unloaded");
    int gone = 0, kept = 0;
    for (int c = 0; c < CONVERTERS; ++c)
        if (w.conv_by[c] == k) { w.conv[c] = w.conv_by[c] = -1; ++gone; }
        else kept += w.conv[c] >= 0;
    for (int f = 0; f < FRESH; ++f) if (w.fresh_owner[f] == k) w.fresh_gone[f] = true;
    cov("converters that went with their module", std::uint64_t(gone));
    cov("converters of others that stayed", std::uint64_t(kept));
    for (int c = 0; c < CONVERTERS; ++c)
    {
        int i = w.any();
        w.ok(w.api[i]->has(c) == (w.conv[c] >= 0), "converter", fmt("%d in %d after %d is gone: of %d", c, i, k, w.conv[c]));
    }
}

void one(long i, Rng &rng)
{
    begin_case(i, "modules");
    auto store = std::make_unique<Leaf[]>(8);
    for (int k = 0; k < 8; ++k) store[std::size_t(k)].v = k;
    leaf_store = store.get();
    auto before = live().size();
    {
        World w(rng);
        w.api[0] = rv_own();
        w.ever[0] = true;
        w.unloading = rng.chance(1, 2);
        for (auto &s : w.slots) { new (s.space) variant; }
        if (w.unloading)
            for (int t = 0; t < TYPES; ++t)
            {
                std::size_t out[16];
                w.api[0]->types[t].ids(out);
                w.api[0]->types[t].id();
            }
        if (rng.chance(2, 3)) for (int k = 1; k < MODS; ++k) if (rng.chance(1, 2) && !(w.unloading && at_load[k] >= 0)) load(w, k);
        int steps = rng.range(20, S().thorough ? 400 : 160);
        for (int k = 0; k < steps && !S().hard; ++k)
        {
            step(w);
            if (w.unloading && rng.chance(1, 9)) unload(w);
        }
        for (auto &x : w.raws) { auto k = w.any(); w.ok(w.api[k]->types[x.type].meta_copy(x.p, x.n) == value(x.type, x.n), "functions of a type", "object made before"); w.api[k]->types[x.type].meta_delete(x.p); }
        for (int s = 0; s < SLOTS; ++s) { look(w, w.any(), s); w.api[w.any()]->destroy(&w.slots[s].v()); }
        eval(hash_str(w.log, std::uint64_t(steps)), true, w.checks);
        cov("steps", std::uint64_t(steps));
        sample(w.log);
        if (!S().hard && rng.chance(1, 6))
        {
            // the first to come is not the last to go
            std::vector<int> order;
            for (int k = 1; k < MODS; ++k) if (w.api[k]) order.push_back(k);
            w.note("exit");
            full_exit() = true;
            cov("programs ended by exit with modules", !order.empty());
        }
    }
    check(live().size() == before, "life", fmt("%zu objects are left", live().size() - before));
    cov("objects", lives);
    // static objects do not use them
    (void)store.release();
}

/// A type first used by a module that is gone, then by its own functions.
void known_probe()
{
    S().cur = -1;
    begin_case(-1, "functions of a type of an unloaded module");
    std::fflush(stdout);
    auto pid = ::fork();
    if (pid == 0)
    {
        int null = ::open("/dev/null", O_WRONLY);
        ::dup2(null, 2);
        ::dup2(null, 1);
        auto h = ::dlopen((dir + "/mod2.so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) ::_exit(2);
        auto a = reinterpret_cast<ModApi const *(*)()>(::dlsym(h, "rv_module"))();
        a->fresh_id(0);
        ::dlclose(h);
        ::_exit(rv_own()->fresh_meta(0) == 6 ? 0 : 1);
    }
    int st = 0;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) ::_exit(9);
    cov("types used by their functions when their first module is gone");
    check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "functions of a type go with its first module", "construct() of a type whose first module has been unloaded");
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    dir = opt("--modules");
    if (S().shard == 0 && S().only < 0) known_probe();
    forked_cases(std::stol(opt("--n", "100")), [](long i, Rng &r) { one(i, r); });
    return finish();
}
