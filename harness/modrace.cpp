// Several modules, each with its own copy of the templates, used for the first time by several threads at once:
// they share one registry of types, classes and converters (C20, C24).
#define RV_WRAP_LOCKS
#include "delays.h"
#include "forked.h"
#include "modrace.h"
#include <dlfcn.h>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
using namespace rv;
using namespace race;
using rtti::variant;
race::RaceApi const *rv_race_own();

namespace {
constexpr auto rel = std::memory_order_relaxed;
std::string dir, log_;
std::atomic<std::uint64_t> clock_{1};
std::uint64_t tick() { return clock_.fetch_add(1, rel); }

enum What { ID, NAME, REG, CONV, DEFINE, LOOK, READ };
struct Ev { What what; int type, form, mod; long got, extra; std::uint64_t b, e; };
struct Thread
{
    Rng rng{0};
    int mod = 0;
    bool load = false;
    RaceApi const *api = nullptr;
    std::vector<Ev> evs;
    bool dead = false;
};
struct Shared { std::mutex m; variant v; int type = -1, n = 0; };

RaceApi const *load(int k, bool global)
{
    if (!k) return rv_race_own();
    auto h = ::dlopen((dir + "/race" + std::to_string(k) + ".so").c_str(), RTLD_NOW | (global ? RTLD_GLOBAL : RTLD_LOCAL));
    if (!h) return nullptr;
    return reinterpret_cast<RaceApi const *(*)()>(::dlsym(h, "rv_race"))();
}

void run(Thread &me, int ops, int hot, Shared *shared)
{
    auto &r = me.rng;
    if (me.load) me.api = load(me.mod, r.chance(1, 4));
    if (!me.api) { me.dead = true; return; }
    auto &a = *me.api;
    for (int k = 0; k < ops; ++k)
    {
        Ev e{ID, int(r.below(std::uint64_t(hot))), int(r.below(FORMS)), me.mod, 0, 0, tick(), 0};
        switch (r.below(10))
        {
        case 0: case 1: case 2: e.got = long(a.id(e.type, e.form)); break;
        case 3: { e.what = NAME; bool whole = true; e.got = long(a.by_name(e.type, e.form, whole)); e.extra = whole; break; }
        case 4: e.what = REG; e.got = a.reg(e.type); break;
        case 5: e.what = CONV; e.extra = r.range(1, 99); e.got = a.convert(e.type, int(e.extra)); break;
        case 6: e.what = DEFINE; a.define(e.type); break;
        case 7: e.what = LOOK; e.got = a.look(e.type, 5); break;
        default:
        {
            e.what = READ;
            auto &s = shared[r.below(3)];
            std::lock_guard lock{s.m};
            if (s.type >= 0 && r.chance(1, 2)) { e.type = s.type; e.got = a.read(s.v, s.type); e.extra = s.n; }
            else { s.type = e.type; s.n = r.range(1, 99); s.v = a.make(s.type, s.n); e.got = a.read(s.v, s.type); e.extra = s.n; }
            break;
        }
        }
        e.e = tick();
        me.evs.push_back(e);
    }
}

void one(long i, Rng &rng)
{
    int threads = rng.range(2, 6), ops = rng.range(3, 40), hot = rng.range(1, TYPES);
    static unsigned const strengths[] = {0, 4, 16, 40};
    unsigned strength = strengths[rng.below(4)];
    log_ = fmt("%d threads, %d operations, %d types, delays %u, modules", threads, ops, hot, strength);
    Shared shared[3];
    std::vector<std::unique_ptr<Thread>> data;
    std::vector<int> mods = {0, 1, 2, 3, 4, 5};
    for (int k = MODS; k-- > 1;) std::swap(mods[std::size_t(k)], mods[rng.below(std::uint64_t(k) + 1)]);
    bool late = rng.chance(1, 3);
    for (int t = 0; t < threads; ++t)
    {
        data.push_back(std::make_unique<Thread>());
        auto &d = *data.back();
        d.rng = Rng(rng.next());
        d.mod = mods[std::size_t(rng.chance(1, 5) ? rng.below(std::uint64_t(threads)) : std::uint64_t(t))];
        d.load = late && rng.chance(2, 3);
        if (!d.load) d.api = load(d.mod, rng.chance(1, 4));
        if (!d.load && !d.api) { std::fprintf(stderr, "%s\n", ::dlerror()); ::_exit(9); }
        d.evs.reserve(64);
        log_ += fmt(" %d%s", d.mod, d.load ? "(loads)" : "");
    }
    begin_case(i, "modules and threads", log_);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    sched::begin(strength);
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            auto &me = *data[std::size_t(t)];
            sched::enter(t, me.rng.next());
            ready.fetch_add(1, rel);
            while (ready.load(rel) < threads) sched_yield();
            run(me, ops, hot, shared);
        });
    for (auto &t : ts) t.join();
    auto schedule = sched::end();
    long judged = 0;
    for (auto &d : data) if (d->dead) { std::fprintf(stderr, "a module cannot be loaded\n"); ::_exit(9); }
    // what each module says now is what all of them have said
    std::map<std::pair<int, int>, std::size_t> ids;
    std::map<std::pair<int, int>, std::uint64_t> known;           // since when
    std::set<std::size_t> distinct;
    for (int t = 0; t < hot; ++t)
        for (int f = 0; f < FORMS; ++f)
        {
            auto id = data[0]->api->id(t, f);
            ids[{t, f}] = id;
            ++judged;
            check(id && distinct.insert(id).second, "type-shares-id", fmt("type %d form %d; ", t, f) + log_);
            for (auto &d : data)
            {
                bool whole = true;
                judged += 2;
                check(d->api->id(t, f) == id, "type-two-ids", fmt("type %d form %d in %d and %d; ", t, f, d->mod, data[0]->mod) + log_);
                check(d->api->by_name(t, f, whole) == id && whole, "type-two-ids", fmt("type %d form %d by name in %d; ", t, f, d->mod) + log_);
            }
        }
    for (auto &d : data)
        for (auto &e : d->evs)
            if (e.what == ID)
            {
                auto &k = known.emplace(std::make_pair(e.type, e.form), ~0ull).first->second;
                k = std::min(k, e.e);
            }
    std::map<int, int> winners, tried;
    std::map<int, int> winner;
    std::map<int, std::uint64_t> begun, won;
    std::map<int, unsigned> defined;
    for (auto &d : data)
        for (auto &e : d->evs)
        {
            if (e.what == REG)
            {
                ++tried[e.type];
                auto &b = begun.emplace(e.type, ~0ull).first->second;
                b = std::min(b, e.b);
                if (e.got) { ++winners[e.type]; winner[e.type] = e.mod; won[e.type] = e.e; }
            }
            if (e.what == DEFINE) defined[e.type] |= 1u << e.mod;
        }
    for (auto &d : data)
        for (auto &e : d->evs)
        {
            ++judged;
            auto who = fmt(" type %d in module %d; ", e.type, e.mod) + log_;
            switch (e.what)
            {
            case ID: check(std::size_t(e.got) == ids[{e.type, e.form}], "type-two-ids", fmt("form %d", e.form) + who); cov("uses of types"); break;
            case NAME:
            {
                check(e.extra, "type-incomplete", who);
                auto k = known.find({e.type, e.form});
                bool must = k != known.end() && k->second < e.b;
                check(e.got ? std::size_t(e.got) == ids[{e.type, e.form}] : !must, e.got ? "type-two-ids" : "type-missing", fmt("by name, form %d", e.form) + who);
                cov(e.got ? "names found" : "names not found yet");
                break;
            }
            case CONV:
                if (e.got == -1) { check(!won.count(e.type) || won[e.type] > e.b, "converter-missing", who); cov("conversions refused"); }
                else { check(winners[e.type] && begun[e.type] < e.e && e.got == e.extra * 10 + winner[e.type], "conversion-wrong", fmt("%ld made %ld", e.extra, e.got) + who); cov("conversions"); cov("conversions by another module's converter", winner[e.type] != e.mod); }
                break;
            case LOOK: check(e.got >= 0 && !(unsigned(e.got) & ~defined[e.type] & ~(e.type == 1 ? 1u << 4 : 0u)), "class", fmt("%ld", e.got) + who); cov("classes looked at"); break;
            case READ: check(e.got == e.extra, "value", fmt("%ld not %ld", e.got, e.extra) + who); cov("values made or read"); break;
            default: break;
            }
        }
    for (auto &t : tried) check(winners[t.first] == 1, "converter-winners", fmt("%d of %d registrations of type %d; ", winners[t.first], t.second, t.first) + log_);
    bool four = false;
    for (auto &d : data) four = four || d->mod == 4;
    if (four) defined[1] |= 1u << 4;
    for (auto &x : defined)
        for (auto &d : data)
        {
            ++judged;
            check(unsigned(d->api->look(x.first, 7)) == x.second, "class", fmt("type %d is defined by %x, module %d sees %x; ", x.first, x.second, d->mod, unsigned(d->api->look(x.first, 7))) + log_);
        }
    cov("modules loaded by threads", std::uint64_t(late));
    eval(schedule, true, std::uint64_t(judged));
    sample(log_);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    dir = opt("--modules");
    forked_cases(std::stol(opt("--n", "100")), one);
    return finish();
}
