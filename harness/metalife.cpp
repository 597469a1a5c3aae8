// C04: MetaType::construct / destruct over every kind of type, in random
// interleavings, with constructors failing at every point.
#include "alloc_hook.h"
#include "kinds.h"

using namespace kinds;
using rtti::MetaType;
using alloc::Scope;

namespace {

auto const &T = table();

struct Made { int kind; int how; void *p; long val; bool known; };

struct Story
{
    Rng &r;
    std::vector<Made> live;
    std::string log;
    explicit Story(Rng &rng) : r(rng) {}

    MetaType handle(int k, int &which)
    {
        which = int(r.below(3));
        return MetaType{which == 0 ? T[k].id() : which == 1 ? T[k].id_const() : T[k].id_cref()};
    }
    std::string where(std::string const &op) { return op + "; history: " + log.substr(log.size() > 700 ? log.size() - 700 : 0); }

    // what a fresh object of this kind looks like in the ledger
    static std::size_t shape(int k)
    {
        static std::vector<long> cache(T.size(), -1);
        if (cache[k] < 0)
        {
            void *o = T[k].create(0);
            cache[k] = long(ledger().within(o, T[k].size));
            T[k].del(o);
        }
        return std::size_t(cache[k]);
    }

    void examine(Made const &m, std::string const &op)
    {
        auto &o = T[m.kind];
        std::string key = op.substr(0, op.find(' '));
        check(reinterpret_cast<std::uintptr_t>(m.p) % o.align == 0, "construct:misaligned:" + o.name, where(op));
        check(ledger().within(m.p, o.size) == shape(m.kind), "construct:" + key + ":objects",
              fmt("%zu tracked objects inside, expected %zu; ", ledger().within(m.p, o.size), shape(m.kind)) + where(op));
        if (m.known)
        {
            long got = o.read_obj(m.p);
            check(got == m.val, "construct:" + key + ":value", fmt("reads %ld, expected %ld; ", got, m.val) + where(op));
        }
    }

    void one()
    {
        if (!live.empty() && r.chance(2, 5))
        {   // destruct one
            std::size_t i = r.below(live.size());
            Made m = live[i];
            log += "destruct " + T[m.kind].name + "; ";
            at("destruct", T[m.kind].name);
            examine(m, "before-destruct " + T[m.kind].name);
            auto objs = ledger().within(m.p, T[m.kind].size);
            auto gone = ledger().destroyed;
            int w;
            auto type = handle(m.kind, w);
            auto blocks = alloc::live();
            { Scope s; type.destruct(m.p); }
            check(ledger().within(m.p, T[m.kind].size) == 0, "destruct:objects-left", where("destruct " + T[m.kind].name));
            check(ledger().destroyed - gone >= objs, "destruct:not-destroyed", where("destruct " + T[m.kind].name));
            check(alloc::live() < blocks, "destruct:storage-kept", where("destruct " + T[m.kind].name));
            live[i] = live.back();
            live.pop_back();
            eval(comb(comb(1, m.kind), comb(w, m.how)));
            cov("destructions");
            return;
        }
        int k = ks[r.below(ks.size())];
        auto &o = T[k];
        int w;
        auto type = handle(k, w);
        int how = int(r.below(4));      // 0 default, 1 copy, 2 move, 3 null source and movable
        static char const *names[] = {"default", "copy", "move", "default-movable"};
        std::string op = std::string(names[how]) + " " + o.name;
        log += op + "; ";
        at("construct", op);
        int p = int(r.below(o.dom));
        void *src = how == 1 || how == 2 ? o.create(p) : nullptr;
        long val = src ? o.read_obj(src) : 0;
        bool may = how == 1 ? o.copy : how == 2 ? (o.move || o.copy) : o.dflt;
        std::size_t before = ledger().count(), blocks = alloc::live();
        long fault = r.chance(1, 3) ? long(r.below(o.elems + 1)) : -1;
        long afault = r.chance(1, 5) ? long(r.below(4)) : -1;
        void *res = nullptr;
        int thrown = 0;
        auto copies = ledger().copies;
        if (fault >= 0) faults().arm(fault);
        try
        {
            Scope s;
            if (afault >= 0) alloc::arm(afault);
            res = type.construct(src, how >= 2);
        }
        catch (Injected &) { thrown = 1; }
        catch (std::bad_alloc &) { thrown = 2; }
        catch (rtti::runtime_error &) { thrown = 3; }
        catch (...) { thrown = 4; }
        bool fired = fault >= 0 && faults().fired, afired = afault >= 0 && alloc::st().fired;
        faults().off();
        alloc::off();
        eval(comb(comb(2, k), comb(comb(w, how), comb(std::uint64_t(fired ? fault + 1 : 0), std::uint64_t(afired)))));
        if (thrown)
        {
            cov(thrown == 3 ? "refused" : "failed");
            check(!(thrown == 3 && may && !fired && !afired), "construct:refused:" + std::string(names[how]), where(op));
            check(!(thrown == 1 && !fired) && !(thrown == 2 && !afired) && thrown != 4, "construct:wrong-exception", where(op));
            check(ledger().count() == before, "construct:object-left-behind", where(op));
            check(alloc::live() <= blocks, "construct:storage-left-behind", fmt("%s; ", alloc::describe().c_str()) + where(op));
        }
        else
        {
            cov(std::string("constructed ") + names[how]);
            check(may, "construct:accepted:" + std::string(names[how]), where(op));
            check(!fired, "construct:exception-swallowed", where(op));
            check(!afired || o.size > 0, "construct:exception-swallowed", where(op));
            if (!check(res != nullptr, "construct:null", where(op))) { if (src) o.del(src); return; }
            check(alloc::live() > blocks, "construct:no-storage", where(op));
            Made m{k, how, res, val, src != nullptr};
            if (how == 2 && o.movable)
                check(ledger().copies == copies, "construct:move:copied", where(op));
            if (src)
            {
                if (how == 1 || !o.move || (how == 2 && o.name.find("CopyOnly") == 0))
                    check(o.read_obj(src) == val, "construct:source-changed", where(op));
            }
            examine(m, op);
            if (!src && o.dflt_value >= 0)
            {   // what C++ makes by default reads as 0 or, where that means nothing, -1
                long got = o.elems == 1 ? o.read_obj(res) : 0;
                check(got == 0 || got == -1, "construct:default:value", fmt("%ld; ", got) + where(op));
            }
            live.push_back(m);
        }
        if (src) o.del(src);
        // nothing else was disturbed
        if (!live.empty()) examine(live[r.below(live.size())], "others");
    }

    std::vector<int> ks;
    void run(int length)
    {
        int nk = r.range(2, 6);
        for (int i = 0; i < nk; ++i) { ks.push_back(int(r.below(T.size()))); shape(ks.back()); }
        for (int i = 0; i < length && S().hard < 200; ++i) one();
        while (!live.empty())
        {
            Made m = live.back();
            live.pop_back();
            at("destruct", T[m.kind].name);
            examine(m, "at-end");
            Scope s;
            int w;
            handle(m.kind, w).destruct(m.p);
        }
    }
};

} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    long n = std::atol(opt("--n", "1000").c_str());
    int len = std::atoi(opt("--len", "60").c_str());
    cov_max("kinds of value", T.size());
    // the handle of nothing
    begin_case(-1, "invalid-type");
    check(MetaType{}.construct() == nullptr, "construct:invalid-type", "an invalid type made an object");
    MetaType{}.destruct(nullptr);
    MetaType{T[1].id()}.destruct(nullptr);
    for_cases(n, [&](long c, Rng &) {
        begin_case(c, "history");
        alloc::leak_checked("storage-leak", [&] {
            auto r = case_rng(c);
            auto uid = ledger().next_uid;
            Story s(r);
            s.run(len);
            ledger().expect_none(uid, "everything was destructed");
            if (c < 2) sample(s.log);
        });
    });
    cov("objects created", ledger().created);
    cov("objects destroyed", ledger().destroyed);
    cov("tracked allocations", alloc::st().total);
    return finish();
}
