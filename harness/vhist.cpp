// C05 / C06: random histories over a pool of variants, against a model of the
// values (C06) and with monitors of every object's life and of storage (C05).
#include "alloc_hook.h"
#include "kinds.h"
#include <algorithm>

using namespace kinds;
using rtti::variant;
using alloc::Scope;

namespace {

struct MV { int kind = -1; int mode = 0; int obj = -1; long p = 0; };   // mode 0 value, 1 ref, 2 cref
struct UO { int kind; void *p; };

std::map<std::pair<int, int>, int> g_conv;     // registered converters: (from kind, to kind) -> offset of the payload

int big_from_small(int x) { return x; }

struct History
{
    Rng &r;
    std::vector<int> ks;
    std::vector<UO> objs;
    std::vector<variant> v;
    std::vector<MV> m;
    std::string log;
    std::vector<Ops> const &T = table();

    explicit History(Rng &rng) : r(rng) {}

    long expect(MV const &x) const { return x.mode ? T[x.kind].read_obj(objs[x.obj].p) : x.p; }
    // a value whose only way to move is a copy
    bool copier(MV const &x) const { return x.kind >= 0 && x.mode == 0 && T[x.kind].name.find("CopyOnly") == 0; }
    std::string desc(MV const &x) const
    {
        if (x.kind < 0) return "empty";
        return T[x.kind].name + (x.mode == 1 ? "&" : x.mode == 2 ? " const&" : "") + "=" + std::to_string(expect(x));
    }
    std::string where(std::size_t i, std::string const &op) const
    { return fmt("after %s, variant %zu (model: %s); history: %s", op.c_str(), i, desc(m[i]).c_str(), log.substr(log.size() > 900 ? log.size() - 900 : 0).c_str()); }

    void verify(std::string const &op, std::string const &kind)
    {
        check(v.size() == m.size(), "value:pool", "pool size");
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            auto &x = m[i];
            auto const &cv = v[i];
            if (!check(cv.empty() == (x.kind < 0) && bool(cv) == (x.kind >= 0), "value:" + kind + ":empty", where(i, op)))
            { x = MV{}; v[i].clear(); continue; }
            if (x.kind < 0)
            {
                check(cv.typeId() == rtti::MetaType_ID{}, "value:" + kind + ":empty-type", where(i, op));
                continue;
            }
            auto &o = T[x.kind];
            bool ok = true;
            if (x.mode != 2)
                ok &= check(cv.typeId() == o.id(), "value:" + kind + ":type", where(i, op));
            else
                ok &= check(rtti::MetaType{cv.typeId()}.decayId() == rtti::MetaType{o.id()}.decayId() && rtti::MetaType{cv.typeId()}.isConst(),
                            "value:" + kind + ":type", where(i, op));
            if (!ok) { m[i] = MV{}; v[i].clear(); continue; }
            long got = BAD;
            void const *addr = nullptr;
            if (!check(o.read(cv, got, addr), "value:" + kind + ":unreadable", where(i, op))) { m[i] = MV{}; v[i].clear(); continue; }
            if (!check(got == expect(x), "value:" + kind + ":value", fmt("read %ld; ", got) + where(i, op)))
            { m[i] = MV{}; v[i].clear(); continue; }
            check(o.is_c(cv), "value:" + kind + ":is", where(i, op));
            if (x.mode)
                check(addr == objs[x.obj].p, "value:" + kind + ":not-the-referenced-object", where(i, op));
            else
                for (auto &u : objs)
                    check(addr != u.p, "value:" + kind + ":aliases-a-user-object", where(i, op));
            check(reinterpret_cast<std::uintptr_t>(addr) % o.align == 0, "misaligned:" + o.name, where(i, op));
            cov("reads");
        }
    }

    int other_obj(int kind)
    {
        std::vector<int> c;
        for (std::size_t i = 0; i < objs.size(); ++i) if (objs[i].kind == kind) c.push_back(int(i));
        return c[r.below(c.size())];
    }
    std::size_t any() { return r.below(v.size()); }

    void run(long n, int length)
    {
        int nk = r.range(2, 5);
        for (int i = 0; i < nk; ++i) ks.push_back(int(r.below(T.size())));
        if (r.chance(1, 3)) { static int const a = find_kind("int"), b = find_kind("Small"), c = find_kind("std::string"); ks.push_back(a); ks.push_back(b); ks.push_back(c); }
        for (int k : ks) for (int i = 0; i < 2; ++i) objs.push_back({k, T[k].create(int(r.below(T[k].dom)))});
        {
            Scope s;
            v.resize(std::size_t(r.range(3, 6)));
        }
        m.resize(v.size());
        begin_case(n, "history", fmt("history %ld", n));
        for (int step = 0; step < length && S().hard < 200; ++step) one();
        {
            Scope s;
            bool keep = r.chance(1, 2);
            if (keep) for (auto &x : v) x.clear();
            at("teardown");
            v.clear();
            v.shrink_to_fit();
        }
        for (auto &o : objs) T[o.kind].del(o.p);
        objs.clear();
    }

    void note(std::string const &op) { log += op; log += "; "; at("history", op); }

    void record(int op, MV const &a, MV const &b, int extra)
    {
        auto code = [](MV const &x) { return std::uint64_t((x.kind + 1) * 3 + x.mode); };
        eval(comb(comb(std::uint64_t(op) * 64 + std::uint64_t(extra), code(a)), code(b)), a.kind >= 0 || b.kind >= 0);
    }

    void one()
    {
        int op = int(r.below(20));
        std::size_t i = any(), j = any();
        std::string what;
        MV a = m[i], b = m[j];
        int extra = 0;
        auto S_ = [&](char const *k) { cov(std::string("op:") + k); return std::string(k); };
        switch (op)
        {
        case 0: case 1: case 2: case 3:
        {
            int k = ks[r.below(ks.size())];
            auto &o = T[k];
            int mode = int(r.below(NMODES));
            if (!o.mode_ok(mode)) mode = RVALUE;
            extra = mode;
            bool construct = op < 2;
            what = S_((std::string(construct ? "construct-" : "assign-") + mode_name(mode)).c_str());
            note(fmt("%s %zu<-%s", what.c_str(), i, o.name.c_str()));
            MV x;
            x.kind = k;
            void *obj;
            if (mode == REF || mode == CREF)
            {
                x.mode = mode == REF ? 1 : 2;
                x.obj = other_obj(k);
                obj = objs[x.obj].p;
            }
            else
            {
                x.p = long(r.below(o.dom));
                obj = o.create(int(x.p));
                x.p = o.read_obj(obj);
            }
            auto copies = ledger().copies;
            {
                Scope s;
                if (construct) { v[i].~variant(); o.ctor(&v[i], obj, mode); }
                else o.assign(v[i], obj, mode);
            }
            if (mode == REF || mode == CREF || (mode == RVALUE && o.movable))
                check(ledger().copies == copies, "value:" + what + ":copied", where(i, what + " of " + o.name));
            if (mode == CONST_LVALUE || mode == LVALUE || mode == CONST_RVALUE)
                check(o.read_obj(obj) == x.p, "value:" + what + ":source-changed", where(i, what));
            m[i] = x;
            if (!(mode == REF || mode == CREF))
            {
                if (mode != RVALUE)
                {   // the source is changed later: the variant must not notice
                    o.write_obj(obj, int(r.below(o.dom)));
                    verify(what, what);
                }
                o.del(obj);
            }
            b = x;
            break;
        }
        case 4: case 5: case 6:
        {
            bool construct = op == 4;
            what = S_(i == j ? "self-copy" : construct ? "copy-construct" : "copy-assign");
            note(fmt("%s %zu<-%zu", what.c_str(), i, j));
            bool may = b.kind < 0 || b.mode || T[b.kind].copy || (!construct && i == j);
            bool threw = false;
            try
            {
                Scope s;
                if (construct)
                {
                    variant t(v[j]);
                    if (b.kind >= 0 && (b.mode || T[b.kind].copy))
                    {
                        try { check(t == v[j], "value:" + what + ":copy-not-equal", where(j, what)); }
                        catch (rtti::runtime_error &) { cov("no-equality"); }
                    }
                    v[i] = std::move(t);
                    check(t.empty(), "value:" + what + ":moved-from-not-empty", where(i, what));
                }
                else v[i] = v[j];
            }
            catch (rtti::runtime_error &) { threw = true; cov("refused-copies"); }
            check(threw == !may, "value:" + what + (threw ? ":refused" : ":accepted-move-only"), where(i, what));
            if (!threw) m[i] = b;
            break;
        }
        case 7: case 8:
        {
            bool construct = op == 7;
            what = S_(i == j ? "self-move" : construct ? "move-construct" : "move-assign");
            note(fmt("%s %zu<-%zu", what.c_str(), i, j));
            auto copies = ledger().copies;
            MV was_i = m[i], was_j = m[j];
            {
                Scope s;
                if (construct && i != j)
                {
                    variant t(std::move(v[j]));
                    check(v[j].empty(), "value:" + what + ":moved-from-not-empty", where(j, what));
                    v[i].~variant();
                    new (&v[i]) variant(std::move(t));
                    check(t.empty(), "value:" + what + ":moved-from-not-empty", where(j, what));
                }
                else v[i] = std::move(v[j]);
            }
            if (!copier(was_i) && !copier(was_j)) check(ledger().copies == copies, "value:" + what + ":copied", where(i, what));
            if (i != j) { m[i] = b; m[j] = MV{}; }
            break;
        }
        case 9: case 10:
        {
            what = S_(i == j ? "self-swap" : op == 9 ? "swap" : "std-swap");
            note(fmt("%s %zu,%zu", what.c_str(), i, j));
            auto copies = ledger().copies;
            MV was_i = m[i], was_j = m[j];
            {
                Scope s;
                if (op == 9) swap(v[i], v[j]);
                else std::swap<variant>(v[i], v[j]);
            }
            if (!copier(was_i) && !copier(was_j)) check(ledger().copies == copies, "value:" + what + ":copied", where(i, what));
            if (i != j || op == 9) std::swap(m[i], m[j]);
            break;
        }
        case 11:
            what = S_(r.chance(1, 2) ? "clear" : "assign-empty");
            note(fmt("%s %zu", what.c_str(), i));
            {
                Scope s;
                if (what == "clear") v[i].clear();
                else v[i] = variant{};
            }
            m[i] = MV{};
            break;
        case 12: case 13:
        {
            if (a.kind < 0) return;
            what = S_("write");
            auto &o = T[a.kind];
            int p = int(r.below(o.dom));
            note(fmt("write %zu:=%d", i, p));
            bool ok;
            { Scope s; ok = o.write(v[i], p); }
            check(ok == (a.mode != 2), ok ? "value:write:wrote-through-const" : "value:write:refused", where(i, what));
            if (ok) { if (a.mode == 0) m[i].p = p; }
            if (ok) check(o.is_m(v[i]), "value:write:is", where(i, what));
            break;
        }
        case 14:
        {
            int u = int(r.below(objs.size()));
            what = S_("object-write");
            int p = int(r.below(T[objs[u].kind].dom));
            note(fmt("object %d:=%d", u, p));
            T[objs[u].kind].write_obj(objs[u].p, p);
            break;
        }
        case 15:
        {
            if (a.kind < 0) return;
            auto &o = T[a.kind];
            if (o.array || !o.copy) return;
            what = S_("to");
            note(fmt("to %zu", i));
            long got = BAD;
            bool ok;
            { Scope s; ok = o.to(v[i], got); }
            if (check(ok, "value:to:refused", where(i, what)))
                check(got == expect(a), "value:to:value", fmt("got %ld; ", got) + where(i, what));
            break;
        }
        case 16:
        {
            int k = ks[r.below(ks.size())];
            auto &o = T[k];
            if (o.array || !o.copy) return;
            if (a.kind >= 0 && (T[a.kind].array)) return;     // pointers into the array would dangle
            bool soft = r.chance(1, 2);
            what = S_(soft ? "tryConvert" : "convert");
            note(fmt("%s %zu to %s", what.c_str(), i, o.name.c_str()));
            bool may = a.kind == k && true;
            long p = a.kind >= 0 ? expect(a) : 0;
            bool converted = false;
            if (a.kind >= 0 && a.kind != k)
                if (auto it = g_conv.find({a.kind, k}); it != g_conv.end()) { may = true; converted = true; p += it->second; }
            bool ok;
            { Scope s; ok = soft ? o.try_convert(v[i]) : o.convert(v[i]); }
            check(ok == may, "value:" + what + (ok ? ":succeeded" : ":refused"), where(i, what));
            if (converted) cov("conversions");
            if (ok) { MV x; x.kind = k; x.p = p; m[i] = x; b = x; }
            break;
        }
        case 17:
        {
            // assign a variant from the very object it holds
            if (a.kind < 0 || a.mode) return;
            auto &o = T[a.kind];
            if (!o.copy) return;
            what = S_("assign-own-content");
            note(fmt("%s %zu", what.c_str(), i));
            long dummy;
            void const *addr = nullptr;
            o.read(v[i], dummy, addr);
            Scope s;
            o.assign(v[i], const_cast<void *>(addr), r.chance(1, 2) ? CONST_LVALUE : LVALUE);
            break;
        }
        case 18: case 19:
        {
            int w = int(r.below(6));
            static char const *n[] = {"push_back-move", "push_back-copy", "erase", "insert", "rotate", "reserve"};
            what = S_(n[w]);
            extra = w;
            note(fmt("%s %zu,%zu", n[w], i, j));
            std::unique_ptr<Scope> s(new Scope);
            if (w == 0 && v.size() < 9) { v.push_back(std::move(v[j])); m.push_back(b); m[j] = MV{}; }
            else if (w == 1 && v.size() < 9)
            {
                if (b.kind >= 0 && !b.mode && !T[b.kind].copy) return;
                v.push_back(v[j]);
                m.push_back(b);
            }
            else if (w == 2 && v.size() > 3) { v.erase(v.begin() + long(i)); m.erase(m.begin() + long(i)); }
            else if (w == 3 && v.size() < 9)
            {
                v.insert(v.begin() + long(i), variant{});
                m.insert(m.begin() + long(i), MV{});
            }
            else if (w == 4)
            {
                std::rotate(v.begin(), v.begin() + long(i), v.end());
                std::rotate(m.begin(), m.begin() + long(i), m.end());
            }
            else if (w == 5) { v.reserve(v.capacity() + 1); }
            else return;
            break;
        }
        }
        verify(what, what);
        record(op, a, b, extra);
    }
};

Small make_small(int const &x) { return Small(x + 3); }

void register_converters()
{
    auto add = [](char const *f, char const *t, int off) { g_conv[{find_kind(f), find_kind(t)}] = off; };
    rtti::MetaType::registerConverter<int, Small>([](int x) { return Small(x + 3); });
    add("int", "Small", 3);
    rtti::MetaType::registerConverter<Small, Big>([](Small const &x) { return Big(x.value() + 1); });
    add("Small", "Big", 1);
    rtti::MetaType::registerConverter<Big, int>([](Big const &x) { return x.value() + 2; });
    add("Big", "int", 2);
    rtti::MetaType::registerConverter<int, std::string>([](int x) { return Io<std::string>::text(x); });
    add("int", "std::string", 0);
    rtti::MetaType::registerConverter<std::string, int>([](std::string const &x) { return int(Io<std::string>::read(x)); });
    add("std::string", "int", 0);
    rtti::MetaType::registerConverter<MoveOnlyS, Over32>([](MoveOnlyS const &x) { return Over32(x.value()); });
    add("MoveOnlyS", "Over32", 0);
    rtti::MetaType::registerConverter<Over32, ThrowMove>([](Over32 const &x) { return ThrowMove(x.value()); });
    add("Over32", "ThrowMove", 0);
}

} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    if (opt("--judge") == "value")
        S().mute = {"moved-from-object", "overwritten-", "used-outside-", "destroyed-", "never-destroyed", "misaligned", "storage-leak", "mismatched"};
    else if (opt("--judge") == "life")
        S().mute = {"value:"};
    register_converters();
    long n = std::atol(opt("--n", "1000").c_str());
    int len = std::atoi(opt("--len", "60").c_str());
    cov_max("kinds of value", table().size());
    for_cases(n, [&](long c, Rng &) {
        alloc::leak_checked("storage-leak", [&] {
            auto r = case_rng(c);
            auto uid = ledger().next_uid;
            History h(r);
            h.run(c, len);
            ledger().expect_none(uid, "the history ended");
            if (c < 2) sample("history: " + h.log);
        });
    });
    cov("objects created", ledger().created);
    cov("objects destroyed", ledger().destroyed);
    cov("copies", ledger().copies);
    cov("moves", ledger().moves);
    cov("tracked allocations", alloc::st().total);
    return finish();
}
