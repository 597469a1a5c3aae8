// C07: every operation is run once cleanly, counting the points where a
// contained type may throw or an allocation may fail, and then once per point
// with exactly that point failing.
#include "alloc_hook.h"
#include "kinds.h"

using namespace kinds;
using rtti::variant;
using alloc::Scope;

void api_scenarios(std::vector<struct Scenario> &);
bool clean_run = false;         // nothing is failed in the running scenario

namespace {

auto const &T = table();

struct Hold { int kind = -1, mode = 0; long val = 0; };

/// Fixed surroundings of one operation: variants with known contents.
struct World
{
    std::vector<variant> v;
    std::vector<Hold> h;
    std::vector<std::pair<int, void *>> objs;      // user objects, never touched by a failing operation

    void put(int kind, int mode, int p)
    {
        Hold x;
        v.emplace_back();
        if (kind >= 0)
        {
            auto &o = T[kind];
            void *obj = o.create(p);
            x.kind = kind;
            x.mode = mode;
            x.val = o.read_obj(obj);
            if (mode) { o.assign(v.back(), obj, mode == 1 ? REF : CREF); objs.push_back({kind, obj}); }
            else { o.assign(v.back(), obj, RVALUE); o.del(obj); }
        }
        h.push_back(x);
    }
    ~World()
    {
        v.clear();
        for (auto &o : objs) T[o.first].del(o.second);
    }
    bool holds(std::size_t i, Hold const &x) const
    {
        if (v[i].empty() != (x.kind < 0)) return false;
        if (x.kind < 0) return true;
        long got = 0;
        void const *a;
        return T[x.kind].read(v[i], got, a) && got == x.val;
    }
};

enum Op { CTOR, ASSIGN, COPY_CTOR, COPY_ASSIGN, SELF_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, SWAP, CLEAR, DESTROY, TO, CONVERT, TRY_CONVERT,
          EQ, EQ_OBJ, IS, READ, PUSH_COPY, PUSH_MOVE, VCOPY, HASH, NOPS };
char const *op_names[] = {"construct", "assign", "copy-construct", "copy-assign", "self-assign", "move-construct", "move-assign", "swap",
                          "clear", "destroy", "to", "convert", "tryConvert", "compare", "compare-object", "is", "read",
                          "vector-push-copy", "vector-push-move", "vector-copy", "hash"};
bool nothrow_op(int op) { return op == MOVE_CTOR || op == MOVE_ASSIGN || op == SWAP || op == CLEAR || op == DESTROY || op == HASH; }

struct Case { int op, a, amode, b, bmode, form, pa, pb; };
std::string text(Case const &c)
{
    return fmt("%s %s%s, %s%s %s", op_names[c.op], c.a < 0 ? "empty" : T[c.a].name.c_str(), c.amode ? " by reference" : "",
               c.b < 0 ? "empty" : T[c.b].name.c_str(), c.bmode ? " by reference" : "", mode_name(c.form));
}

enum Out { DONE, INJECTED, NOMEM, RTTI, OTHER, SKIPPED };

/// Runs the operation in a fresh world. fault: which event throws (-1 none), mem: which allocation fails.
struct Result { Out out; long faults, allocs; bool fired, afired; };

Result run(Case const &c, long fault, long mem, bool warm = false)
{
    Result res{DONE, 0, 0, false, false};
    auto uid0 = ledger().next_uid;
    {
        World w;
        w.put(c.a, c.amode, c.pa);
        w.put(c.b, c.bmode, c.pb);
        w.put(find_kind("int"), 0, 5);
        auto h0 = w.h;
        void *obj = nullptr;
        int form = c.form;
        if (c.op == CTOR || c.op == ASSIGN || c.op == EQ_OBJ)
        {
            obj = T[c.b].create(c.pb);
            if (!T[c.b].mode_ok(form)) form = RVALUE;
            if (form == REF || form == CREF) form = RVALUE;
        }
        alignas(variant) unsigned char raw[sizeof(variant)];
        bool made = false;
        std::vector<variant> copy_of;
        if (c.op == DESTROY) { new (raw) variant(); static_cast<variant *>(static_cast<void *>(raw))->operator=(std::move(w.v[0])); w.h[0] = Hold{}; made = true; }
        if (c.op == PUSH_COPY || c.op == PUSH_MOVE) w.v.shrink_to_fit();
        auto objs_before = ledger().count();
        auto const blocks_before = alloc::live();
        long tmp;
        void const *addr;
        if (fault >= 0) faults().arm(fault); else { faults().off(); faults().seen = 0; }
        try
        {
            Scope s;
            if (mem >= 0) alloc::arm(mem); else alloc::st().seen = 0;
            switch (c.op)
            {
            case CTOR: T[c.b].ctor(raw, obj, form); made = true; break;
            case ASSIGN: T[c.b].assign(w.v[0], obj, form); break;
            case COPY_CTOR: new (raw) variant(w.v[1]); made = true; break;
            case COPY_ASSIGN: w.v[0] = w.v[1]; break;
            case SELF_ASSIGN: w.v[0] = static_cast<variant const &>(w.v[0]); break;
            case MOVE_CTOR: new (raw) variant(std::move(w.v[1])); made = true; break;
            case MOVE_ASSIGN: w.v[0] = std::move(w.v[1]); break;
            case SWAP: swap(w.v[0], w.v[1]); break;
            case CLEAR: w.v[0].clear(); break;
            case DESTROY: static_cast<variant *>(static_cast<void *>(raw))->~variant(); made = false; break;
            case TO: if (c.b >= 0 && !T[c.b].array && T[c.b].copy) T[c.b].to(w.v[0], tmp); break;
            case CONVERT: if (c.b >= 0 && !T[c.b].array && T[c.b].copy && (c.a < 0 || !T[c.a].array)) T[c.b].convert(w.v[0]); break;
            case TRY_CONVERT: if (c.b >= 0 && !T[c.b].array && T[c.b].copy && (c.a < 0 || !T[c.a].array)) T[c.b].try_convert(w.v[0]); break;
            case EQ: (void)(w.v[0] == w.v[1]); break;
            case EQ_OBJ: T[c.b].eq_obj(w.v[0], obj); break;
            case IS: if (c.b >= 0) T[c.b].is_c(w.v[0]); break;
            case READ: if (c.b >= 0) T[c.b].read(w.v[0], tmp, addr); break;
            case PUSH_COPY: w.v.push_back(w.v[0]); break;
            case PUSH_MOVE: w.v.push_back(std::move(w.v[0])); break;
            case VCOPY: copy_of = w.v; break;
            case HASH: (void)std::hash<variant>{}(w.v[0]); break;
            }
        }
        catch (Injected &) { res.out = INJECTED; }
        catch (std::bad_alloc &) { res.out = NOMEM; }
        catch (rtti::runtime_error &) { res.out = RTTI; }
        catch (...) { res.out = OTHER; }
        res.fired = fault >= 0 && faults().fired;
        res.afired = mem >= 0 && alloc::st().fired;
        res.faults = faults().seen;
        res.allocs = alloc::st().seen;
        faults().off();
        alloc::off();
        std::string what = text(c) + fmt(", fault %ld, allocation %ld", fault, mem);
        std::string key = op_names[c.op];
        bool failed = res.out != DONE;
        if (failed)
        {
            check(!nothrow_op(c.op), "nothrow-operation-threw:" + key, what);
            check(res.out != OTHER, "unknown-exception:" + key, what);
            for (std::size_t i = 0; i < h0.size(); ++i)
                if (!(c.op == DESTROY && i == 0))
                    check(w.holds(i, h0[i]), "variant-changed-by-failure:" + key, fmt("variant %zu; ", i) + what);
            check(w.v.size() == h0.size(), "variant-changed-by-failure:" + key, what);
            check(ledger().count() == objs_before, "object-left-by-failure:" + key, fmt("%zu before, %zu after; ", objs_before, ledger().count()) + what);
            check(warm || alloc::live() <= blocks_before, "storage-left-by-failure:" + key, alloc::describe() + what);
        }
        if (res.fired || res.afired)
        {
            bool swallow = c.op == TRY_CONVERT || c.op == CONVERT || c.op == TO;   // converters' exceptions mean bad_variant_convert; tryConvert answers false
            if (!swallow) check(failed, "exception-swallowed:" + key, what);
            if (c.op == TRY_CONVERT)
                for (std::size_t i = 0; i < h0.size(); ++i)
                    check(w.holds(i, h0[i]) , "variant-changed-by-failure:" + key, fmt("variant %zu; ", i) + what);
            if (failed && !swallow)
                check(res.out == (res.fired ? INJECTED : NOMEM), "other-exception:" + key, what);
        }
        if (made) static_cast<variant *>(static_cast<void *>(raw))->~variant();
        if (obj) T[c.b].del(obj);
    }
    ledger().expect_none(uid0, text(c));
    return res;
}

void explore(Case const &c, long n)
{
    begin_case(n, op_names[c.op], text(c));
    run(c, -1, -1, true);          // first use registers types for good
    alloc::forget();
    auto clean = run(c, -1, -1);
    if (alloc::live()) { viol("storage-leak", alloc::describe() + text(c)); alloc::forget(); }
    cov(std::string("op:") + op_names[c.op]);
    cov("clean runs");
    if (n % 97 == 0) sample(text(c) + fmt(": %ld throw points, %ld allocations, each failed in turn", clean.faults, clean.allocs));
    auto code = comb(comb(comb(c.op, c.a + 1), comb(c.b + 1, c.amode * 4 + c.bmode)), c.form);
    eval(comb(code, 0), false);
    long nf = nothrow_op(c.op) ? std::max(1l, clean.faults) : clean.faults, na = nothrow_op(c.op) ? std::max(1l, clean.allocs) : clean.allocs;
    cov("throw points found", clean.faults);
    cov("allocation points found", clean.allocs);
    for (long k = 0; k < nf && k < 200; ++k)
    {
        begin_case(n, op_names[c.op], text(c) + fmt(" with event %ld throwing", k));
        auto r = run(c, k, -1);
        cov(r.fired ? "exceptions injected" : "throw points not reached");
        eval(comb(code, comb(1, k)), r.fired || nothrow_op(c.op));
        if (alloc::live()) { viol("storage-leak", alloc::describe() + text(c)); alloc::forget(); }
    }
    for (long k = 0; k < na && k < 200; ++k)
    {
        begin_case(n, op_names[c.op], text(c) + fmt(" with allocation %ld failing", k));
        auto r = run(c, -1, k);
        cov(r.afired ? "allocation failures injected" : "allocation points not reached");
        eval(comb(code, comb(2, k)), r.afired || nothrow_op(c.op));
        if (alloc::live()) { viol("storage-leak", alloc::describe() + text(c)); alloc::forget(); }
    }
}

void register_converters()
{
    rtti::MetaType::registerConverter<int, Small>([](int x) { return Small(x + 3); });
    rtti::MetaType::registerConverter<Small, Big>([](Small const &x) { return Big(x.value() + 1); });
    rtti::MetaType::registerConverter<Big, int>([](Big const &x) { faults().point(9); return x.value() + 2; });
    rtti::MetaType::registerConverter<int, std::string>([](int x) { return Io<std::string>::text(x); });
    rtti::MetaType::registerConverter<std::string, Big>([](std::string const &x, bool &ok) { ok = x.size() > 3; return Big(int(x.size())); });
    rtti::MetaType::registerConverter<Big, Over128>([](Big const &x, bool &ok) { ok = x.value() % 2; return Over128(x.value()); });
    rtti::MetaType::registerConverter<MoveOnlyS, ThrowMove>([](MoveOnlyS const &x) { return ThrowMove(x.value()); });
    rtti::MetaType::registerConverter<Over32, CopyOnlyB>([](Over32 const &x) { return CopyOnlyB(x.value()); });
}

} // namespace

// --- calls of registered functions -----------------------------------------------------------------
struct Scenario
{
    char const *name;
    // returns after the operation; everything it made must be gone when it is over
    void (*run)(std::function<void(std::function<void()>)> const &guarded);
};

namespace {

void explore_api(Scenario const &s, long n)
{
    struct Seen { Out out; bool fired, afired; long f, a; };
    auto once = [&](long fault, long mem, bool warm = false)
    {
        Seen r{DONE, false, false, 0, 0};
        auto uid0 = ledger().next_uid;
        s.run([&](std::function<void()> body)
        {
            auto objs = ledger().count();
            auto blocks = alloc::live();
            clean_run = fault < 0 && mem < 0;
            if (fault >= 0) faults().arm(fault); else { faults().off(); faults().seen = 0; }
            try
            {
                Scope sc;
                if (mem >= 0) alloc::arm(mem); else alloc::st().seen = 0;
                body();
            }
            catch (Injected &) { r.out = INJECTED; }
            catch (std::bad_alloc &) { r.out = NOMEM; }
            catch (rtti::runtime_error &) { r.out = RTTI; }
            catch (...) { r.out = OTHER; }
            r.fired = fault >= 0 && faults().fired;
            r.afired = mem >= 0 && alloc::st().fired;
            r.f = faults().seen;
            r.a = alloc::st().seen;
            faults().off();
            alloc::off();
            std::string what = fmt("%s, fault %ld, allocation %ld", s.name, fault, mem);
            if (fault < 0 && mem < 0)
                check(r.out == DONE, std::string("clean-run-failed:") + s.name, what);
            if (r.out != DONE)
            {
                check(ledger().count() == objs, std::string("object-left-by-failure:") + s.name, fmt("%zu before, %zu after; ", objs, ledger().count()) + what);
                check(warm || alloc::live() <= blocks, std::string("storage-left-by-failure:") + s.name, alloc::describe() + what);
            }
            // a converter that throws "cannot convert", which eq and overload choice answer by going on
            if (r.fired || r.afired)
                check(r.out == (r.fired ? INJECTED : NOMEM) || ((r.out == RTTI || r.out == DONE) && std::strstr(s.name, "converted")), std::string("exception-lost:") + s.name, what);
        });
        ledger().expect_none(uid0, s.name);
        return r;
    };
    begin_case(n, s.name);
    once(-1, -1, true);
    alloc::forget();
    auto clean = once(-1, -1);
    if (alloc::live()) { viol("storage-leak", alloc::describe() + s.name); alloc::forget(); }
    cov("throw points found", clean.f);
    cov("allocation points found", clean.a);
    cov("scenarios of calls");
    auto code = hash_str(s.name);
    eval(code, false);
    for (int mode = 0; mode < 2; ++mode)
        for (long k = 0; k < (mode ? clean.a : clean.f); ++k)
        {
            begin_case(n, s.name, fmt("%s %ld", mode ? "allocation" : "throw point", k));
            auto r = once(mode ? -1 : k, mode ? k : -1);
            cov(mode ? (r.afired ? "allocation failures injected" : "allocation points not reached")
                     : (r.fired ? "exceptions injected" : "throw points not reached"));
            eval(comb(code, comb(mode + 1, k)), mode ? r.afired : r.fired);
            if (alloc::live()) { viol("storage-leak", alloc::describe() + s.name); alloc::forget(); }
        }
}

} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute = {"moved-from-object"};       // judged by C05
    register_converters();
    cov_max("kinds of value", T.size());
    std::vector<Scenario> sc;
    api_scenarios(sc);
    long const nk = long(T.size());
    // every operation with every kind in every role, the other role drawn at random
    long per = nk * 2;
    long rounds = std::atol(opt("--rounds", "1").c_str());
    long total = NOPS * per * rounds;
    for_cases(total + long(sc.size()), [&](long i, Rng &r) {
        if (i >= total) { explore_api(sc[i - total], i); return; }
        Case c;
        c.op = int(i % NOPS);
        long k = (i / NOPS) % per;
        int x = int(k / 2), y = r.chance(1, 3) ? x : r.chance(1, 8) ? -1 : int(r.below(nk));
        // converters only exist between a few kinds
        if ((c.op == TO || c.op == CONVERT || c.op == TRY_CONVERT) && k % 2)
        {
            static char const *pairs[][2] = {{"int", "Small"}, {"Small", "Big"}, {"Big", "int"}, {"int", "std::string"}, {"std::string", "Big"},
                                             {"Big", "Over128"}, {"MoveOnlyS", "ThrowMove"}, {"Over32", "CopyOnlyB"}};
            auto &p = pairs[r.below(8)];
            c.a = find_kind(p[0]);
            c.b = find_kind(p[1]);
        }
        else if (k % 2) { c.a = x; c.b = y; }
        else { c.a = y; c.b = x; }
        c.amode = r.chance(1, 6) ? r.range(1, 2) : 0;
        c.bmode = r.chance(1, 6) ? r.range(1, 2) : 0;
        c.form = int(r.below(NMODES));
        if ((c.op == CTOR || c.op == ASSIGN || c.op == EQ_OBJ) && c.b < 0) c.b = x;
        c.pa = c.a < 0 ? 0 : int(r.below(T[c.a].dom));
        c.pb = c.b < 0 ? 0 : r.chance(1, 2) && c.a == c.b ? c.pa : int(r.below(T[c.b].dom));
        explore(c, i);
    });
    cov("objects created", ledger().created);
    cov("tracked allocations", alloc::st().total);
    return finish();
}
