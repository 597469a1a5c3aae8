// C10: random histories of registering, using and removing converters against a map.
#include "alloc_hook.h"
#include "convhist.h"
using namespace ch;

namespace ch {
void add_conv_0(std::vector<TOps> &, std::vector<POps> &); void add_conv_1(std::vector<TOps> &, std::vector<POps> &);
void add_conv_2(std::vector<TOps> &, std::vector<POps> &); void add_conv_3(std::vector<TOps> &, std::vector<POps> &);
void add_conv_4(std::vector<TOps> &, std::vector<POps> &); void add_conv_5(std::vector<TOps> &, std::vector<POps> &);
void add_conv_6(std::vector<TOps> &, std::vector<POps> &);
}
static std::vector<TOps> T;
static std::vector<POps> P;
struct Reg { int kind, tag; };
static std::map<std::pair<int, int>, Reg> model;
static int norm_kind(int from, int kind)
{
    if (from == 5 && kind == FUNCTOR_REF) return FUNCTOR;
    if (from == 6 && kind == METHOD) return FUNCTION;
    if (from == 6 && kind == METHOD_OK) return FUNCTOR_OK;
    return kind;
}
static std::string pair_name(int f, int t) { return fmt("type %d -> type %d", f, t); }

static void use(int f, int t, Rng &r, std::string &log)
{
    auto &F = T[f];
    auto &To = T[t];
    long val = r.range(0, 60);
    int mode = int(r.below(3)), how = int(r.below(NENTRY));
    // only movable sources cannot be copied out, only copyable targets can be moved on
    void *obj = F.make(val);
    variant v;
    F.put(v, obj, mode);
    auto it = model.find({f, t});
    bool have = it != model.end();
    Reg reg = have ? it->second : Reg{0, 0};
    bool direct = f == t;
    std::string what = fmt("%s of a %s type %d{%ld} to type %d (%s)", entry_name(how), mode ? mode == 1 ? "ref to" : "cref to" : "held", f, val, t,
                           have ? conv_name(reg.kind) : direct ? "itself" : "no converter");
    log += what + "; ";
    at("convert", what);
    calls().clear();
    long got = -1, before = 0, after = 0;
    void const *a0 = nullptr, *a1 = nullptr;
    bool h0 = F.holds(v, before, a0);
    check(h0 && before == val, "held", what);
    auto alive = ledger().count_since(0);
    int res = To.enter(v, how, got);
    long expect = have ? rule(reg.kind, f, t, reg.tag, val) : NOT_CONVERTED;
    bool runs = have && !direct && how != CAN_M && how != CAN_C && how != CAN_K;
    int want;
    if (how == CAN_M || how == CAN_C || how == CAN_K) want = have || direct ? CONVERTED : NOT_CONVERTED;
    else if (direct) want = t == 5 ? (how == TRY ? NOT_CONVERTED : LIBRARY_ERROR) : CONVERTED;
    else if (!have) want = how == TRY ? NOT_CONVERTED : CONVERT_ERROR;
    else if (expect == THROWS)
    {
        bool propagates = reg.kind == FUNCTOR_OK || reg.kind == METHOD_OK;
        want = how == TRY ? NOT_CONVERTED : propagates ? THROWN : CONVERT_ERROR;
    }
    else if (expect == FAILS) want = how == TRY ? NOT_CONVERTED : CONVERT_ERROR;
    else want = CONVERTED;
    std::string key = std::string(entry_name(how)) + (have ? std::string(":") + conv_name(reg.kind) : "");
    check(res == want, "outcome:" + key, what + fmt(": %d, expected %d (0 converted, 1 refused, 2 convert error, 3 converter's exception, 4 library error, 5 other)", res, want));
    check(calls().size() == (runs ? 1u : 0u), "conversions-run:" + key, what + fmt(": %zu", calls().size()));
    if (runs && !calls().empty())
    {
        auto &c = calls()[0];
        check(c.from == f && c.to == t, "another-pairs-converter:" + key, what + fmt(": ran %d -> %d", c.from, c.to));
        bool tagged = reg.kind != FUNCTION && reg.kind != METHOD && reg.kind != METHOD_OK;
        if (tagged) check(c.tag == reg.tag, "another-converter:" + key, what + fmt(": tag %d, registered %d", c.tag, reg.tag));
        check(c.value == val, "converted-value:" + key, what);
        if (c.src) check(c.src == a0, "converted-another-object:" + key, what);
        if (reg.kind == SELF_REMOVING) model.erase({f, t});
    }
    if (res == CONVERTED && want == CONVERTED)
    {
        long target = direct ? val : expect;
        if (how == TO_M || how == TO_C || how == TO_K) check(got == target, "result:" + key, what + fmt(": %ld, expected %ld", got, target));
        if (how == CONVERT || how == TRY)
        {
            bool h = To.holds(v, after, a1);
            check(h && after == target, "result:" + key, what + fmt(": holds %ld, expected %ld", h ? after : -1, target));
            if (mode && !direct) check(F.read(obj) == val, "source-changed:" + key, what);
        }
        else
        {
            bool h = F.holds(v, after, a1);
            check(h && after == val && a0 == a1, "source-changed:" + key, what);
        }
        cov(runs ? "conversions run" : "answers without running a converter");
    }
    else
    {
        bool h = F.holds(v, after, a1);
        check(h && after == val && a0 == a1, "source-changed:" + key, what);
        check(ledger().count_since(0) == alive, "product-not-released:" + key, what + fmt(": %zu objects before, %zu after", alive, ledger().count_since(0)));
        cov(runs ? "failing conversions" : "refused conversions");
    }
    eval(comb(comb(comb(f, t), comb(how, mode)), comb(reg.kind * 2 + have, std::uint64_t(expect < 0 ? -expect : 0))));
    v.clear();
    F.del(obj);
}

static void history(long n, Rng &r)
{
    std::string log;
    // start from nothing
    for (auto &p : P) p.unreg(0);
    model.clear();
    int steps = r.range(20, 120), pairs = r.range(1, 6);
    std::vector<int> some;
    for (int i = 0; i < pairs; ++i) some.push_back(int(r.below(P.size())));
    for (int i = 0; i < steps; ++i)
    {
        auto &p = P[r.chance(1, 5) ? r.below(P.size()) : r.pick(some)];
        auto key = std::make_pair(p.from, p.to);
        int x = int(r.below(10));
        if (x < 3)
        {
            int kind = int(r.below(NCONV)), tag = r.range(1, 300), form = int(r.below(4));
            at("register", pair_name(p.from, p.to) + " " + conv_name(kind));
            bool want = !model.count(key);
            bool got = p.reg(kind, tag, form);
            log += fmt("register %s %s: %d; ", pair_name(p.from, p.to).c_str(), conv_name(kind), int(got));
            check(got == want, "register", log);
            if (want) model[key] = Reg{norm_kind(p.from, kind), tag};
            cov(want ? "registrations" : "refused registrations");
            eval(comb(comb(p.from, p.to), comb(100 + kind, want)));
        }
        else if (x == 3)
        {
            int form = int(r.below(4));
            at("unregister", pair_name(p.from, p.to));
            p.unreg(form);
            model.erase(key);
            log += fmt("unregister %s; ", pair_name(p.from, p.to).c_str());
            cov("removals");
        }
        else if (x == 4)
        {
            // everything is what it should be
            for (auto &q : P)
            {
                bool want = model.count({q.from, q.to});
                check(q.has(int(r.below(4))) == want, "has", pair_name(q.from, q.to) + fmt(", expected %d after ", want) + log.substr(log.size() > 900 ? log.size() - 900 : 0));
                eval(comb(comb(q.from, q.to), 200 + want));
            }
        }
        else use(p.from, p.to, r, log);
    }
    if (n < 3) sample(log);
}

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute = {"moved-from-object"};
    add_conv_0(T, P); add_conv_1(T, P); add_conv_2(T, P); add_conv_3(T, P); add_conv_4(T, P); add_conv_5(T, P); add_conv_6(T, P);
    cov_max("pairs of types", P.size());
    for_cases(std::atol(opt("--histories", "2000").c_str()), [&](long i, Rng &r) {
        begin_case(i, "history");
        auto uid = ledger().next_uid;
        history(i, r);
        ledger().expect_none(uid, "history of converters");
        cov("histories");
    });
    return finish();
}
