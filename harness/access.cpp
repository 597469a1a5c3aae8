// C08: every held type asked for as every type, in every way, against what the compiler says C++ allows.
#include "alloc_hook.h"
#include "access.h"
using namespace acc;

namespace acc {
#define D(n) void add_acc_##n(std::vector<Acc> &); void add_held_##n(std::vector<Held> &); void add_expect_##n(std::vector<std::vector<Expect>> &);
D(0) D(1) D(2) D(3) D(4) D(5) D(6)
}
static std::vector<Acc> A;
static std::vector<Held> H;
static std::vector<std::vector<Expect>> E;

static char const *const modes[] = {"held by value", "std::ref", "std::cref"};

struct Fixture
{
    int h, mode, payload;
    void *obj = nullptr;
    variant v, other;
    void const *home = nullptr;          // where the held object is
    long value = 0;

    Fixture(int h_, int mode_, int p, Rng &r, std::string &path) : h(h_), mode(mode_), payload(p)
    {
        auto &t = H[h];
        obj = t.create(p);
        value = t.value(obj);
        variant w;
        int k = int(r.below(6));
        if (k < 5) t.put(w, obj, mode);
        switch (k)
        {
        case 0: path = "moved in"; v = std::move(w); break;
        case 1: if (t.copy || mode) { path = "copied in"; v = w; break; } [[fallthrough]];
        case 2: path = "move constructed"; { variant x(std::move(w)); swap(v, x); } break;
        case 3: path = "swapped with another type"; v = 17L; swap(v, w); break;
        case 4: path = "through a vector";
        {
            std::vector<variant> q;
            q.push_back(std::move(w));
            for (int i = 0; i < 5; ++i) q.emplace_back(i);
            v = std::move(q[0]);
            break;
        }
        default: path = "put over a value"; v = std::string("something else"); t.put(v, obj, mode); break;
        }
    }
    ~Fixture()
    {
        v.clear();
        other.clear();
        H[h].del(obj);
    }
};

static void judge(int h, int mode, int a, Rng &r)
{
    std::string path;
    auto const &e = E[h][a];
    auto const &hd = H[h];
    auto const &ac = A[a];
    Fixture f(h, mode, int(r.below(80)), r, path);
    std::string what = fmt("%s %s (%s) asked for %s", hd.name, modes[mode], path.c_str(), ac.name);
    // where it is: as the held type itself says
    auto self = A[h].access(f.v, CREF_C);
    if (!check(self.got == OK, "own-type-refused", what)) return;
    f.home = self.addr;
    bool swept = hd.array && mode == 0;
    if (mode) check(f.home == f.obj, "reference-to-another-object", what);
    else check(f.home != f.obj, "value-not-copied", what);
    if (!mode && !swept)
    {
        auto p = static_cast<char const *>(f.home), q = reinterpret_cast<char const *>(&f.v);
        bool inside = p >= q && p < q + sizeof f.v;
        cov(inside ? "values inside the variant" : "values in storage of their own");
        if (inside) check(p + hd.size <= q + 16, "value-exceeds-variant", what);
    }
    // two rounds: the second after other accesses, which must not have changed anything
    for (int constant = 0; constant < 2; ++constant)
        for (int form = 0; form < NFORMS; ++form)
        {
            bool c = constant || mode == 2;
            bool want = form <= F_CVAL ? e.val[c] : form == F_LREF ? e.lref[c] : form == F_CLREF ? e.clref[c] : false;
            bool got = ac.is(f.v, constant, form);
            check(got == want, fmt("is:%s", form_name(form)), what + fmt(": is<%s> on a %svariant answers %d", form_name(form), constant ? "const " : "", int(got)));
            eval(comb(comb(h, a), comb(mode * 2 + constant, 100 + form)));
        }
    for (int op = 0; op < NOPKINDS; ++op)
    {
        at(op_name(op), what);
        bool cv = op == REF_C || op == CREF_C || op == DATA_C || op == TO_C || op == CAN_C;
        bool c = cv || mode == 2;
        int want;
        switch (op)
        {
        case REF_M: case DATA_M: want = e.lref[c]; break;
        case RREF: want = e.lref[c]; break;
        case TO_M: case TO_C: want = ac.array ? int(NA) : e.val[c] ? (e.copyable ? OK : OTHER_ERROR) : REFUSED; break;
        case CAN_M: case CAN_C: want = e.val[c]; break;
        default: want = e.clref[c]; break;
        }
        auto x = ac.access(f.v, op);
        eval(comb(comb(h, a), comb(mode, op)));
        std::string key = op_name(op);
        if (!check(x.got == want, (x.got == OK ? "granted:" : x.got == REFUSED ? "refused:" : "error:") + key,
                   what + fmt(": expected %d, got %d (0 refused, 1 granted, 2 another library error, 3 foreign error)", want, x.got)))
            continue;
        cov(want == OK ? "accesses granted" : "accesses refused");
        if (x.got != OK || op == CAN_M || op == CAN_C) continue;
        bool decays = hd.array && !ac.array;
        if (decays) check(x.value == reinterpret_cast<long>(f.home), "array-pointer:" + key, what);
        else
        {
            if (op != TO_M && op != TO_C) check(x.addr == f.home, "another-object:" + key, what);
            check(x.value == f.value, "value:" + key, what);
        }
    }
    // still the same
    auto again = A[h].access(f.v, CREF_C);
    check(again.got == OK && again.addr == f.home && again.value == f.value, "changed-by-access", what);
}

static void judge_empty(int a, Rng &r)
{
    variant v;
    int k = int(r.below(3));
    if (k == 1) { v = std::string("x"); v.clear(); }
    if (k == 2) { v = Big(1); variant w(std::move(v)); (void)w; }
    std::string what = fmt("empty variant asked for %s", A[a].name);
    for (int constant = 0; constant < 2; ++constant)
        for (int form = 0; form < NFORMS; ++form)
        {
            check(!A[a].is(v, constant, form), "is:empty", what);
            eval(comb(comb(9999, a), comb(constant, form)));
        }
    for (int op = 0; op < NOPKINDS; ++op)
    {
        at(op_name(op), what);
        auto x = A[a].access(v, op);
        check(x.got == REFUSED || x.got == NA, std::string("empty:") + op_name(op), what + fmt(": %d", x.got));
        eval(comb(comb(9998, a), op));
        cov("accesses to empty variants");
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute = {"moved-from-object"};
#undef D
    add_acc_0(A); add_acc_1(A); add_acc_2(A); add_acc_3(A); add_acc_4(A); add_acc_5(A); add_acc_6(A);
    add_held_0(H); add_held_1(H); add_held_2(H); add_held_3(H); add_held_4(H); add_held_5(H); add_held_6(H);
    add_expect_0(E); add_expect_1(E); add_expect_2(E); add_expect_3(E); add_expect_4(E); add_expect_5(E); add_expect_6(E);
    cov_max("types", A.size());
    long n = long(A.size()), rounds = std::atol(opt("--rounds", "1").c_str());
    for_cases(n * (n + 1) * rounds, [&](long i, Rng &r) {
        long h = i / n % (n + 1), a = i % n;
        begin_case(i, "access");
        auto uid = ledger().next_uid;
        alloc::leak_checked("storage-leak", [&, first = r] {
            alloc::Scope s;
            auto r = first;
            if (h == n) judge_empty(int(a), r);
            else
            {
                // one mode per round for unrelated types, all of them for related ones
                bool rel = E[h][a].same;
                for (int mode = 0; mode < 3; ++mode)
                    if (rel || mode == (i / n + a) % 3) judge(int(h), mode, int(a), r);
                if (rel) cov("related pairs");
                if (i % 1511 == 0) sample(fmt("%s asked for %s: same decayed type %d, T& %d, T const& %d, T %d", H[h].name, A[a].name, E[h][a].same, E[h][a].lref[0], E[h][a].clref[0], E[h][a].val[0]));
            }
        });
        ledger().expect_none(uid, "access");
    });
    cov("objects created", ledger().created);
    return finish();
}
