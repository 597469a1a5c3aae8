// C11: every complete object of generated hierarchies, seen through every static type, asked
// for every class, by meta_cast and by variant; judged by the graph of declared bases and by
// what the compiler's own casts say about addresses.
#include "hier.h"
using namespace rv;
using namespace hier;

#define HIER(n) void hierarchy_##n();
#include "hier_all.inc"
#undef HIER

static std::vector<Class> &C = classes();

static bool reach(int from, int to)
{
    if (from == to) return true;
    for (int b : C[from].declared) if (reach(b, to)) return true;
    return false;
}

/// What casting the object (complete class d at obj) seen as its subobject s to class `to` may give.
struct Expect
{
    bool must = false;               // must give `addr`
    void const *addr = nullptr;
    std::vector<void const *> may;   // or: null or one of these (ambiguous)
};
static Expect expect(int d, void *obj, int s, int to)
{
    Expect e;
    auto &D = C[d];
    int st = D.subs[s].cls;
    void *sa = D.subs[s].at(obj);
    int from;
    if (C[st].own_ci) from = D.ci;
    else from = st;
    if (to < 0 || from < 0) return e;
    if (!C[from].registered || !C[to].registered || !reach(from, to)) return e;
    if (from == st && !C[st].own_ci)
    {
        // only the static type is known: the subobjects of st within d; st's own unique bases
        for (auto &x : C[st].subs) if (x.cls == to) e.may.push_back(x.at(sa));
    }
    else
        for (auto &x : D.subs) if (x.cls == to && x.in_ci) e.may.push_back(x.at(obj));
    if (e.may.size() == 1) { e.must = true; e.addr = e.may[0]; }
    return e;
}
static bool fits(Expect const &e, void const *p)
{
    if (e.must) return p == e.addr;
    if (!p) return true;
    return std::find(e.may.begin(), e.may.end(), p) != e.may.end();
}
static std::string show(Expect const &e)
{
    if (e.must) return fmt("address %p", e.addr);
    if (e.may.empty()) return "no object";
    return fmt("null or one of %zu subobjects", e.may.size());
}

static std::string where_text;
static int D_, S_, T_;
static void bad(char const *key, std::string const &what)
{
    auto t = T_ < 0 ? std::string("unrelated class") : std::string(C[T_].name);
    viol(key, fmt("object of %s seen as %s asked for %s: ", C[D_].name, C[C[D_].subs[S_].cls].name, t.c_str()) + what + where_text);
}

static void judge_meta(int d, void *obj, int s, std::pair<int, MetaCast> const &row)
{
    int st = C[d].subs[s].cls, to = row.first;
    T_ = to;
    auto &m = row.second;
    void *sa = C[d].subs[s].at(obj);
    auto e = expect(d, obj, s, to);
    if (!C[st].own_ci)
    {
        // without class info of its own a class is only itself ... or is known through an inherited one
        e = Expect{};
        if (to == st) { e.must = true; e.addr = sa; }
        auto f = Expect{};
        if (C[d].ci >= 0 && to >= 0) for (auto &x : C[d].subs) if (x.cls == to) e.may.push_back(x.at(obj));
    }
    struct { char const *n; Res r; bool ref; } got[] = {{"meta_cast<T const>(S const*)", m.cptr(sa), false}, {"meta_cast<T>(S*)", m.ptr(sa), false},
        {"meta_cast<T>(S&)", m.ref(sa), true}, {"meta_cast<T>(S const&)", m.cref(sa), true}};
    Res first = got[0].r;
    for (auto &g : got)
    {
        auto p = g.r.what == Got ? g.r.p : nullptr;
        if (g.r.what == Other || g.r.what == BadCast || g.r.what == BadConvert || (!g.ref && g.r.what != Got && g.r.what != Null)
            || (g.ref && g.r.what == Null))
            bad("metacast-outcome", fmt("%s gave %s", g.n, outcome_name(g.r.what)));
        else if (C[st].own_ci ? !fits(e, p) : (p && p != e.addr && std::find(e.may.begin(), e.may.end(), p) == e.may.end()))
            bad("metacast-address", fmt("%s gave %p, expected %s", g.n, p, show(e).c_str()));
        else if (p != (first.what == Got ? first.p : nullptr))
            bad("metacast-forms-differ", fmt("%s gave %p, the first form %p", g.n, p, first.p));
        if (p && to >= 0 && fits(e, p) && C[to].mark(p) != C[to].mark(p)) {}
        cov(p ? "meta_cast succeeded" : "meta_cast refused");
    }
    // the compiler's opinion, where the class graph is fully declared
    if (m.has_dyn && e.must && C[st].own_ci)
    {
        auto q = m.dyn(sa);
        if (q != e.addr && !(to == st))
            cov("model differs from dynamic_cast");
        else cov("confirmed by dynamic_cast");
    }
    if (!e.may.empty() && !e.must) cov("ambiguous target");
    // null pointers
    auto n1 = m.cptr(nullptr), n2 = m.ptr(nullptr);
    if (n1.what != Null || n2.what != Null) bad("metacast-null", "a null pointer gave something");
    eval(hash_str(fmt("m%d/%d/%d", d, s, to)), true, 4);
}

static bool is_ptr(int h) { return h >= ByPtr && h <= ByNull; }


static void run_variant(int d, void *obj, int s, int how, Rng &r)
{
    using rtti::variant;
    int st = C[d].subs[s].cls;
    if ((how == ByValue || how == ByMove || how == ByConstVal) && s != 0) return;   // copies of the complete object only
    void *sa = C[d].subs[s].at(obj);
    variant w, v;
    if (!C[st].hold(w, how, sa)) return;
    switch (r.below(4))
    {
    case 0: v = w; break;
    case 1: v = std::move(w); break;
    case 2: { variant x(w); swap(v, x); break; }
    default: v = 5; swap(v, w); break;
    }
    bool ptr = is_ptr(how);
    bool konst = how == ByCref || how == ByCPtr;
    // the object that casts start from
    void *base_obj = obj;
    int bs = s;
    if (how == ByValue || how == ByMove || how == ByConstVal)
    {
        base_obj = const_cast<void *>(C[st].ask_const(v, Cref, nullptr).p);
        if (!base_obj) { T_ = st; bad("held-object", "the held object cannot be had as its own type"); return; }
        if (base_obj == obj) { T_ = st; bad("held-object", "the variant refers to the source instead of a copy"); return; }
    }
    std::vector<int> targets;
    for (int t = 0; t < int(C.size()); ++t) if (C[t].hier == C[d].hier) targets.push_back(t);
    targets.push_back(int(r.below(C.size())));
    for (int t : targets)
    {
        T_ = t;
        bool foreign = C[t].hier != C[d].hier;
        Expect e;
        if (how == ByNull) { }
        else if (t == st) { e.must = true; e.addr = C[d].subs[bs].at(base_obj); }
        else if (!foreign) e = expect(d, base_obj, bs, t);
        else e = Expect{};
        // a class without class info of its own may be known through an inherited one
        bool loose = !C[st].own_ci && t != st && how != ByNull;
        if (loose)
        {
            if (!foreign && C[d].ci >= 0)
                for (auto &x : C[d].subs) if (x.cls == t) { auto p = x.at(base_obj); if (std::find(e.may.begin(), e.may.end(), p) == e.may.end()) e.may.push_back(p); }
            if (C[d].ci >= 0) e.must = false;
        }
        bool vconst = false;
        for (int round = 0; round < 2; ++round, vconst = true)
            for (int a = 0; a < ASKS; ++a)
            {
                if (a == ToRV || (vconst && (a == RrefV || a == RefRV || a == RefP))) continue;
                if (a == To && C[t].abstract) continue;
                bool askp = a >= IsP && a <= ToCP;
                where_text = fmt(" [held %s, %s of a %s variant]", hold_name(how), ask_name(a), vconst ? "const" : "mutable");
                long extra = 0;
                Res g = vconst ? C[t].ask_const(v, a, &extra) : C[t].ask(v, a, &extra);
                // is the question one C++ reference binding allows at all?
                bool allowed;
                bool obj_const = ptr ? konst : (konst || vconst);
                switch (a)
                {
                case Is: case IsC: case IsCL: case Cref: case To: allowed = !ptr; break;
                case IsL: allowed = !ptr && !obj_const; break;
                case Data: case Ref: allowed = !ptr && (!obj_const || vconst); break;     // of a const variant they are const
                case IsR: allowed = false; break;
                case RrefV: case RefRV: allowed = !ptr && !(a == RrefV && konst); break;
                case IsP: case ToP: case CrefP: allowed = ptr && !konst; break;
                case DataP: allowed = ptr && !konst && (vconst || t == st); break;
                case RefP: allowed = ptr && !konst && t == st; break;
                case IsCP: case ToCP: case CrefCP: allowed = ptr; break;
                case DataCP: allowed = ptr && (vconst || (t == st && konst)); break;
                default: allowed = false;
                }
                if ((a == RrefV || a == RefRV) && (how == ByRef || how == ByCref)) continue;   // C08 judges references and value category
                bool got = g.what == Got;
                cov(got ? "variant access granted" : "variant access refused");
                if (g.what == Other || g.what == BadMeta) { bad("variant-outcome", fmt("gave %s", outcome_name(g.what))); continue; }
                bool refp = a == DataP || a == RefP || a == CrefP || a == DataCP || a == CrefCP;
                if (how == ByNull)
                {
                    if (t == st)
                    {
                        bool want = allowed && a != ToP && a != ToCP;
                        if (a == ToP || a == ToCP) { if (g.what != Null) bad("variant-null", "null pointer came out as something else"); }
                        else if (got != want && !(a == DataCP || a == CrefCP)) bad("variant-null", fmt("access to the null pointer itself gave %s", outcome_name(g.what)));
                        else if (got && refp && extra != 0) bad("variant-null", "a reference to the null pointer does not refer to null");
                    }
                    else if (got) bad("variant-null", "a null pointer was taken for an object");
                    continue;
                }
                if (!allowed)
                {
                    if (got) bad("variant-granted", fmt("granted, though C++ would not allow it"));
                    continue;
                }
                // must / may / nothing
                bool canbe = e.must || !e.may.empty();
                if (!canbe)
                {
                    if (got) bad("variant-wrong", "granted, though the object is no such object");
                    continue;
                }
                if (refp)
                {
                    // a reference to the stored pointer can stand for a pointer to base only where the addresses are equal
                    void const *stored = C[d].subs[s].at(obj);
                    if (got)
                    {
                        auto p = reinterpret_cast<void const *>(extra);
                        if (!(e.must && !loose ? p == e.addr : std::find(e.may.begin(), e.may.end(), p) != e.may.end() || p == e.addr))
                            bad("variant-address", fmt("reference to a pointer with value %p, expected %s", p, show(e).c_str()));
                    }
                    else if (e.must && e.addr == stored && !loose && (t == st || a == CrefP || a == CrefCP || vconst) && !(t == st && (a == DataCP || a == CrefCP)))
                        bad("variant-refused", fmt("gave %s, expected a reference to the pointer", outcome_name(g.what)));
                    else if (!got && g.what == Null && (a == CrefP || a == RefP || a == CrefCP)) bad("variant-outcome", "null reference");
                    continue;
                }
                if (!got)
                {
                    if (e.must && !loose) bad("variant-refused", fmt("gave %s, expected %s", outcome_name(g.what), show(e).c_str()));
                    continue;
                }
                switch (a)
                {
                case Data: case Ref: case Cref: case ToP: case ToCP: case RrefV: case RefRV:
                    if (!(e.must && !loose ? g.p == e.addr : std::find(e.may.begin(), e.may.end(), g.p) != e.may.end() || (e.must && g.p == e.addr)))
                        bad("variant-address", fmt("gave %p, expected %s", g.p, show(e).c_str()));
                    else if (C[t].mark(g.p) == 0) bad("variant-address", "object without its mark");
                    break;
                case To:
                    if (e.must && !loose && extra != C[t].mark(e.addr)) bad("variant-copy", fmt("the copy carries mark %ld, the object %ld", extra, C[t].mark(e.addr)));
                    break;
                }
            }
        eval(hash_str(fmt("v%d/%d/%d/%d", d, s, how, t)), true, 2 * ASKS);
    }
    // the class the variant reports
    auto mc = v.metaClass();
    int ci = C[st].own_ci && how != ByNull ? C[d].ci : st;
    T_ = ci;
    where_text = fmt(" [held %s]", hold_name(how));
    if (C[st].own_ci || C[d].ci < 0)
    {
        if (C[ci].registered ? (!mc || mc->metaTypeId() != C[ci].id()) : mc != nullptr)
            bad("variant-class", "metaClass() is not the class of the object");
    }
    v.clear();
}

int main(int argc, char **argv)
{
    init(argc, argv);
#define HIER(n) hierarchy_##n();
#include "hier_all.inc"
    cov("classes", C.size());
    long n = 0;
    int rounds = std::atoi(opt("--rounds", "1").c_str());
    bool metacasts = opt("--judge", "all") == "all";
    std::vector<int> complete;
    for (int d = 0; d < int(C.size()); ++d) if (!C[d].abstract) complete.push_back(d);
    for_cases(long(complete.size()) * rounds, [&](long i, Rng &r) {
        int d = complete[i % complete.size()];
        D_ = d;
        begin_case(i, "cast", C[d].name);
        void *obj = C[d].make();
        // distinct marks in every subobject
        for (int s = 0; s < int(C[d].subs.size()); ++s)
        {
            S_ = s;
            where_text.clear();
            at("meta_cast", fmt("%s as %s", C[d].name, C[C[d].subs[s].cls].name));
            if (metacasts)
                for (auto &row : C[C[d].subs[s].cls].casts) judge_meta(d, obj, s, row);
            for (int h = 0; h < HOLDS; ++h)
            {
                if (h == ByMove) continue;
                at("variant", fmt("%s as %s held %s", C[d].name, C[C[d].subs[s].cls].name, hold_name(h)));
                run_variant(d, obj, s, h, r);
            }
        }
        cov("objects");
        cov("subobjects", C[d].subs.size());
        cov_max("subobjects of one object", C[d].subs.size());
        C[d].kill(obj);
        ++n;
    });
    if (C.size() > 3) sample(fmt("class %s: %zu subobjects, %zu declared bases", C[3].name, C[3].subs.size(), C[3].declared.size()));
    return finish();
}
