// Calls of registered functions: every call is judged by what the function logged that it
// was given, against what C++ binding of the same arguments allows.
#include "calls_expect.h"
#include "instances.h"
#include "calls_fns.h"

using namespace calls;

namespace {

using Inst = Instance<HostBase, Host, HostD>;

template<typename F, typename... A> variant apply(F &&f, std::vector<argument> &a, int n)
{
    switch (n)
    {
    case 0: return f();
#define M(i) std::move(a[i])
    case 1: return f(M(0));
    case 2: return f(M(0), M(1));
    case 3: return f(M(0), M(1), M(2));
    case 4: return f(M(0), M(1), M(2), M(3));
    case 5: return f(M(0), M(1), M(2), M(3), M(4));
    case 6: return f(M(0), M(1), M(2), M(3), M(4), M(5));
    case 7: return f(M(0), M(1), M(2), M(3), M(4), M(5), M(6));
    case 8: return f(M(0), M(1), M(2), M(3), M(4), M(5), M(6), M(7));
    default: return f(M(0), M(1), M(2), M(3), M(4), M(5), M(6), M(7), M(8));
    }
}

enum Failed { NOT, COUNT, BADCAST, RUNTIME, BOOM, WEIRD };
char const *const failed_names[] = {"returned", "invoke_error", "bad_cast", "runtime_error", "the function's exception", "another exception"};

template<typename T> bool holds_value(variant &res, long expected)
{
    return res.is<T>() && res.typeId() == rtti::metaTypeId<T>() && rd(res.ref<T>()) == expected;
}
void judge_result(FnInfo const &f, variant &res, std::string const &key)
{
    auto bad = [&](std::string const &what) { viol("result:" + std::to_string(f.ret) + ":" + what, "result of " + key + ": " + what); };
    long id = f.id * 3;
    switch (f.ret)
    {
    case R_VOID: if (!res.empty()) bad("void yields a value"); break;
    case R_INT: case R_VAR: if (!holds_value<int>(res, id)) bad("value"); break;
    case R_T0: if (!holds_value<T0>(res, id)) bad("value"); break;
    case R_T1: if (!holds_value<T1>(res, id)) bad("value"); break;
    case R_T2: if (!holds_value<T2>(res, id)) bad("value"); break;
    case R_T3: if (!holds_value<T3>(res, id)) bad("value"); break;
    case R_STR: if (!res.is<std::string>() || res.ref<std::string>() != "result of " + std::to_string(f.id)) bad("value"); break;
    case R_T0L: if (!res.is<T0 &>() || res.data<T0>() != &slots().t0) bad("not a reference to the object"); break;
    case R_T0CL:
        if (std::as_const(res).data<T0>() != &slots().t0) bad("not a reference to the object");
        if (res.is<T0 &>() || res.data<T0>()) bad("const reference became mutable");
        break;
    case R_T0P: if (!res.is<T0 *>() || res.to<T0 *>() != &slots().t0) bad("pointer"); break;
    case R_DERP: if (!res.is<Der *>() || res.to<Der *>() != &slots().der || res.to<Base2 *>() != &slots().der) bad("pointer"); break;
    case R_B2L: if (!res.is<Base2 &>() || res.data<Base2>() != static_cast<Base2 *>(&slots().der)) bad("not a reference to the object"); break;
    case R_T3L: if (!res.is<T3 &>() || res.data<T3>() != &slots().t3) bad("not a reference to the object"); break;
    }
}

rtti::MetaClass const *host_class() { return rtti::MetaClass::find(rtti::metaTypeId<Host>()); }

void one(long i, Rng &rng)
{
    // the one-parameter functions and their direct calls first, systematically
    auto &tab = table();
    bool sweep = i < 52 * 14 * MODES && std::stol(opt("--sweep", "1"));
    FnInfo const *f;
    std::vector<std::unique_ptr<Source>> src;
    int want = 0;
    int inst_form = 0;
    bool direct = false;
    if (sweep)
    {
        f = &tab[i % 52];
        src.push_back(make_source(int(i / 52 % 14), int(i / 52 / 14), rng.range(1, 99)));
        want = 1;
        direct = rng.chance(1, 2);
        inst_form = rng.pick(*new std::vector<int>{I_VAL, I_REF, I_PTR, I_DREF});
    }
    else
    {
        f = &tab[rng.below(tab.size())];
        want = int(f->params.size());
        if (rng.chance(1, 12)) want += rng.chance(1, 2) ? 1 : -1;
        auto limit = f->kind < MEMBER ? 10 : 9;
        want = std::max(0, std::min(want, limit));
        for (int a = 0; a < want; ++a)
        {
            auto p = a < int(f->params.size()) ? f->params[a] : Param{4, VAL};
            int v, mode;
            // mostly arguments that fit
            for (int tries = 0;; ++tries)
            {
                v = rng.chance(1, 2) ? p.v : int(rng.below(VALS + 1));
                mode = int(rng.below(MODES));
                auto fits = relation(v, p.v) != NONE;
                if (fits && p.form == LREF) fits = mode == M_L || mode == M_VL_VAL || mode == M_VL_REF;
                if (fits && p.form == RREF) fits = mode == M_R || mode == M_VR_VAL;
                if (fits && p.form == VAL) fits = p.v != 3;
                if (fits || tries > 30 || rng.chance(1, 60)) break;
            }
            src.push_back(make_source(v, mode, rng.range(1, 99)));
        }
        inst_form = rng.chance(2, 3) ? int(rng.below(I_BASE)) : int(rng.below(INSTS));
    }
    bool member = f->kind >= MEMBER;
    bool is_const = kind_const(f->kind);
    bool of_base = f->kind >= BASE_MEMBER;
    std::string sig = f->name + "(";
    for (auto &p : f->params) sig += std::string(val_name(p.v)) + form_name(p.form) + (&p == &f->params.back() ? "" : ", ");
    sig += ")";
    std::string args;
    for (auto &s : src) args += std::string(args.empty() ? "" : ", ") + val_name(s->v) + " " + mode_name(s->mode);
    std::string text = std::string(kind_name(f->kind)) + " " + sig + " called with (" + args + ")";
    Inst inst(member ? inst_form : int(I_EMPTY), rng.range(1, 99));
    if (member) text += std::string(" on ") + inst_names[inst_form];
    begin_case(i, kind_name(f->kind), text);

    // look the function up as a user would
    rtti::MetaMethod const *m = nullptr;
    if (f->kind == STATIC) m = rtti::MetaNamespace::global()->getNamespace("calls")->getMethod(f->name);
    else
    {
        auto *c = rng.chance(1, 3) ? rtti::MetaClass::find(rtti::metaTypeId<HostD>()) : host_class();
        m = c->getMethod(f->name);
    }
    if (!check(m != nullptr, "method-not-found", text)) return;

    // expectations
    std::vector<Expect> ex;
    bool count_ok = want == int(f->params.size());
    bool may_fail = !count_ok, must_fail = !count_ok;
    if (count_ok)
        for (int a = 0; a < want; ++a)
        {
            ex.push_back(expect(*src[a], f->params[a]));
            if (ex[a].set & E) may_fail = true;
            if (ex[a].set == E) must_fail = true;
        }
    unsigned inst_allow = 0;
    if (member)
    {
        inst_allow = is_const ? inst.allow_const : inst.allow_mut;
        if (Inst::is_base(inst_form) && of_base) inst_allow = ID;
        if (inst_allow & E) may_fail = true;
        if (inst_allow == E) must_fail = true;
    }

    auto &r = rec();
    r.calls.clear();
    r.throws = !sweep && !kind_noexcept(f->kind) && rng.chance(1, 10);
    r.consume = rng.chance(1, 2);
    auto before = ledger().next_uid;
    int failed = NOT;
    std::string what;
    {
        variant res;
        {
            std::vector<argument> a;
            a.reserve(10);
            try
            {
                if (direct)
                {
                    if (!member) res = src[0]->call(m, nullptr, nullptr);
                    else if (inst.is_const_variant) res = src[0]->call(m, nullptr, &inst.v);
                    else res = src[0]->call(m, &inst.v, nullptr);
                }
                else
                {
                    for (auto &s : src) a.push_back(s->arg());
                    bool by_name = member && rng.chance(1, 4) && inst_form != I_RAW && inst_form != I_CRAW && inst_form != I_RVAL &&
                                   inst.object;
                    if (f->kind < MEMBER)
                    {
                        if (want == 10) res = m->invoke(std::move(a[0]), std::move(a[1]), std::move(a[2]), std::move(a[3]), std::move(a[4]), std::move(a[5]),
                                                        std::move(a[6]), std::move(a[7]), std::move(a[8]), std::move(a[9]));
                        else res = apply([&](auto &&...x) { return m->invoke(std::move(x)...); }, a, want);
                    }
                    else if (by_name)
                    {
                        cov("invoked by name through the variant");
                        if (inst.is_const_variant)
                            res = apply([&](auto &&...x) { return std::as_const(inst.v).invoke(f->name, std::move(x)...); }, a, want);
                        else
                            res = apply([&](auto &&...x) { return inst.v.invoke(f->name, std::move(x)...); }, a, want);
                    }
                    else if (inst_form == I_RAW) res = apply([&](auto &&...x) { return m->invoke(*inst.host, std::move(x)...); }, a, want);
                    else if (inst_form == I_CRAW) res = apply([&](auto &&...x) { return m->invoke(std::as_const(*inst.host), std::move(x)...); }, a, want);
                    else if (inst_form == I_RVAL) res = apply([&](auto &&...x) { return m->invoke(std::move(inst.v), std::move(x)...); }, a, want);
                    else if (inst.is_const_variant) res = apply([&](auto &&...x) { return m->invoke(std::as_const(inst.v), std::move(x)...); }, a, want);
                    else res = apply([&](auto &&...x) { return m->invoke(inst.v, std::move(x)...); }, a, want);
                }
            }
            catch (Boom const &b) { failed = BOOM; if (b.id != f->id) failed = WEIRD; }
            catch (rtti::invoke_error const &e) { failed = COUNT; what = e.what(); }
            catch (rtti::bad_cast const &e) { failed = BADCAST; what = e.what(); }
            catch (rtti::runtime_error const &e) { failed = RUNTIME; what = e.what(); }
            catch (std::exception const &e) { failed = WEIRD; what = e.what(); }
            catch (...) { failed = WEIRD; }
        }
        auto desc = text + " -> " + failed_names[failed] + " " + what;
        cov(std::string("outcome: ") + failed_names[failed]);
        std::uint64_t h = comb(f->id, want);
        for (auto &s : src) h = comb(h, s->v * 16 + s->mode);
        h = comb(h, comb(inst_form, r.throws));
        eval(h, !r.calls.empty() || must_fail);

        // was it called, and should it have been?
        auto calls = r.calls;
        check(failed != WEIRD, "undocumented-exception", desc);
        check(calls.size() <= 1, "called-more-than-once", desc);
        std::string k = sweep ? std::string(":") + val_name(src[0]->v) + ":" + mode_name(src[0]->mode) + ":" + val_name(f->params[0].v) + form_name(f->params[0].form)
                              : "";
        if (must_fail)
        {
            check(calls.empty(), "called-though-it-must-not" + k, desc);
            check(failed != NOT && failed != BOOM, "no-error" + k, desc);
            if (!count_ok && (!member || inst_allow != E))
                check(failed == COUNT, "wrong-error:count", desc);
            else if (count_ok && failed == COUNT && (!member || !Inst::is_null(inst.form)))
                viol("wrong-error:argument", desc);
        }
        else if (!may_fail)
        {
            check(calls.size() == 1, "not-called" + k, desc);
            check(failed == (r.throws ? BOOM : NOT), "unexpected-error" + k, desc);
        }
        else
            check(calls.size() == (failed == NOT || failed == BOOM ? 1u : 0u), "called-and-failed", desc);
        if (calls.size() == 1)
        {
            auto &c = calls[0];
            check(c.id == f->id, "wrong-function", desc + fmt(" ran f%d", c.id));
            if (member)
            {
                void const *self = of_base ? (Inst::is_base(inst_form) ? static_cast<void const *>(&inst.base) : static_cast<HostBase const *>(inst.object))
                                           : static_cast<void const *>(inst.object);
                if (!(inst_allow & CP)) check(c.self == self, "wrong-instance", desc + fmt(" this=%p instead of %p", c.self, self));
                check(c.is_const == is_const, "wrong-constness", desc);
            }
            check(c.got.size() == f->params.size(), "wrong-argument-count", desc);
            for (std::size_t a = 0; a < c.got.size() && a < ex.size(); ++a)
            {
                auto &g = c.got[a];
                auto &e = ex[a];
                std::string at = fmt("argument %zu of ", a);
                if (e.set == E) { continue; }
                bool same = g.address == e.address;
                if (same ? !(e.set & ID) : !(e.set & CP))
                    viol((same ? "bound-to-the-original:" : "bound-to-a-copy:") + std::string(val_name(f->params[a].v)) + form_name(f->params[a].form), at + desc);
                check(g.value == e.value, "wrong-value:" + std::string(val_name(f->params[a].v)) + form_name(f->params[a].form),
                      at + desc + fmt(": got %ld instead of %ld", g.value, e.value));
                cov(std::string("bound ") + (same ? "to the caller's object" : "to a copy or temporary"));
            }
        }
        // what the caller is left with
        for (std::size_t a = 0; a < src.size(); ++a)
        {
            bool touched = false;
            if (calls.size() == 1 && a < ex.size())
            {
                auto &p = f->params[a];
                auto &g = calls[0].got[a];
                if (g.address == ex[a].address && (p.form == LREF || (p.form == RREF && r.consume))) touched = true;
            }
            if (!touched) check(src[a]->intact(), "argument-changed:" + std::string(a < f->params.size() ? val_name(f->params[a].v) : "") +
                                                     (a < f->params.size() ? form_name(f->params[a].form) : ""),
                                fmt("argument %zu of ", a) + desc);
            else if (a < f->params.size() && f->params[a].form == LREF)
                check(!src[a]->intact(), "change-lost", fmt("argument %zu of ", a) + desc);
        }
        if (calls.size() == 1 && failed == NOT)
        {
            judge_result(*f, res, desc);
            sample(desc);
        }
        else check(res.empty(), "result-of-failed-call", desc);
    }
    // temporaries and results are gone; values moved out of the caller's objects stay where they were
    auto left = ledger().count_since(before);
    check(left == 0, "objects-left-behind", text + fmt(": %zu objects are still alive", left));
}

} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute.push_back("moved-from-object");
    { auto g = rtti::global_define(); g._class<Base2>("CallsBase2"); }
    { auto g = rtti::global_define(); g._class<Der>("CallsDer")._base<Base2>(); }
    { auto g = rtti::global_define(); g._class<HostBase>("CallsHostBase"); }
    { auto g = rtti::global_define(); g._class<Host>("CallsHost")._base<HostBase>(); }
    { auto g = rtti::global_define(); g._class<HostD>("CallsHostD")._base<Host>(); }
    { auto g = rtti::global_define(); g._class<Other>("CallsOther"); }
    register_value_converters();
    register_functions();
    std::sort(table().begin(), table().end(), [](auto &a, auto &b) { return a.id < b.id; });
    pool(); slots();
    for_cases(std::stol(opt("--n", "60000")), one);
    return finish();
}
