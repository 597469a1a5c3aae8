// Reading and writing registered properties; after every operation every variable behind
// every property is compared with what it must hold.
#include "props_gen.h"

using namespace calls;
using rtti::MetaClass;
using rtti::MetaNamespace;
using rtti::MetaProperty;

namespace {
using Inst = Instance<PBase, PHost, PDer>;

enum Failed { NOT, MISUSE, BADCAST, RUNTIME, BOOM, WEIRD };
char const *const failed_names[] = {"done", "invoke_error", "bad_cast", "runtime_error", "the accessor's exception", "another exception"};
struct Run { int failed = NOT; std::string what; };
template<typename F> Run guarded(F &&f, int boom)
{
    Run r;
    try { f(); }
    catch (Boom const &b) { r.failed = b.id == boom ? BOOM : WEIRD; }
    catch (rtti::invoke_error const &e) { r.failed = MISUSE; r.what = e.what(); }
    catch (rtti::bad_cast const &e) { r.failed = BADCAST; r.what = e.what(); }
    catch (rtti::runtime_error const &e) { r.failed = RUNTIME; r.what = e.what(); }
    catch (std::exception const &e) { r.failed = WEIRD; r.what = e.what(); }
    catch (...) { r.failed = WEIRD; }
    return r;
}

/// The values of everything a property could reach.
struct Snapshot
{
    std::vector<long> statics, host, hostd, base;
    static long bulk(std::vector<long> &to, PHost const *h)
    {
        for (auto &p : props()) to.push_back(p.member() ? p.read(p.host_slot(h)) : 0);
        return 0;
    }
    Snapshot(Inst const &i)
    {
        for (auto &p : props()) statics.push_back(p.member() ? 0 : p.read(p.static_slot()));
        bulk(host, i.host.get());
        bulk(hostd, i.hostd.get());
        for (auto &p : props()) base.push_back(p.place == MEMBER_OF_BASE ? p.read(p.base_slot(&i.base)) : 0);
    }
};
// of the object inside the variant, if it holds one
std::vector<long> held(Inst const &i)
{
    std::vector<long> v;
    if (i.object && i.object != i.host.get() && i.object != i.hostd.get()) Snapshot::bulk(v, i.object);
    return v;
}

MetaProperty const *lookup(Prop const &p, Rng &rng, bool &shadowed)
{
    shadowed = false;
    if (p.place == IN_NAMESPACE) return MetaNamespace::global()->getNamespace("props")->getProperty(p.name);
    auto *host = MetaClass::find(rtti::metaTypeId<PHost>());
    auto *base = MetaClass::find(rtti::metaTypeId<PBase>());
    auto *der = MetaClass::find(rtti::metaTypeId<PDer>());
    if (p.name[0] == 's' && p.of_base()) { shadowed = true; return base->getProperty(p.name); }
    if (p.of_base()) { MetaClass const *c[] = {host, base, der}; return c[rng.below(3)]->getProperty(p.name); }
    return (rng.chance(1, 2) ? host : der)->getProperty(p.name);
}

void one(long i, Rng &rng)
{
    auto &p = props()[rng.below(props().size())];
    bool getting = rng.chance(2, 5);
    int form = rng.chance(2, 3) ? int(rng.below(I_BASE)) : int(rng.below(INSTS));
    bool misuse = rng.chance(1, 14);        // an instance for a static property, none for a field
    bool with_inst = p.member() != misuse;
    Inst inst(form, rng.range(1, 99));
    auto text = std::string(getting ? "get " : "set ") + (p.read_only ? "constant " : "") + val_name(p.v) + " " + place_name(p.place) +
                (p.accessor ? std::string(" by get") + (p.get_const ? " const" : "") + form_name(p.get_form) + " and set(" + form_name(p.set_form) + ")" : "");
    if (with_inst) text += std::string(" on ") + inst_names[form];
    std::unique_ptr<Source> src;
    if (!getting)
    {
        int v, mode;
        for (int tries = 0;; ++tries)
        {
            v = rng.chance(1, 2) ? p.v : int(rng.below(VALS + 1));
            mode = int(rng.below(MODES));
            if (outcomes(relation(v, p.v), mode, p.set_form, p.v != 3) != E || tries > 20 || rng.chance(1, 30)) break;
        }
        src = make_source(v, mode, rng.range(1, 99));
        text += std::string(" to ") + val_name(v) + " " + mode_name(mode);
    }
    begin_case(i, getting ? "get" : "set", text);
    bool shadowed;
    auto *mp = lookup(p, rng, shadowed);
    if (!check(mp != nullptr, "property-not-found", text)) return;
    check(mp->readOnly() == p.read_only && mp->name() == p.name, "property-description", text);

    bool variant_inst = form != I_RAW && form != I_CRAW;
    bool by_name = with_inst && variant_inst && form != I_RVAL && !shadowed && !(Inst::is_base(form) && p.name[0] == 's') && p.place != IN_NAMESPACE && rng.chance(1, 3);
    if (by_name && !getting && inst.is_const_variant) by_name = false;
    // the instance: which object, and may it be used in this way
    bool mutating = getting ? p.accessor && !p.get_const : true;
    unsigned allow = 0;
    void const *self = nullptr;
    void const *slot = nullptr;
    if (p.member() && with_inst)
    {
        allow = mutating ? inst.allow_mut : inst.allow_const;
        if (form == I_RVAL && (allow & ID)) allow |= E;
        if (getting && mutating && (allow & ID))
        {
            bool pointer = Inst::is_pointer(form);
            if (!pointer) allow |= E;     // reading goes through a constant variant
        }
        if (Inst::is_base(form)) allow = p.of_base() ? ID : E;
        if (Inst::is_base(form) && getting && mutating && p.of_base()) allow = ID | E;
        if (inst.object)
        {
            slot = p.host_slot(inst.object);
            self = p.of_base() ? static_cast<void const *>(static_cast<PBase const *>(inst.object)) : inst.object;
        }
        else if (Inst::is_base(form) && p.of_base()) { slot = p.base_slot(&inst.base); self = &inst.base; }
    }
    else if (!p.member())
    {
        slot = p.static_slot();
        allow = with_inst ? E : ID;
    }
    else allow = E;
    bool misused = with_inst != p.member();
    Expect ex;
    unsigned set = ID;
    if (!getting)
    {
        ex = expect(*src, Param{p.v, p.set_form});
        set = ex.set;
    }
    bool may_fail = (allow & E) || (set & E), must_fail = allow == E || set == E || (!getting && p.read_only);
    auto &r = rec();
    r.calls.clear();
    r.throws = p.accessor && rng.chance(1, 10);
    r.consume = true;
    std::vector<long> held_before, held_after;
    long old;
    Snapshot before = [&] { Monitoring mon; return Snapshot(inst); }();
    { Monitoring mon; held_before = held(inst); old = slot ? p.read(slot) : 0; }
    auto uid = ledger().next_uid;
    bool expected_gone = false;
    {
        variant res;
        std::string name = p.name;
        Run run;
        if (getting)
            run = guarded([&] {
                if (!with_inst) res = mp->get();
                else if (by_name) res = inst.v.get_property(name);
                else if (form == I_RAW) res = mp->get(*inst.host);
                else if (form == I_CRAW) res = mp->get(std::as_const(*inst.host));
                else if (inst.is_const_variant) res = mp->get(std::as_const(inst.v));
                else res = mp->get(inst.v);
            }, 2 * p.index);
        else
        {
            bool direct = rng.chance(1, 2) && form != I_RAW && form != I_CRAW && form != I_RVAL;
            run = guarded([&] {
                variant *vi = with_inst && !inst.is_const_variant ? &inst.v : nullptr;
                variant const *ci = with_inst && inst.is_const_variant ? &inst.v : nullptr;
                if (direct) src->set(mp, vi, ci, by_name ? name.c_str() : nullptr);
                else if (!with_inst) mp->set(src->arg());
                else if (by_name) inst.v.set_property(name, src->arg());
                else if (form == I_RAW) mp->set(*inst.host, src->arg());
                else if (form == I_CRAW) mp->set(std::as_const(*inst.host), src->arg());
                else if (form == I_RVAL) mp->set(std::move(inst.v), src->arg());
                else if (ci) mp->set(*ci, src->arg());
                else mp->set(inst.v, src->arg());
            }, 2 * p.index + 1);
        }
        auto desc = text + (by_name ? " by name" : "") + " -> " + failed_names[run.failed] + " " + run.what;
        std::string key = getting ? ":get" : ":set";
        cov(std::string("outcome: ") + failed_names[run.failed]);
        eval(comb(comb(p.index, form * 2 + getting), comb(src ? src->v * 16 + src->mode : 999, misuse * 2 + by_name)), true);
        check(run.failed != WEIRD, "undocumented-exception" + key, desc);
        bool ran = r.calls.size() == 1;
        check(r.calls.size() <= (p.accessor ? 1u : 0u), "accessor-called-more-than-once", desc);
        if (must_fail)
        {
            check(run.failed != NOT && run.failed != BOOM && !ran, "no-error" + key, desc);
            if (misused && !by_name) check(run.failed == MISUSE, "wrong-error:misuse", desc);
            else if (!getting && p.read_only && variant_inst && !by_name) check(run.failed == MISUSE, "wrong-error:read-only", desc);
            else if (allow != E) check(run.failed != MISUSE || (!getting && p.read_only), "wrong-error:value", desc);
        }
        else if (!may_fail)
            check(run.failed == (r.throws ? BOOM : NOT), "unexpected-error" + key, desc);
        if (p.accessor) check(ran == (run.failed == NOT || run.failed == BOOM), "accessor-not-called", desc);
        if (ran)
        {
            auto &c = r.calls[0];
            check(c.id == 2 * p.index + !getting, "wrong-accessor", desc + fmt(": ran accessor %d", c.id));
            check(c.self == self, "wrong-instance", desc + fmt(": this=%p instead of %p", c.self, self));
            if (!getting && c.got.size() == 1 && ex.set != E)
            {
                bool same = c.got[0].address == ex.address;
                check((ex.set & (same ? ID : CP)) != 0, same ? "bound-to-the-original" : "bound-to-a-copy", desc);
                check(c.got[0].value == ex.value, "wrong-value", desc);
            }
        }
        bool done = run.failed == NOT && !must_fail;
        if (form == I_RVAL && with_inst && inst.v.empty()) expected_gone = true;
        if (getting && done && !expected_gone)
        {
            auto bad = p.judge(p, res, slot, old);
            check(bad.empty(), "wrong-result", desc + ": " + bad);
        }
        if (getting && !done) check(res.empty(), "result-of-failed-get", desc);
        // what holds what now
        {
            Monitoring mon;
            if (p.accessor && done && !getting)
            {
                if (!p.member()) slot = p.static_slot();
                else if (inst.object) slot = p.host_slot(inst.object);
                else if (Inst::is_base(form)) slot = p.base_slot(&inst.base);
            }
            long now = expected_gone ? 0 : slot ? p.read(slot) : 0;
            if (!expected_gone && slot)
            {
                if (!getting && done) check(now == ex.value, "set-not-stored", desc + fmt(": holds %ld instead of %ld", now, ex.value));
                else check(now == old, "changed-by" + key, desc + fmt(": holds %ld instead of %ld", now, old));
            }
            Snapshot after(inst);
            auto others = [&](std::vector<long> const &a, std::vector<long> const &b, bool target, char const *where) {
                for (std::size_t k = 0; k < a.size(); ++k)
                    if (a[k] != b[k] && !(target && int(k) == p.index && !getting && done))
                        viol("changes-another-variable" + key, desc + fmt(": %s of property %zu went from %ld to %ld", where, k, a[k], b[k]));
            };
            others(before.statics, after.statics, !p.member(), "static variable");
            others(before.host, after.host, p.member() && inst.object == inst.host.get(), "member of the object");
            others(before.hostd, after.hostd, p.member() && inst.object == inst.hostd.get(), "member of the derived object");
            others(before.base, after.base, p.member() && Inst::is_base(form), "member of the base object");
            if (!expected_gone && !held_before.empty())
            {
                held_after = held(inst);
                others(held_before, held_after, p.member(), "member of the held object");
            }
        }
        if (src)
        {
            // stores by rvalue may take the value over
            bool taken = !p.read_only && ((p.accessor && ran && p.set_form == RREF) || (p.v == 3 && p.accessor && ran)) && (src->mode == M_R || src->mode >= M_VR_VAL);
            if (!taken) check(src->intact(), "value-changed", desc);
        }
        if (done) sample(desc);
        // setting and getting gives the value back
        if (!getting && done && !expected_gone && rng.chance(1, 3))
        {
            r.calls.clear();
            r.throws = false;
            variant back;
            auto again = guarded([&] { 
                if (!p.member()) back = mp->get();
                else if (form == I_RAW) back = mp->get(*inst.host);
                else back = mp->get(std::as_const(inst.v));
            }, -1);
            if (again.failed == NOT) { auto bad = p.judge(p, back, slot, ex.value); check(bad.empty(), "get-after-set", desc + ": " + bad); }
            else check(p.accessor && !p.get_const && p.member(), "get-after-set-failed", desc + ": " + again.what);
            cov("set, then read back");
        }
    }
    // the new values stay, nothing else does
    auto left = ledger().count_since(uid);
    check(left <= 2, "objects-left-behind", text + fmt(": %zu objects are still alive", left));
}

void structure()
{
    begin_case(-1, "structure", "");
    std::size_t n[3] = {0, 0, 0};
    for (auto &p : props()) ++n[p.place == IN_NAMESPACE ? 0 : p.of_base() ? 2 : 1];
    rtti::MetaContainer const *c[3] = {MetaNamespace::global()->getNamespace("props"), MetaClass::find(rtti::metaTypeId<PHost>()), MetaClass::find(rtti::metaTypeId<PBase>())};
    for (int k = 0; k < 3; ++k) check(c[k] && c[k]->propertyCount() == n[k], "property-count", fmt("%d", k));
    check(c[1]->getProperty("nonesuch") == nullptr && c[1]->getProperty("") == nullptr && c[0]->getProperty("p") == nullptr, "unknown-property", "");
    variant host{PHost(3)}, number{5}, empty;
    auto fails = [](auto &&f) { try { f(); } catch (rtti::runtime_error const &) { return true; } return false; };
    check(fails([&] { host.get_property("nonesuch"); }) && fails([&] { host.set_property("nonesuch", 5); }) && fails([&] { number.get_property("p1"); }) &&
          fails([&] { empty.get_property("p1"); }) && fails([&] { empty.set_property("p1", 1); }) && fails([&] { host.get_property(""); }), "unknown-property", "");
    eval(hash_str("structure"), true);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute.push_back("moved-from-object");
    { auto g = rtti::global_define(); g._class<Base2>("CallsBase2"); }
    { auto g = rtti::global_define(); g._class<Der>("CallsDer")._base<Base2>(); }
    { auto g = rtti::global_define(); g._class<PBase>("PropsPBase"); }
    { auto g = rtti::global_define(); g._class<PHost>("PropsPHost")._base<PBase>(); }
    { auto g = rtti::global_define(); g._class<PDer>("PropsPDer")._base<PHost>(); }
    { auto g = rtti::global_define(); g._class<Other>("CallsOther"); }
    register_value_converters();
    pool(); slots();
    register_props();
    std::sort(props().begin(), props().end(), [](auto &a, auto &b) { return a.index < b.index; });
    structure();
    for_cases(std::stol(opt("--n", "40000")), one);
    return finish();
}
