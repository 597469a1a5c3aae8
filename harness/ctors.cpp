// Construction through registered constructors: which one ran, with which arguments, how
// many objects came out of it, and what became of the arguments.
#include "ctor_classes.h"

using namespace calls;

void related(int round);

namespace {
MetaClass const *meta(ClassOps const &o) { return MetaClass::find(o.id); }

enum Failed { NOT, COUNT, BADCAST, RUNTIME, BOOM, WEIRD };
char const *const failed_names[] = {"returned", "invoke_error", "bad_cast", "runtime_error", "the constructor's exception", "another exception"};

std::string sig_text(std::vector<Param> const &ps)
{
    std::string s = "(";
    for (auto &p : ps) s += std::string(s.size() > 1 ? ", " : "") + val_name(p.v) + form_name(p.form);
    return s + ")";
}

//------------------------------------------------------------------ what a class offers
void structure(ClassOps const &o)
{
    auto *m = meta(o);
    std::string at = fmt("class C%d: ", o.index);
    begin_case(-1 - o.index, "structure", at);
    if (!check(m != nullptr, "class-not-found", at)) return;
    check((m->defaultConstructor() != nullptr) == o.can_default, "default-constructor-offered", at);
    check((m->copyConstructor() != nullptr) == o.can_copy, "copy-constructor-offered", at);
    check((m->moveConstructor() != nullptr) == o.can_move, "move-constructor-offered", at);
    if (m->defaultConstructor()) check(m->defaultConstructor()->name() == "d_constructor", "default-constructor-name", at);
    // every further one, under its signature, once, in order
    std::vector<std::string> expected;
    for (auto &c : o.ctors)
        if (std::find(expected.begin(), expected.end(), c.signature) == expected.end()) expected.push_back(c.signature);
    std::size_t special = std::size_t(o.can_default) + o.can_copy + o.can_move;
    check(m->constructorCount() == special + expected.size(), "constructor-count",
          at + fmt("%zu constructors instead of %zu", m->constructorCount(), special + expected.size()));
    std::vector<std::string> found;
    for (std::size_t i = 0; i < m->constructorCount(); ++i)
    {
        auto *c = m->getConstructor(i);
        if (!check(c != nullptr, "constructor-by-index", at)) return;
        check(c->owner() == m && c->category() == rtti::mcatConstructor, "constructor-owner", at + c->name());
        check(m->getConstructor(c->name()) == c, "constructor-by-name", at + c->name());
        if (c != m->defaultConstructor() && c != m->copyConstructor() && c != m->moveConstructor()) found.push_back(c->name());
    }
    check(found == expected, "constructor-order", at);
    check(!m->getConstructor(m->constructorCount()) && !m->getConstructor(std::size_t(-1)), "constructor-out-of-range", at);
    for (auto &c : o.ctors)
    {
        auto *x = c.typed(m, c.name);
        check(x && x->name() == c.signature, "constructor-by-signature", at + c.signature);
        check(c.typed(m, "nonesuch") == nullptr, "constructor-of-another-name", at + c.signature);
        auto plain = c.name.empty() ? std::string("constructor") : c.name;
        for (auto &first : o.ctors)
            if (first.name == c.name)
            {
                check(m->getConstructor(plain) == m->getConstructor(first.signature), "constructor-by-plain-name", at + plain);
                break;
            }
        check(m->getConstructor(c.signature + " ") == nullptr && m->getConstructor(c.signature.substr(0, c.signature.size() - 1)) == nullptr,
              "constructor-by-partial-signature", at + c.signature);
    }
    check(m->getConstructor("nonesuch") == nullptr && m->getConstructor("") == nullptr, "constructor-unknown-name", at);
    // conversions
    for (auto &c : o.ctors)
    {
        if (c.params.size() != 1) continue;
        bool any = false;
        for (auto &d : o.ctors) if (d.params.size() == 1 && d.from == c.from && d.converts) any = true;
        check(rtti::MetaType::hasConverter(c.from, o.id) == any, any ? "conversion-missing" : "conversion-from-explicit",
              at + c.signature);
        cov(any ? "converting constructors" : "other one-parameter constructors");
    }
    eval(comb(7, o.index), true);
    cov("constructors", m->constructorCount());
}

//------------------------------------------------------------------ one invocation
struct Run
{
    int failed = NOT;
    std::string what;
};
template<typename F> Run guarded(F &&f, int boom)
{
    Run r;
    try { f(); }
    catch (Boom const &b) { r.failed = b.id == boom ? BOOM : WEIRD; }
    catch (rtti::invoke_error const &e) { r.failed = COUNT; r.what = e.what(); }
    catch (rtti::bad_cast const &e) { r.failed = BADCAST; r.what = e.what(); }
    catch (rtti::runtime_error const &e) { r.failed = RUNTIME; r.what = e.what(); }
    catch (std::exception const &e) { r.failed = WEIRD; r.what = e.what(); }
    catch (...) { r.failed = WEIRD; }
    return r;
}
variant construct(MetaConstructor const *c, std::vector<argument> &a)
{
#define M(i) std::move(a[i])
    switch (a.size())
    {
    case 0: return c->invoke();
    case 1: return c->invoke(M(0));
    case 2: return c->invoke(M(0), M(1));
    case 3: return c->invoke(M(0), M(1), M(2));
    case 4: return c->invoke(M(0), M(1), M(2), M(3));
    case 5: return c->invoke(M(0), M(1), M(2), M(3), M(4));
    case 6: return c->invoke(M(0), M(1), M(2), M(3), M(4), M(5));
    case 7: return c->invoke(M(0), M(1), M(2), M(3), M(4), M(5), M(6));
    case 8: return c->invoke(M(0), M(1), M(2), M(3), M(4), M(5), M(6), M(7));
    case 9: return c->invoke(M(0), M(1), M(2), M(3), M(4), M(5), M(6), M(7), M(8));
    default: return c->invoke(M(0), M(1), M(2), M(3), M(4), M(5), M(6), M(7), M(8), M(9));
    }
}
/// Exactly one object of the class, with this value, in the variant.
void judge_object(ClassOps const &o, variant const &res, long value, std::uint64_t before, std::string const &desc)
{
    check(res.typeId() == o.id && o.holds(res), "result-type", desc);
    check(o.value(res) == value, "result-value", desc + fmt(": holds %ld instead of %ld", o.value(res), value));
    auto n = ledger().count_since(before);
    check(n == 1, "objects-made", desc + fmt(": %zu objects instead of one", n));
}

void declared(long i, Rng &rng, ClassOps const &o)
{
    auto &c = o.ctors[rng.below(o.ctors.size())];
    auto *m = meta(o);
    int want = int(c.params.size());
    if (rng.chance(1, 14)) want += rng.chance(1, 2) ? 1 : -1;
    want = std::max(0, std::min(want, 10));
    std::vector<std::unique_ptr<Source>> src;
    for (int a = 0; a < want; ++a)
    {
        auto p = a < int(c.params.size()) ? c.params[a] : Param{4, VAL};
        int v, mode;
        for (int tries = 0;; ++tries)
        {
            v = rng.chance(1, 2) ? p.v : int(rng.below(VALS + 1));
            mode = int(rng.below(MODES));
            auto set = outcomes(relation(v, p.v), mode, p.form, p.v != 3);
            if (set != E || tries > 30 || rng.chance(1, 40)) break;
        }
        src.push_back(make_source(v, mode, rng.range(1, 99)));
    }
    std::string args;
    for (auto &s : src) args += std::string(args.empty() ? "" : ", ") + val_name(s->v) + " " + mode_name(s->mode);
    auto text = fmt("C%d", o.index) + sig_text(c.params) + " invoked with (" + args + ")";
    begin_case(i, "declared", text);
    MetaConstructor const *x = nullptr;
    switch (rng.below(3))
    {
    case 0: x = c.typed(m, c.name); break;
    case 1: x = m->getConstructor(c.signature); break;
    default:
        for (std::size_t k = 0; k < m->constructorCount(); ++k)
            if (m->getConstructor(k)->name() == c.signature) x = m->getConstructor(k);
    }
    if (!check(x != nullptr, "constructor-not-found", text)) return;

    std::vector<Expect> ex;
    bool count_ok = want == int(c.params.size());
    bool may_fail = !count_ok, must_fail = !count_ok;
    if (count_ok)
        for (int a = 0; a < want; ++a)
        {
            ex.push_back(expect(*src[a], c.params[a]));
            if (ex[a].set & E) may_fail = true;
            if (ex[a].set == E) must_fail = true;
        }
    auto &r = rec();
    r.calls.clear();
    r.throws = rng.chance(1, 8);
    r.consume = rng.chance(1, 2);
    auto before = ledger().next_uid;
    auto made = serial();
    {
        variant res;
        Run run;
        if (want == 1 && rng.chance(1, 2))
            run = guarded([&] { res = src[0]->construct(x); }, c.id);
        else
        {
            std::vector<argument> a;
            a.reserve(10);
            run = guarded([&] { for (auto &s : src) a.push_back(s->arg()); res = construct(x, a); }, c.id);
        }
        auto desc = text + " -> " + failed_names[run.failed] + " " + run.what;
        cov(std::string("outcome: ") + failed_names[run.failed]);
        std::uint64_t h = comb(c.id, want);
        for (auto &s : src) h = comb(h, s->v * 16 + s->mode);
        eval(comb(h, r.throws), !r.calls.empty() || must_fail);
        check(run.failed != WEIRD, "undocumented-exception", desc);
        check(r.calls.size() <= 1, "constructed-more-than-once", desc);
        if (must_fail)
        {
            check(r.calls.empty() && serial() == made, "constructed-though-it-must-not", desc);
            check(run.failed != NOT && run.failed != BOOM, "no-error", desc);
            if (!count_ok) check(run.failed == COUNT, "wrong-error:count", desc);
            else check(run.failed != COUNT, "wrong-error:argument", desc);
        }
        else if (!may_fail)
        {
            check(r.calls.size() == 1, "not-constructed", desc);
            check(run.failed == (r.throws ? BOOM : NOT), "unexpected-error", desc);
        }
        else check(r.calls.size() == (run.failed == NOT || run.failed == BOOM ? 1u : 0u), "constructed-and-failed", desc);
        if (r.calls.size() == 1)
        {
            auto &call = r.calls[0];
            check(call.id == c.id, "wrong-constructor", desc + fmt(" ran %d instead of %d", call.id, c.id));
            for (std::size_t a = 0; a < call.got.size() && a < ex.size(); ++a)
            {
                auto &g = call.got[a];
                auto &e = ex[a];
                if (e.set == E) continue;
                bool same = g.address == e.address;
                check((e.set & (same ? ID : CP)) != 0, same ? "bound-to-the-original" : "bound-to-a-copy", fmt("argument %zu of ", a) + desc);
                check(g.value == e.value, "wrong-value", fmt("argument %zu of ", a) + desc + fmt(": got %ld instead of %ld", g.value, e.value));
                check(g.form == c.params[a].form, "wrong-overload", desc);
            }
        }
        for (std::size_t a = 0; a < src.size(); ++a)
        {
            bool touched = false;
            if (r.calls.size() == 1 && a < ex.size() && a < r.calls[0].got.size())
            {
                auto f = c.params[a].form;
                touched = r.calls[0].got[a].address == ex[a].address && (f == LREF || (f == RREF && r.consume));
            }
            if (!touched) check(src[a]->intact(), "argument-changed", fmt("argument %zu of ", a) + desc);
        }
        if (run.failed == NOT && r.calls.size() == 1)
        {
            judge_object(o, res, 100000 + made + 1, before, desc);
            sample(desc);
        }
        else check(res.empty(), "result-of-failed-construction", desc);
    }
    auto left = ledger().count_since(before);
    check(left == 0, "objects-left-behind", text + fmt(": %zu objects are still alive", left));
}

void standard(long i, Rng &rng, ClassOps const &o)
{
    auto *m = meta(o);
    int which = int(rng.below(3));
    auto *x = which == 0 ? m->defaultConstructor() : which == 1 ? m->copyConstructor() : m->moveConstructor();
    if (!x) { standard(i, rng, classes()[rng.below(classes().size())]); return; }
    bool derived = o.polymorphic && rng.chance(1, 4), wrong = rng.chance(1, 8);
    auto mode = int(rng.below(MODES));
    bool copyable = o.can_copy;
    if (!copyable && (mode == M_CR)) mode = M_R;
    int want = which == 0 ? 0 : 1;
    bool count_off = rng.chance(1, 12);
    if (count_off) want = which == 0 ? 1 : rng.chance(1, 2) ? 0 : 2;
    std::vector<std::unique_ptr<Source>> src;
    char const *const names[] = {"default", "copy", "move"};
    std::string text = fmt("C%d ", o.index) + names[which] + " constructor invoked with ";
    int rel = SAME;
    auto &other = classes()[rng.below(classes().size())];
    if (wrong && other.index == o.index) wrong = false;
    for (int a = 0; a < want; ++a)
    {
        if (wrong) { src.push_back(other.source(false, mode, rng.range(1, 99))); rel = NONE; text += fmt("a C%d as ", other.index); }
        else { src.push_back(o.source(derived, mode, rng.range(1, 99))); rel = derived ? UPCAST : SAME; text += derived ? "a derived object as " : "its like as "; }
        text += mode_name(mode);
        text += " ";
    }
    begin_case(i, names[which], text);
    unsigned set = count_off ? E : which == 0 ? ID : outcomes(rel, mode, which == 1 ? CLREF : RREF, copyable);
    auto value = which == 0 ? 100000 + serial() + 1 : src.empty() ? 0 : src[0]->value();
    auto &r = rec();
    r.calls.clear();
    r.throws = which == 0 && rng.chance(1, 6);
    auto before = ledger().next_uid;
    {
        variant res;
        std::vector<argument> a;
        a.reserve(10);
        bool direct = want == 1 && rng.chance(1, 2);
        auto run = guarded([&] {
            if (direct) { res = src[0]->construct(x); return; }
            for (auto &s : src) a.push_back(s->arg());
            res = construct(x, a);
        }, o.index * 100 + DEFAULT);
        auto desc = text + "-> " + failed_names[run.failed] + " " + run.what;
        a.clear();
        cov(std::string("outcome: ") + failed_names[run.failed]);
        eval(comb(comb(o.index, which), comb(mode * 8 + want, comb(wrong * 2 + derived, r.throws))), true);
        check(run.failed != WEIRD, "undocumented-exception", desc);
        if (count_off) check(run.failed == COUNT, "wrong-error:count", desc);
        if (set == E) check(run.failed != NOT, "no-error:" + std::string(names[which]), desc);
        else if (!(set & E)) check(run.failed == (r.throws && r.calls.size() ? BOOM : NOT), "unexpected-error:" + std::string(names[which]), desc);
        if (which == 0 && !count_off && r.calls.size()) check(r.calls.size() == 1 && r.calls[0].id == o.index * 100 + DEFAULT, "wrong-constructor", desc);
        if (which || count_off) check(r.calls.empty(), "constructed-more-than-once", desc);
        bool moving = which == 2 && run.failed == NOT && (mode == M_R || mode >= M_VR_VAL);
        if (!moving) for (auto &s : src) check(s->intact(), "argument-changed:" + std::string(names[which]), desc);
        if (run.failed == NOT)
        {
            if (which == 0 && r.calls.empty()) value = 0;     // implicit, defaulted
            judge_object(o, res, value, before, desc);
            for (auto &s : src) check(s->object() != nullptr, "source-gone", desc);
            sample(desc);
        }
        else check(res.empty() && ledger().count_since(before) == 0, "objects-left-behind", desc);
    }
    auto left = ledger().count_since(before);
    check(left == 0, "objects-left-behind", text + fmt(": %zu objects are still alive", left));
}

void conversion(long i, Rng &rng, ClassOps const &o)
{
    // a value held in a variant, converted to the class
    int v = int(rng.below(VALS));
    std::vector<int> able;
    for (auto &c : o.ctors) if (c.converts) able.push_back(c.v);
    if (!able.empty() && rng.chance(3, 4)) v = rng.pick(able);
    static int const modes[] = {M_VL_VAL, M_VL_REF, M_VL_CREF};
    auto src = make_source(v, modes[rng.below(3)], rng.range(1, 99));
    auto &var = *[&]() -> variant * {
        switch (v)
        {
#define VAR(n) case n: return static_cast<SourceOf<V##n> *>(src.get())->var.get();
        VAR(0) VAR(1) VAR(2) VAR(3) VAR(4) VAR(5) VAR(6) VAR(7) VAR(8) VAR(9) VAR(10) VAR(11) VAR(12)
        }
        return nullptr;
    }();
    Ctor const *by = nullptr;
    for (auto &c : o.ctors)
        if (c.converts && c.from == rtti::MetaType{var.typeId()}.decayId()) { by = &c; break; }
    auto text = std::string(val_name(v)) + " in a " + mode_name(src->mode) + fmt(" converted to C%d", o.index);
    begin_case(i, "conversion", text);
    if (by && by->v != v) return;          // another pointer type of the same decayed type
    auto &r = rec();
    int id = by ? by->native(*src) : -1;
    auto value = src->value();
    r.calls.clear();
    r.throws = by && rng.chance(1, 6);
    auto before = ledger().next_uid;
    auto made = serial();
    check(o.can_convert(var) == (by != nullptr), "can-convert", text);
    {
        variant res;
        int how = int(rng.below(3));
        bool done = true;
        auto const moveonly = v == 3 && src->mode == M_VL_VAL;
        if (how && moveonly) how = 0;      // such a variant cannot be copied
        variant copy;
        if (how) copy = var;
        auto uid = ledger().next_uid;
        auto run = guarded([&] {
            if (how == 0) res = o.to(var);
            else if (how == 1) { o.convert(copy); res = std::move(copy); }
            else { done = o.try_convert(copy); if (done) res = std::move(copy); }
        }, -1);
        auto desc = text + (how == 0 ? " by to" : how == 1 ? " by convert" : " by tryConvert") + " -> " + failed_names[run.failed] + " " + run.what;
        eval(comb(comb(o.index, v), comb(src->mode, comb(how, r.throws))), by != nullptr);
        bool ok = by && !r.throws;
        if (ok)
        {
            check(run.failed == NOT && done, "conversion-failed", desc);
            if (check(r.calls.size() == 1, "conversion-constructs-once", desc + fmt(": %zu constructors ran", r.calls.size())))
            {
                check(r.calls[0].id == id, "conversion-by-another-constructor", desc + fmt(": ran %d, C++ would run %d", r.calls[0].id, id));
                check(r.calls[0].got.size() == 1 && (r.calls[0].got[0].value == value || v >= 8), "conversion-argument", desc);
            }
            if (run.failed == NOT && done)
            {
                check(o.holds(res) && o.value(res) == 100000 + made + 1, "conversion-result", desc);
                auto n = ledger().count_since(uid);
                check(n == 1, "objects-made", desc + fmt(": %zu objects instead of one", n));
            }
            cov("conversions by constructor");
        }
        else
        {
            check(run.failed == BADCAST || (how == 2 && !done), by ? "conversion-of-throwing-constructor" : "conversion-without-constructor", desc);
            if (!by) check(r.calls.empty(), "constructed-though-it-must-not", desc);
            check(ledger().count_since(uid) == 0, "objects-left-behind", desc);
            cov("conversions refused");
        }
        check(src->intact(), "argument-changed:conversion", desc);
    }
    auto left = ledger().count_since(before);
    check(left == 0, "objects-left-behind", text + fmt(": %zu objects are still alive", left));
}

void one(long i, Rng &rng)
{
    for (;;)
    {
        auto &o = classes()[rng.below(classes().size())];
        auto k = rng.below(8);
        if (k < 2) return standard(i, rng, o);
        if (o.ctors.empty()) continue;
        if (k < 4) return conversion(i, rng, o);
        return declared(i, rng, o);
    }
}

//------------------------------------------------------------------ classes with peculiar constructors
struct Abstract { Abstract() {} virtual void f() = 0; virtual ~Abstract() {} };
struct Locked { int v = 5; Locked() {} Locked(Locked const &) = delete; Locked(Locked &&) = delete; };
struct Hidden { int v; explicit Hidden(int x) : v(x) {} Hidden(Hidden &&o) : v(o.v) {} protected: Hidden(Hidden const &o) : v(o.v) {} Hidden() : v(0) {} };
struct Listed { int how; Listed(std::initializer_list<int>) : how(1) {} Listed(int, int) : how(2) {} };
struct Extra { int v, e; explicit Extra(int x) : v(x), e(0) {} Extra(Extra const &o, int e) : v(o.v), e(e) {} };
struct Bad { int v; explicit Bad(int x) : v(x) { if (x < 0) throw Boom{x}; } Bad(Bad const &o) : v(o.v) { if (v == 13) throw Boom{13}; } };
struct Base { int v; Base(int a, std::string const &b) : v(a + int(b.size())) {} };
struct Using : Base { using Base::Base; };

void peculiar()
{
    begin_case(-100000, "peculiar", "");
    { auto g = rtti::global_define(); g._class<Abstract>("pec::Abstract"); }
    { auto g = rtti::global_define(); g._class<Locked>("pec::Locked"); }
    { auto g = rtti::global_define(); g._class<Hidden>("pec::Hidden")._constructor<int>(); }
    { auto g = rtti::global_define(); g._class<Listed>("pec::Listed")._constructor<int, int>(); }
    { auto g = rtti::global_define(); g._class<Extra>("pec::Extra")._constructor<int>()._constructor<Extra const &, int>("from"); }
    { auto g = rtti::global_define(); g._class<Bad>("pec::Bad")._constructor<int>(); }
    { auto g = rtti::global_define(); g._class<Using>("pec::Using")._constructor<int, std::string const &>(); }
    auto find = [](auto id) { return MetaClass::find(id); };
    auto count = [&](MetaClass const *c, std::size_t n, bool d, bool cp, bool mv, char const *what) {
        check(c && c->constructorCount() == n && !c->defaultConstructor() == !d && !c->copyConstructor() == !cp && !c->moveConstructor() == !mv,
              std::string("peculiar-constructors:") + what, what);
    };
    count(find(rtti::metaTypeId<Abstract>()), 0, false, false, false, "abstract class");
    count(find(rtti::metaTypeId<Locked>()), 0, false, false, false, "class that can neither be copied nor moved");
    count(find(rtti::metaTypeId<Hidden>()), 2, false, false, true, "class with hidden constructors");
    count(find(rtti::metaTypeId<Listed>()), 3, false, true, true, "class with a constructor from a list");
    auto *listed = find(rtti::metaTypeId<Listed>())->getConstructor<int, int>();
    check(listed && listed->invoke(1, 2).ref<Listed>().how == 2, "peculiar:initializer-list", "a constructor from two values must not become one from a list");
    auto *extra = find(rtti::metaTypeId<Extra>());
    Extra src{7};
    auto *from = extra->getConstructor<Extra const &, int>("from");
    check(from && from != extra->copyConstructor() && from->name() == "from(" + std::string(rtti::type_name<Extra const &>()) + ", int)", "peculiar:copy-with-more", "");
    if (from) { auto v = from->invoke(src, 3); check(v.ref<Extra>().v == 7 && v.ref<Extra>().e == 3, "peculiar:copy-with-more", ""); }
    auto *bad = find(rtti::metaTypeId<Bad>());
    auto throws = [](auto &&f, int id) { try { f(); } catch (Boom const &b) { return b.id == id; } return false; };
    check(throws([&] { bad->getConstructor<int>()->invoke(-3); }, -3), "peculiar:throwing-constructor", "");
    Bad b13{13}, b5{5};
    check(throws([&] { bad->copyConstructor()->invoke(b13); }, 13), "peculiar:throwing-copy", "");
    check(bad->copyConstructor()->invoke(b5).ref<Bad>().v == 5, "peculiar:copy", "");
    auto *u = find(rtti::metaTypeId<Using>())->getConstructor<int, std::string const &>();
    check(u && u->invoke(3, std::string("four")).ref<Using>().v == 7, "peculiar:inherited-constructor", "");
    eval(hash_str("peculiar"), true);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    S().mute.push_back("moved-from-object");
    { auto g = rtti::global_define(); g._class<Base2>("CallsBase2"); }
    { auto g = rtti::global_define(); g._class<Der>("CallsDer")._base<Base2>(); }
    register_value_converters();
    pool(); slots();
    register_ctors();
    std::sort(classes().begin(), classes().end(), [](auto &a, auto &b) { return a.index < b.index; });
    for (auto &o : classes()) structure(o);
    peculiar();
    related(S().shard);
    for_cases(std::stol(opt("--n", "60000")), one);
    return finish();
}
