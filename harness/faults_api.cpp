// C07, calls: methods, constructors, properties and type handles with failing parts.
#include "kinds.h"
#include <rtti/metadefine.h>
#include <functional>
using namespace kinds;
using rtti::variant;
using rtti::MetaType;
using Guard = std::function<void(std::function<void()>)>;

struct Scenario
{
    char const *name;
    void (*run)(std::function<void(std::function<void()>)> const &guarded);
};

extern bool clean_run;

namespace {

struct Acc
{
    Big big{1};
    Small small{2};
    Over32 over{3};
    std::string text = "a text long enough to need storage of its own";
    int calls = 0;
    Acc() = default;
    explicit Acc(Big b, Small const &s, Over32 &&o) : big(b), small(s), over(std::move(o)) {}
    Acc(ThrowMove const &t) : big(t.value()) {}
    Big get_big() const { return big; }
    void set_big(Big const &b) { big = b; }
    Big const &big_ref() const { return big; }
    Big sum(Big a, Big const &b, Big &c, Big &&d, Small e) { ++calls; return Big(a.value() + b.value() + c.value() + d.value() + e.value()); }
    void thrower(Big) { faults().point(20); }
    static Big twice(Big const &x) { return Big(x.value() * 2); }
    ThrowMove pass(ThrowMove t) { return t; }
    std::string name(std::string s) const { return s + text; }
    MoveOnlyB give(MoveOnlyB &&m) { return std::move(m); }
};

rtti::MetaClass const *cls()
{
    static rtti::MetaClass const *c = [] {
        rtti::global_define()._namespace("c07")
            ._class<Acc>("Acc")
                ._constructor<Big, Small const &, Over32 &&>()
                ._constructor<ThrowMove const &>()
                ._method("sum", &Acc::sum)
                ._method("get_big", &Acc::get_big)
                ._method("big_ref", &Acc::big_ref)
                ._method("thrower", &Acc::thrower)
                ._method("twice", &Acc::twice)
                ._method("pass", &Acc::pass)
                ._method("name", &Acc::name)
                ._method("give", &Acc::give)
                ._property("big", &Acc::big)
                ._property("small", &Acc::small)
                ._property("text", &Acc::text)
                ._property("acc", &Acc::get_big, &Acc::set_big)
            ._end()
        ._end();
        return rtti::MetaClass::find(rtti::metaTypeId<Acc>());
    }();
    return c;
}

void verify(bool ok, char const *what) { check(ok, std::string("state-changed-by-failure:") + what, what); }

template<typename A> bool same(A const &a, A const &b)
{ return a.big.v == b.big.v && a.small.v == b.small.v && a.over.v == b.over.v && a.text == b.text; }

} // namespace

void api_scenarios(std::vector<Scenario> &s)
{
    s.push_back({"invoke method, five ways of passing", [](Guard const &g) {
        auto m = cls()->getMethod("sum");
        Acc acc;
        variant inst = std::ref(acc);
        Big a(1), b(2), c(3), d(4);
        int calls = -1;
        g([&] { variant r = m->invoke(inst, a, b, c, std::move(d), Small(5)); calls = acc.calls; check(r.cref<Big>().value() == 15, "result", "sum"); });
        verify(a.v == 1 && b.v == 2 && c.v == 3, "invoke arguments");
        verify(acc.calls <= 1, "called twice");
        (void)calls;
    }});
    s.push_back({"invoke method with converted arguments", [](Guard const &g) {
        auto m = cls()->getMethod("sum");
        Acc acc;
        variant inst = std::ref(acc);
        Big c(3);
        Small sm(1);
        g([&] { m->invoke(inst, sm, Small(1), c, Small(2), 5); });
        verify(c.v == 3 && sm.v == 1, "converted arguments");
    }});
    s.push_back({"invoke through the variant", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = acc;
        Big a(1), c(3);
        g([&] { inst.invoke("sum", a, a, c, Big(4), Small(5)); });
        verify(inst.cref<Acc>().big.v == 1 && c.v == 3, "variant invoke");
    }});
    s.push_back({"method that throws", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = &acc;
        g([&] { inst.invoke("thrower", Big(7)); });
        verify(acc.big.v == 1, "thrower");
    }});
    s.push_back({"static method", [](Guard const &g) {
        auto m = cls()->getMethod("twice");
        Big a(4);
        g([&] { variant r = m->invoke(a); check(r.cref<Big>().value() == 8, "result", "twice"); });
        verify(a.v == 4, "static method");
    }});
    s.push_back({"method with throwing moves", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = &acc;
        ThrowMove t(6);
        g([&] { variant r = inst.invoke("pass", t); check(r.cref<ThrowMove>().value() == 6, "result", "pass"); });
        verify(t.v == 6, "throwing moves");
    }});
    s.push_back({"method with strings", [](Guard const &g) {
        Acc acc;
        cls();
        variant const inst = acc;
        std::string p = "another text which needs storage of its own";
        g([&] { variant r = inst.invoke("name", p); check(r.cref<std::string>() == p + acc.text, "result", "name"); });
        verify(p.size() == 43 && inst.cref<Acc>().text == acc.text, "strings");
    }});
    s.push_back({"method with move-only values", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = &acc;
        g([&] { variant r = inst.invoke("give", MoveOnlyB(9)); check(r.cref<MoveOnlyB>().value() == 9, "result", "give"); });
    }});
    s.push_back({"arguments inside variants", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = &acc, a = Big(1), b = Big(2), c = Big(3), d = Big(4), e = Small(5);
        g([&] { variant r = inst.invoke("sum", a, b, c, std::move(d), e); check(r.cref<Big>().value() == 15, "result", "sum"); });
        verify(a.cref<Big>().v == 1 && b.cref<Big>().v == 2 && c.cref<Big>().v == 3 && e.cref<Small>().v == 5, "variant arguments");
    }});
    s.push_back({"constructor with three arguments", [](Guard const &g) {
        auto c = cls()->getConstructor<Big, Small const &, Over32 &&>();
        Big b(7);
        Small sm(8);
        if (!check(c != nullptr, "missing-constructor", "three arguments")) return;
        g([&] { variant v = c->invoke(b, sm, Over32(9)); auto &a = v.cref<Acc>(); check(a.big.v == 7 && a.small.v == 8 && a.over.v == 9, "result", "constructor"); });
        verify(b.v == 7 && sm.v == 8, "constructor");
    }});
    s.push_back({"default, copy and move constructor", [](Guard const &g) {
        auto d = cls()->defaultConstructor(), c = cls()->copyConstructor(), m = cls()->moveConstructor();
        Acc acc, acc2;
        g([&] { variant v = d->invoke(); variant w = c->invoke(acc); variant x = m->invoke(std::move(acc2)); check(w.cref<Acc>().big.v == 1, "result", "copy"); });
        verify(same(acc, Acc()), "copied from");
    }});
    s.push_back({"converting constructor, converted", [](Guard const &g) {
        cls();
        variant t = ThrowMove(11);
        g([&] { Acc a = t.to<Acc>(); check(a.big.v == 11, "result", "converting constructor"); });
        verify(t.cref<ThrowMove>().v == 11, "converting constructor");
    }});
    s.push_back({"get properties", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = &acc;
        g([&] { variant a = inst.get_property("big"), b = inst.get_property("text"), c = inst.get_property("acc");
                check(a.cref<Big>().v == 1 && c.cref<Big>().v == 1, "result", "get"); });
        verify(same(acc, Acc()), "get properties");
    }});
    s.push_back({"set a field", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = &acc;
        bool done = false;
        g([&] { inst.set_property("big", Big(42)); done = true; });
        verify(acc.big.v == (done ? 42 : 1), "field");
    }});
    s.push_back({"set a field, converted", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = acc;
        bool done = false;
        g([&] { inst.set_property("big", Small(41)); done = true; });
        verify(inst.cref<Acc>().big.v == (done ? 42 : 1), "field converted");
    }});
    s.push_back({"set a text", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = std::ref(acc);
        bool done = false;
        std::string t = "yet another text that needs storage of its own!";
        g([&] { inst.set_property("text", t); done = true; });
        verify(done ? acc.text == t : acc.text == Acc().text, "text");
    }});
    s.push_back({"set through an accessor", [](Guard const &g) {
        Acc acc;
        cls();
        variant inst = std::ref(acc);
        bool done = false;
        variant val = Big(5);
        g([&] { inst.set_property("acc", val); done = true; });
        verify(acc.big.v == (done ? 5 : 1), "accessor");
        verify(val.cref<Big>().v == 5, "accessor value");
    }});
    s.push_back({"eq, converted", [](Guard const &g) {
        variant v = Small(4);
        Big b(5);
        g([&] { bool r = v.eq(b); check(r || !clean_run, "result", "eq"); });
        verify(v.cref<Small>().v == 4 && b.v == 5, "eq");
    }});
    s.push_back({"eq the other way, converted", [](Guard const &g) {
        variant v = Big(5);
        Small b(4);
        g([&] { bool r = v.eq(b); check(r || !clean_run, "result", "eq"); });
        verify(v.cref<Big>().v == 5 && b.v == 4, "eq");
    }});
    s.push_back({"failed comparison of arrays", [](Guard const &g) {
        Small a[3] = {Small(1), Small(2), Small(3)};
        variant v = a, w = a;
        g([&] { check(v == w && v == a, "result", "array"); });
    }});
    s.push_back({"convert in place, converted", [](Guard const &g) {
        variant v = Small(4);
        bool done = false;
        g([&] { v.convert<Big>(); done = true; });
        if (done) verify(v.cref<Big>().v == 5, "converted");
        else verify(v.data<Small>() && v.cref<Small>().v == 4, "not converted");
    }});
    s.push_back({"construct and destruct through a handle", [](Guard const &g) {
        MetaType t{rtti::metaTypeId<Acc>()};
        Acc acc;
        g([&] { auto p = t.construct(&acc); auto q = t.construct(); t.destruct(p); t.destruct(q); });
        // a failure of the second construction leaves the first one to its owner
    }});
    s.back().name = "construct through a handle";
    s.back().run = [](Guard const &g) {
        MetaType t{rtti::metaTypeId<Acc>()};
        Acc acc;
        void *p = nullptr;
        g([&] { p = t.construct(&acc); });
        if (p) t.destruct(p);
        verify(same(acc, Acc()), "handle copy");
    };
    s.push_back({"construct an array through a handle", [](Guard const &g) {
        MetaType t{rtti::metaTypeId<ThrowMove[2]>()};
        void *p = nullptr;
        g([&] { p = t.construct(); });
        if (p) t.destruct(p);
    }});
    s.push_back({"nested variant lists", [](Guard const &g) {
        std::vector<variant> in;
        in.emplace_back(Big(1));
        in.emplace_back(std::string("a text long enough to need storage of its own"));
        variant v = in;
        variant w;
        bool done = false;
        g([&] { w = v; done = true; });
        verify(v.cref<std::vector<variant>>().size() == 2 && in.size() == 2, "nested");
        if (done) verify(w.cref<std::vector<variant>>()[0].cref<Big>().v == 1, "nested copy");
        else verify(w.empty(), "nested copy");
    }});
}
