// One of the files a program is made of; -DUNIT says which.
#include "startup.h"
using namespace start;
using rtti::variant;

namespace {
constexpr int N = UNIT, M = (UNIT + 1) % UNITS;
using C = Cls<N>;
std::string name(char const *t) { return t + std::to_string(N); }
char const *const spaces[] = {"one", "two", "three"};
rtti::MetaNamespace const *space()
{
    auto *s = rtti::MetaNamespace::global()->getNamespace("start");
    return s ? s->getNamespace(spaces[N % 3]) : nullptr;
}
void ok(bool b, char const *what, int kind) { if (!b) bad("not-as-registered", what, N, kind); }

std::array<variant, 9> &statics()
{
    static C object;
    static std::array<variant, 9> all{variant{Small{1}}, Large{2}, Throwing{3}, C{4}, &object, std::ref(object), std::string("a long enough text to be on the heap"), std::vector<variant>{Small{5}, Large{6}}, nullptr};
    return all;
}
std::vector<variant> &list() { static std::vector<variant> v; return v; }
std::map<std::string, variant> &dictionary() { static std::map<std::string, variant> v; return v; }
variant &thread_value() { thread_local variant v; return v; }
std::unique_ptr<variant> &owned() { static std::unique_ptr<variant> v; return v; }
variant *&exit_value() { static variant *v = nullptr; return v; }

// a destructor that uses what had been registered when the object was made
struct Closer
{
    unsigned masks[UNITS];
    variant own{Large{9}};
    Closer() { for (int i = 0; i < UNITS; ++i) masks[i] = done[i]; }
    ~Closer()
    {
        phase = SHUTDOWN;
        for (int i = 0; i < UNITS; ++i)
        {
            // converters may be gone since, and values of this thread are
            auto m = masks[i] & ~(1u << THREAD_LOCALS);
            if (done[i] & (1u << UNREGISTER)) m &= ~(1u << CONVERTER);
            verify(i, m);
        }
    }
};
// a destructor that handles values, whatever may be gone by then
struct Late
{
    std::vector<variant> own;
    variant a, b{Small{3}};
    ~Late()
    {
        phase = SHUTDOWN;
        log('L', N);
        variant c = a;
        if (c.empty() != a.empty()) bad("late", "copy", N, LATE);
        for (auto &v : own)
        {
            auto empty = v.empty();
            variant d = v;
            if (d.empty() != empty) bad("late", "copy", N, LATE);
            variant e = std::move(d);
            if (!d.empty() || e.empty() != empty) bad("late", "move", N, LATE);
            try { d = e; v.is<C>(); v.is<Small>(); v.is<C *>(); v.is<Cls<M> const *>(); (void)(v == d); }
            catch (rtti::runtime_error const &) {}
            try { v.to<Large>(); } catch (rtti::runtime_error const &) {}
            try { v.invoke("get"); } catch (rtti::runtime_error const &) {}
            try { v.get_property("v"); } catch (rtti::runtime_error const &) {}
            e.clear();
            if (!e.empty()) bad("late", "clear", N, LATE);
        }
        if (own.size() > 1) own[0] = own[1];
        b = variant{};
        b = Large{4};
    }
};
Late &late() { static Late l; return l; }

struct Joined
{
    std::atomic<bool> ready{false}, go{false};
    std::thread t;
    Joined()
    {
        t = std::thread([this] {
            thread_local variant a = Large{1}, b = Small{2}, c = C{3};
            thread_local std::vector<variant> d{Throwing{4}, Large{5}};
            variant x = a, y = b, z = c, w = d[0];
            if (x != a || z.empty()) bad("thread", "copies", N, JOINED_THREAD);
            ready = true;
            while (!go) std::this_thread::sleep_for(std::chrono::microseconds(200));
        });
        while (!ready) std::this_thread::yield();
    }
    ~Joined() { phase = SHUTDOWN; go = true; t.join(); log('J', N); }
};
void at_exit() { phase = SHUTDOWN; variant c = *exit_value(); delete exit_value(); exit_value() = nullptr; c = 5; }
} // namespace

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace start {
void CAT(step, UNIT)(int kind)
{
    auto define = [] { return rtti::global_define(); };
    switch (kind)
    {
    case TYPES: rtti::metaTypeId<C>(); rtti::metaTypeId<C *>(); rtti::metaTypeId<C const &>(); rtti::metaTypeId<C[3]>(); rtti::metaTypeId<Alone<N>>(); break;
    case CLASS: {
        auto g = define(); g._namespace("start")._namespace(spaces[N % 3])._class<C>(name("Cls"))._constructor<int>()._method("get", &C::get)._method("set", &C::set)._method("twice", &C::twice)
            ._property("v", &C::v)._attribute("held", Large{N})._attribute("small", Small{N});
        break; }
    case DERIVED: {
        auto g = define(); g._namespace("start")._namespace(spaces[N % 3])._class<Der<N>>(name("Der"))._base<C, Cls<M>>()._method("der", &Der<N>::der);
        break; }
    case LAZY: {
        auto g = define(); g._namespace("start")._namespace(spaces[N % 3])._class<Lazy<N>>(name("Lazy"))._lazy([](rtti::meta_define<Lazy<N>> d) { d._method("answer", &Lazy<N>::answer)._attribute("held", Large{N}); });
        break; }
    case CONVERTER:
    {
        Large captured{100};
        if (!rtti::MetaType::registerConverter<C, Large>([captured](C const &c) { return Large{c.v + captured.v}; })) bad("step", "converter refused", N, kind);
        break;
    }
    case METHOD_CONVERTER: if (!rtti::MetaType::registerConverter(&C::to_int)) bad("step", "converter refused", N, kind); break;
    case STATICS: statics(); break;
    case THREAD_LOCALS: { auto was = optional; optional = true; thread_value() = Large{N}; optional = was; break; }
    case CONTAINERS:
        for (int i = 0; i < 9; ++i) { list().push_back(Small{i}); list().push_back(Large{i}); dictionary()["k" + std::to_string(i)] = list()[std::size_t(i)]; }
        break;
    case ENUM: { auto g = define(); g._namespace("start")._namespace(spaces[N % 3])._enum<Enum<N>::Of>(name("En"))._element("A", variant(Enum<N>::Of::A))._element("B", variant(Enum<N>::Of::B))._element("held", variant(Large{N})); break; }
    case FUNCTIONS: { auto g = define(); g._method(name("twice"), &twice<N>)._property(name("static_value"), &static_value<N>)._attribute(name("global"), Large{N}); break; }
    case UNREGISTER: rtti::MetaType::unregisterConverter(rtti::metaTypeId<C>(), rtti::metaTypeId<Large>()); break;
    case CLOSER: { static Closer c; break; }
    case LATE: late().own = {variant{Small{1}}, Large{2}, C{3}, &static_value<N>, std::string("text in a variant of a late object"), variant{}}; late().a = C{4}; break;
    case JOINED_THREAD: { static Joined j; break; }
    case EMPTY: break;
    case ERRORS: break;
    case AT_EXIT: exit_value() = new variant{Large{6}}; std::atexit(&at_exit); break;
    case OWNED: owned().reset(new variant{C{8}}); break;
    }
}
void CAT(verify, UNIT)(unsigned mask)
{
    auto has = [mask](int k) { return (mask >> k & 1) != 0; };
    if (has(TYPES))
    {
        ok(rtti::MetaType{rtti::metaTypeId<Alone<N>>()}.typeSize() == sizeof(Alone<N>), "size", TYPES);
        ok(rtti::MetaType{rtti::type_name<Alone<N>>()}.typeId() == rtti::metaTypeId<Alone<N>>(), "by name", TYPES);
        ok(rtti::MetaType{rtti::metaTypeId<C *>()}.isClassPtr() && rtti::MetaType{rtti::metaTypeId<C[3]>()}.isArray(), "flags", TYPES);
    }
    if (has(CLASS))
    {
        auto *s = space();
        auto *c = s ? s->getClass(name("Cls")) : nullptr;
        ok(c, "class", CLASS);
        if (c)
        {
            ok(c == rtti::MetaClass::find(rtti::metaTypeId<C>()) && c == rtti::MetaClass::find(rtti::type_name<C>()), "class by type", CLASS);
            ok(c->qualifiedName() == std::string("::start::") + spaces[N % 3] + "::" + name("Cls"), "qualified name", CLASS);
            ok(c->methodCount() == 3 && c->propertyCount() == 1, "members", CLASS);
            ok(c->attribute("held").cref<Large>().v == N && c->attribute("small").cref<Small>().v == N, "attributes", CLASS);
            variant o = c->defaultConstructor()->invoke(), p = c->getConstructor<int>()->invoke(31);
            ok(o.cref<C>().v == N && p.cref<C>().v == 31, "constructors", CLASS);
            ok(o.invoke("get").to<int>() == N && c->getMethod("twice")->invoke(4).to<int>() == 8, "methods", CLASS);
            variant none = o.invoke("set", 12);
            ok(none.empty() && o.get_property("v").to<int>() == 12, "method without a result", CLASS);
            o.set_property("v", 13);
            ok(o.cref<C>().v == 13, "property", CLASS);
            ok(o.is<C>() && !o.is<Der<N>>(), "is", CLASS);
        }
    }
    if (has(DERIVED))
    {
        auto *c = rtti::MetaClass::find(rtti::metaTypeId<Der<N>>());
        ok(c && c->baseClassCount() == 2 && c->inheritedFrom(rtti::MetaClass::find(rtti::metaTypeId<Cls<M>>())), "bases", DERIVED);
        Der<N> d;
        Cls<M> *m = &d;
        ok(rtti::meta_cast<Der<N>>(m) == &d && rtti::meta_cast<C>(m) == static_cast<C *>(&d), "casts", DERIVED);
        variant v = d;
        ok(v.is<C>() && v.is<Cls<M>>() && v.invoke("der").template to<int>() == 7 + N && v.invoke("get").template to<int>() == N, "inherited", DERIVED);
    }
    if (has(LAZY))
    {
        auto *c = space() ? space()->getClass(name("Lazy")) : nullptr;
        auto *m = c ? c->getMethod("answer") : nullptr;
        ok(m && m->invoke(Lazy<N>{}).to<int>() == 42 + N && c->attribute("held").cref<Large>().v == N, "deferred definition", LAZY);
    }
    if (has(CONVERTER) && !has(UNREGISTER)) ok(rtti::MetaType::hasConverter(rtti::metaTypeId<C>(), rtti::metaTypeId<Large>()) && variant{C{5}}.to<Large>().v == 105, "converter", CONVERTER);
    if (has(UNREGISTER)) ok(!rtti::MetaType::hasConverter(rtti::metaTypeId<C>(), rtti::metaTypeId<Large>()) && !variant{C{5}}.canConvert<Large>(), "converter that was removed", UNREGISTER);
    if (has(METHOD_CONVERTER)) ok(variant{C{6}}.to<int>() == 60, "converter", METHOD_CONVERTER);
    if (has(STATICS))
    {
        auto &a = statics();
        ok(a[0].cref<Small>().v == 1 && a[1].cref<Large>().v == 2 && a[2].cref<Throwing>().v == 3 && a[3].cref<C>().v == 4, "values", STATICS);
        ok(a[4].cref<C *>()->v == N && a[5].cref<C>().v == N && a[6].cref<std::string>().size() > 20 && a[7].cref<std::vector<variant>>()[1].cref<Large>().v == 6, "values", STATICS);
        auto copy = a;
        ok(copy[1] == a[1] && copy[7].cref<std::vector<variant>>().size() == 2, "copies", STATICS);
    }
    if (has(THREAD_LOCALS) && !thread_value().empty()) ok(thread_value().cref<Large>().v == N, "value of the thread", THREAD_LOCALS);
    if (has(CONTAINERS))
    {
        bool all = list().size() == 18 && dictionary().size() == 9;
        for (int i = 0; all && i < 9; ++i) all = list()[std::size_t(2 * i)].cref<Small>().v == i && list()[std::size_t(2 * i + 1)].cref<Large>().v == i && dictionary()["k" + std::to_string(i)] == list()[std::size_t(i)];
        ok(all, "values in containers", CONTAINERS);
    }
    if (has(ENUM))
    {
        auto *e = space() ? space()->getEnum(name("En")) : nullptr;
        ok(e && e->elementCount() == 3 && e->element("B").cref<Enum<N>::Of>() == Enum<N>::Of::B && e->element("held").cref<Large>().v == N, "enumeration", ENUM);
    }
    if (has(FUNCTIONS))
    {
        auto *global = rtti::MetaNamespace::global();
        auto *m = global->getMethod(name("twice"));
        auto *p = global->getProperty(name("static_value"));
        ok(m && m->invoke(5).to<int>() == 10 + N && p && p->get().to<int>() == N && global->attribute(name("global")).cref<Large>().v == N, "global items", FUNCTIONS);
    }
    if (has(EMPTY))
    {
        variant e = rtti::MetaNamespace::global()->attribute("there is none"), f = e, h;
        ok(e.empty() && f == h && e == variant::empty_variant && std::hash<variant>{}(e) == std::hash<variant>{}(h), "empty variant", EMPTY);
        ok(!e.is<int>() && !e.canConvert<int>() && e.typeId() == rtti::MetaType_ID{} && !rtti::MetaNamespace::global()->getClass("nor this"), "empty variant", EMPTY);
    }
    if (has(ERRORS))
    {
        int n = 0;
        try { variant{5}.ref<std::string>(); } catch (rtti::bad_variant_cast const &) { ++n; }
        try { variant{}.to<int>(); } catch (rtti::runtime_error const &) { ++n; }
        try { variant{5}.invoke("nothing"); } catch (rtti::runtime_error const &) { ++n; }
        ok(n == 3, "errors", ERRORS);
    }
    if (has(LATE)) ok(late().own.size() == 6 && late().own[2].cref<C>().v == 3, "values", LATE);
    if (has(OWNED)) ok(owned()->cref<C>().v == 8, "value", OWNED);
}
} // namespace start

// what is initialised with the file, in the order of the file
namespace {
variant before_small{Small{21}}, before_large{Large{22}};
variant const empty_copy = variant::empty_variant;
#if UNIT == 1 || UNIT == 4
struct Early { Early() { run(key_of('e', N).c_str()); } };
Early early __attribute__((init_priority(150)));
variant very_early __attribute__((init_priority(140))) {C{23}};
#endif
#if UNIT == 2 || UNIT == 5
__attribute__((constructor)) void by_attribute() { run(key_of('c', N).c_str()); }
#endif
struct Starter { Starter() { run(key_of('s', N).c_str()); } ~Starter() { phase = SHUTDOWN; } };
Starter starter;
std::vector<variant> file_list{Small{24}, Large{25}, C{26}};
variant file_array[3] = {Throwing{27}, before_small, before_large};
rtti::MetaType_ID const file_id = rtti::metaTypeId<Alone<N>>();
thread_local variant file_thread{Small{28}};
}
RTTI_REGISTER { run(key_of('r', N).c_str()); }

namespace start {
void CAT(file, UNIT)()
{
    bool all = before_small.cref<Small>().v == 21 && before_large.cref<Large>().v == 22 && empty_copy.empty() && file_list.size() == 3 && file_list[2].cref<C>().v == 26 &&
        file_array[0].cref<Throwing>().v == 27 && file_array[1] == before_small && file_array[2] == before_large && file_id == rtti::metaTypeId<Alone<N>>() &&
        shared_inline.cref<Large>().v == 77 && Holder<N>::v.cref<Small>().v == 88;
#if UNIT == 1 || UNIT == 4
    all = all && very_early.cref<C>().v == 23;
#endif
    if (!all) bad("not-as-registered", "variants of the file", N, -1);
    optional = true;
    if (file_thread.cref<Small>().v != 28) bad("not-as-registered", "variant of the thread", N, -1);
    optional = false;
}
}
