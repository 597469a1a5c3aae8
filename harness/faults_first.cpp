// C07, first use: every scenario runs in processes that have not used its types before, once for
// each allocation it makes, with that allocation failing. The library may not end the process, the
// failure has to reach the caller, and everything has to work afterwards.
#include "alloc_hook.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <sys/wait.h>
#include <csignal>
#include <cerrno>
#include <functional>

using namespace rv;
using rtti::variant;
using rtti::MetaType;
using rtti::metaTypeId;

namespace {

int live_objects = 0;

/// A type nobody has used before, N tells them apart. Bytes above 16 live outside the variant.
template<int N, int Bytes = 8> struct Fresh
{
    int v = 0;
    bool gone = false;          // handed on; C05 judges what becomes of such objects
    char pad[Bytes - 5] = {};
    Fresh() { ++live_objects; }
    explicit Fresh(int x) : v(x) { ++live_objects; }
    Fresh(Fresh const &o) : v(o.v) { ++live_objects; }
    Fresh(Fresh &&o) noexcept : v(o.v), gone(o.gone) { o.gone = true; }
    Fresh &operator=(Fresh const &) = default;
    ~Fresh() { if (!gone) --live_objects; }
    bool operator==(Fresh const &o) const { return v == o.v; }
    int get() const { return v; }
    void set(int x) { v = x; }
    Fresh &self() { return *this; }
};
template<int N> using Wide = Fresh<N, 40>;

template<int N> struct Base
{
    int b = 11;
    virtual ~Base() = default;
    DECLARE_CLASSINFO
};
template<int N> struct Derived: Base<N>
{
    int d = 12;
    DECLARE_CLASSINFO
};

std::vector<std::string> *complaints = nullptr;
bool expect(bool ok, char const *what)
{
    if (!ok && complaints) { alloc::Pause p; complaints->push_back(what); }
    return ok;
}

template<typename T> void known()
{
    auto id = metaTypeId<T>();
    expect(id.valid(), "a type has no id");
    MetaType t{id};
    expect(MetaType{t.typeName()}.typeId() == id, "a type is not found by its name");
    expect(MetaType{t.decayId()}.typeId() == metaTypeId<rtti::full_decay_t<T>>(), "a type is not linked to its decayed type");
}

template<typename T> bool throws(T &&f)
{
    try { f(); return false; }
    catch (rtti::runtime_error const &) { return true; }
}

struct Scenario { char const *name; bool soft; void (*run)(); };

struct Scenarios: std::vector<Scenario>
{
    void add(char const *name, void (*run)(), bool soft = false) { push_back({name, soft, run}); }
};

template<typename T> void holds(T const &x)
{
    variant v = x;
    expect(v.typeId() == metaTypeId<T>(), "type of a held value");
    expect(v.cref<T>() == x, "value held");
    expect(v.is<T>() && !v.is<char **>(), "is");
    expect(v.data<T>() != nullptr && *v.data<T>() == x, "data");
    expect(v.to<T>() == x, "to");
}

template<typename T> void handed_on(T const &x)
{
    variant v = x, w;
    w = v;
    variant u = std::move(v);
    swap(u, v);
    expect(u.empty() && v == w, "copy, move, swap");
    v.clear();
    expect(v.empty() && w.cref<T>() == x, "clear");
}

template<int N> rtti::MetaClass const *class_of()
{
    using F = Fresh<N>;
    if (auto c = rtti::MetaClass::find(metaTypeId<F>())) return c;
    rtti::global_define()._namespace("first")._class<F>("F" + std::to_string(N))
        .template _constructor<int>()
        ._method("get", &F::get)
        ._method("set", &F::set)
        ._method("self", &F::self)
        ._property("v", &F::v)
        ._property("p", &F::get, &F::set)
    ._end()._end();
    return rtti::MetaClass::find(metaTypeId<F>());
}

/// Definitions are repeated after a failure, each part goes on from where it was left.
template<int N> rtti::MetaClass const *class_again()
{
    using F = Fresh<N>;
    rtti::global_define()._namespace("first")._class<F>("F" + std::to_string(N))
        .template _constructor<int>()
        ._method("get", &F::get)
        ._method("set", &F::set)
        ._property("v", &F::v)
        ._attribute("text", std::string("a text long enough to need storage of its own"))
    ._end()._end();
    return rtti::MetaClass::find(metaTypeId<F>());
}

template<int N> void hierarchy()
{
    using B = Base<N>;
    using D = Derived<N>;
    rtti::global_define()._namespace("first")
        ._class<B>("B" + std::to_string(N))._end()
        .template _class<D>("D" + std::to_string(N)).template _base<B>()._end()
    ._end();
}

template<int N> struct Many: Base<N>, Base<N + 1>, Base<N + 2> {};

/// Every base the class lists lists it, nothing else does, in the order of declaration.
template<int N> void agree_many()
{
    alloc::Pause p;
    auto m = rtti::MetaClass::find(metaTypeId<Many<N>>());
    rtti::MetaClass const *b[] = {rtti::MetaClass::find(metaTypeId<Base<N>>()), rtti::MetaClass::find(metaTypeId<Base<N + 1>>()),
                                  rtti::MetaClass::find(metaTypeId<Base<N + 2>>())};
    std::size_t n = m ? m->baseClassCount() : 0;
    for (std::size_t i = 0; i < 3; ++i)
    {
        bool down = b[i] && b[i]->derivedClassCount() == 1 && b[i]->derivedClass(0) == m;
        if (!down && b[i]) expect(b[i]->derivedClassCount() == 0, "a base lists another class");
        expect(down == (i < n), "a base lists a class which does not list it, or the other way round");
        if (i < n) expect(m->baseClass(i) == b[i], "order of bases");
        if (m && b[i]) expect(m->inheritedFrom(b[i]) == (i < n), "inheritance and list of bases differ");
    }
}

/// Whatever came of the definitions so far, both sides of every inheritance agree.
template<int N> void agree()
{
    alloc::Pause p;
    auto b = rtti::MetaClass::find(metaTypeId<Base<N>>()), d = rtti::MetaClass::find(metaTypeId<Derived<N>>());
    bool up = d && d->baseClassCount() == 1 && d->baseClass(0) == b, down = b && b->derivedClassCount() == 1 && b->derivedClass(0) == d;
    expect(up == down, "a base lists a class which does not list it, or the other way round");
    if (d && b) expect(d->inheritedFrom(b) == up, "inheritance and list of bases differ");
}

/// Whatever a definition left behind is found alike by index, name, count and iteration.
void consistent(rtti::MetaContainer const &c)
{
    alloc::Pause p;
    std::size_t k = 0;
    for (std::size_t i = 0; i < c.classCount(); ++i) expect(c.getClass(i) && c.getClass(c.getClass(i)->name()) == c.getClass(i), "class by index and name");
    c.for_each_class([&](rtti::MetaClass const *x) { expect(x == c.getClass(k++), "class by iteration"); return true; });
    expect(k == c.classCount() && !c.getClass(k), "count of classes");
    k = 0;
    for (std::size_t i = 0; i < c.methodCount(); ++i) expect(c.getMethod(i) && c.getMethod(c.getMethod(i)->name()) == c.getMethod(i), "method by index and name");
    c.for_each_method([&](rtti::MetaMethod const *x) { expect(x == c.getMethod(k++), "method by iteration"); return true; });
    expect(k == c.methodCount() && !c.getMethod(k), "count of methods");
    for (std::size_t i = 0; i < c.propertyCount(); ++i) expect(c.getProperty(i) && c.getProperty(c.getProperty(i)->name()) == c.getProperty(i), "property by index and name");
    for (std::size_t i = 0; i < c.namespaceCount(); ++i) expect(c.getNamespace(i) && c.getNamespace(c.getNamespace(i)->name()) == c.getNamespace(i), "namespace by index and name");
    for (std::size_t i = 0; i < c.enumCount(); ++i)
    {
        auto e = c.getEnum(i);
        if (!expect(e && c.getEnum(e->name()) == e, "enum by index and name")) continue;
        for (std::size_t j = 0; j < e->elementCount(); ++j) expect(&e->element(j) == &e->element(e->elementName(j)) && !e->element(j).empty(), "enum element by index and name");
    }
    for (std::size_t i = 0; i < c.attributeCount(); ++i) expect(&c.attribute(i) == &c.attribute(c.attributeName(i)) && !c.attribute(i).empty(), "attribute by index and name");
    for (std::size_t i = 0; i < c.constructorCount(); ++i) expect(c.getConstructor(i) != nullptr, "constructor by index");
}
struct Consistent
{
    rtti::MetaContainer const *(*what)();
    ~Consistent() { alloc::Pause p; if (auto c = what()) consistent(*c); consistent(*rtti::MetaNamespace::global()); }
};
template<int N> rtti::MetaContainer const *the_class() { return rtti::MetaClass::find(metaTypeId<Fresh<N>>()); }
rtti::MetaContainer const *first_space() { return rtti::MetaNamespace::global()->getNamespace("first"); }

int plain(int x) { return x + 1; }
std::string variable = "text";

void fill(Scenarios &s)
{
    s.add("id of a class", [] { known<Fresh<1>>(); });
    s.add("id of a pointer", [] { known<Fresh<2> const *const *>(); });
    s.add("id of a reference", [] { known<Fresh<3> const &>(); });
    s.add("id of an array", [] { known<Fresh<4> const[3][2]>(); });
    s.add("id of a function pointer", [] { known<Fresh<5> (*)(Wide<5> const &)>(); });
    s.add("type of nothing known", [] { expect(!MetaType{"first nobody has this name"}.valid(), "unknown name"); });
    s.add("small value", [] { holds(Fresh<10>(7)); });
    s.add("big value", [] { holds(Wide<11>(7)); });
    s.add("number", [] { holds<unsigned char volatile *>(nullptr); });
    s.add("pointer to a class", [] { Fresh<12> f(3); holds<Fresh<12> *>(&f); });
    s.add("pointer to const", [] { Fresh<13> f(3); holds<Fresh<13> const *>(&f); });
    s.add("const value", [] { Fresh<14> const f(4); variant v = f; expect(v.cref<Fresh<14>>().v == 4 && v.typeId() == metaTypeId<Fresh<14>>(), "const value"); });
    s.add("reference", [] {
        Fresh<15> f(5);
        variant v = std::ref(f);
        v.ref<Fresh<15>>().v = 6;
        expect(f.v == 6 && v.typeId() == metaTypeId<Fresh<15>>(), "reference");
    });
    s.add("const reference", [] {
        Fresh<16> f(5);
        variant v = std::cref(f);
        expect(&v.cref<Fresh<16>>() == &f && v.data<Fresh<16>>() == nullptr, "const reference");
    }, true);
    s.add("array", [] {
        Fresh<17> a[3] = {Fresh<17>(1), Fresh<17>(2), Fresh<17>(3)};
        variant v = a;
        expect(v.typeId() == metaTypeId<Fresh<17>[3]>() && v.cref<Fresh<17>[3]>()[2].v == 3, "array");
        expect(v == variant(a), "array equality");
    });
    s.add("reference to an array", [] {
        Fresh<18> a[2] = {Fresh<18>(1), Fresh<18>(2)};
        variant v = std::ref(a);
        expect(v.ref<Fresh<18>[2]>() == a, "reference to an array");
    });
    s.add("small value handed on", [] { handed_on(Fresh<20>(8)); });
    s.add("big value handed on", [] { handed_on(Wide<21>(8)); });
    s.add("text handed on", [] { handed_on(std::string("a text long enough to need storage of its own")); });
    s.add("type asked first", [] { variant v = Fresh<22>(1); auto a = v.typeId(); expect(a.valid() && a == metaTypeId<Fresh<22>>(), "type asked first"); });
    s.add("class asked first", [] { variant v = Fresh<23>(1); expect(v.metaClass() == nullptr, "class asked first"); });
    s.add("class of a pointer asked first", [] { Fresh<24> f(1); variant v = &f; expect(v.metaClass() == nullptr, "class of a pointer"); });
    s.add("hash first", [] { variant v = Wide<25>(1); expect(std::hash<variant>{}(v) == std::hash<variant>{}(variant(Wide<25>(1))), "hash"); });
    s.add("compare first", [] { variant v = Wide<26>(1), w = std::cref(v.cref<Wide<26>>()); expect(v == w && v != variant(Wide<26>(2)) && v != variant(1), "compare"); });
    s.add("is of another type", [] { variant v = 3; expect(!v.is<Fresh<27>>() && !v.is<Fresh<28> const &>(), "is of another type"); });
    s.add("to another type", [] { variant v = 3; expect(throws([&] { v.to<Fresh<29>>(); }), "to another type"); }, true);
    s.add("reference to another type", [] { variant v = 3; expect(throws([&] { v.ref<Fresh<30>>(); }) && !v.data<Fresh<31>>(), "reference to another type"); }, true);
    s.add("rvalue reference", [] { variant v = Wide<32>(4); Wide<32> w = std::move(v).rref<Wide<32>>(); expect(w.v == 4, "rvalue reference"); });
    s.add("const variant", [] { variant const v = Fresh<33>(4); expect(v.is<Fresh<33>>() && v.ref<Fresh<33>>().v == 4 && v.to<Fresh<33>>().v == 4, "const variant"); });
    s.add("failed access leaves the value", [] {
        variant v = std::string("a text long enough to need storage of its own");
        v.is<Fresh<34>>();
        v.tryConvert<Fresh<34>>();
        expect(v.cref<std::string>().size() == 45, "value changed");
    }, true);
    s.add("assignment keeps the old value", [] {
        static variant v = Wide<35>(1);
        struct Keep { ~Keep() { alloc::Pause p; expect(!v.empty() && (v.is<Wide<35>>() || v.is<Fresh<36>>()), "value lost"); } } keep;
        v = Fresh<36>(2);
        v = Wide<35>(1);
    });
    s.add("converter", [] {
        MetaType::registerConverter<Fresh<40>, Wide<41>>([](Fresh<40> const &f) { return Wide<41>(f.v + 1); });
        expect((MetaType::hasConverter<Fresh<40>, Wide<41>>()), "converter registered");
        variant v = Fresh<40>(1);
        expect(v.canConvert<Wide<41>>() && v.to<Wide<41>>().v == 2, "converted");
        v.convert<Wide<41>>();
        expect(v.cref<Wide<41>>().v == 2, "converted in place");
        expect(variant(Fresh<40>(1)).eq(Wide<41>(2)), "equal by conversion");
    }, true);
    s.add("type handle", [] {
        MetaType t{metaTypeId<Wide<42>>()};
        Wide<42> src(5);
        auto p = static_cast<Wide<42> *>(t.construct(&src));
        expect(p->v == 5, "constructed");
        t.destruct(p);
        auto a = MetaType{metaTypeId<Wide<42>[4]>()};
        a.destruct(a.construct());
    });
    s.add("definition of a class", [] {
        Consistent in_class{the_class<50>}, in_space{first_space};
        auto c = class_of<50>();
        if (!expect(c != nullptr, "class is not found")) return;
        class_again<50>();
        expect(c == rtti::MetaClass::find(metaTypeId<Fresh<50>>()), "another class");
        expect(c->getMethod("get") && c->getMethod("set") && c->getProperty("v") && c->getConstructor<int>(), "items of the class");
        expect(c->methodCount() >= 2 && c->propertyCount() >= 1, "items counted");
        expect(c->attribute("text") == std::string("a text long enough to need storage of its own"), "attribute");
    });
    s.add("definition of a namespace", [] {
        Consistent in_space{first_space};
        rtti::global_define()._namespace("first")
            ._namespace("inner")._attribute("a", 1)._namespace("innermost")._end()._end()
            ._method("plain", &plain)._property("variable", &variable)
            ._enum<int>("numbers")._element("one", 1)._element("two", 2)
            ._attribute("of the enum", std::string("a text long enough to need storage of its own"))
        ._end();
        auto ns = first_space();
        if (!expect(ns != nullptr, "namespace is not found")) return;
        expect(ns->getNamespace("inner") && ns->getNamespace("inner")->getNamespace("innermost"), "inner namespaces");
        expect(ns->getMethod("plain") && ns->getMethod("plain")->invoke(3).cref<int>() == 4, "function");
        expect(ns->getProperty("variable") && ns->getProperty("variable")->get().to<std::string>() == "text", "variable");
        expect(ns->getEnum("numbers") && ns->getEnum("numbers")->element("two") == 2, "enum");
    });
    s.add("definition of many items", [] {
        Consistent in_space{first_space};
        for (int i = 0; i < 12; ++i)
        {
            auto name = "item" + std::to_string(i);
            rtti::global_define()._namespace("first")._attribute(name, i)._method(name, &plain)._property(name, &variable)._namespace(name)._end()._end();
        }
        auto ns = first_space();
        expect(ns && ns->methodCount() == 12 && ns->propertyCount() == 12 && ns->namespaceCount() == 12, "number of items");
    });
    s.add("definition put off", [] {
        Consistent in_class{the_class<57>}, in_space{first_space};
        using F = Fresh<57>;
        {
            auto g = rtti::global_define();
            auto c = g._namespace("first")._class<F>("F57");
            static bool deferred = false;
            if (!deferred) { c._lazy([](rtti::meta_define<F, void> d) { d._method("get", &F::get)._property("v", &F::v); }); deferred = true; }
        }
        auto c = rtti::MetaClass::find(metaTypeId<F>());
        if (!expect(c != nullptr, "class is not found")) return;
        if (c->methodCount() == 1 && c->propertyCount() == 0)   // given up half way
            rtti::global_define()._namespace("first")._class<F>("F57")._property("v", &F::v);
        if (c->methodCount() == 0)
            rtti::global_define()._namespace("first")._class<F>("F57")._method("get", &F::get)._property("v", &F::v);
        expect(c->getMethod("get") && c->getProperty("v"), "items of the class");
    });
    s.add("methods", [] {
        auto c = class_again<51>();
        Fresh<51> f(9);
        auto get = c->getMethod("get"), set = c->getMethod("set");
        expect(get->invoke(f).cref<int>() == 9, "get of an object");
        expect(get->invoke(variant(std::ref(f))).cref<int>() == 9, "get of a reference");
        expect(get->invoke(variant(&f)).cref<int>() == 9, "get of a pointer");
        set->invoke(f, 10);
        expect(f.v == 10, "set");
        expect(throws([&] { get->invoke(variant(Wide<51>(1))); }), "get of another type");
        expect(throws([&] { set->invoke(f, Wide<52>(1)); }) && f.v == 10, "set of another type");
    }, true);
    s.add("constructors", [] {
        auto c = class_again<53>();
        variant v = c->getConstructor<int>()->invoke(7);
        expect(v.cref<Fresh<53>>().v == 7, "constructed from a number");
        variant w = c->copyConstructor()->invoke(v);
        expect(w == v, "copied");
        expect(throws([&] { c->getConstructor<int>()->invoke(Wide<54>(1)); }), "constructed from another type");
    }, true);
    s.add("properties", [] {
        auto c = class_again<55>();
        Fresh<55> f(9);
        auto p = c->getProperty("v");
        p->set(f, 3);
        expect(f.v == 3 && p->get(f).cref<int>() == 3, "property");
        variant v = std::ref(f);
        v.set_property("v", 4);
        expect(v.get_property("v").cref<int>() == 4 && f.v == 4, "property of a variant");
        expect(throws([&] { p->set(f, Wide<56>(1)); }) && f.v == 4, "property of another type");
    }, true);
    s.add("hierarchy", [] {
        struct Keep { ~Keep() { agree<60>(); } } keep;
        hierarchy<60>();
        auto b = rtti::MetaClass::find(metaTypeId<Base<60>>()), d = rtti::MetaClass::find(metaTypeId<Derived<60>>());
        expect(b && d && d->inheritedFrom(b), "inheritance");
    });
    s.add("hierarchy with several bases", [] {
        struct Keep { ~Keep() { agree_many<63>(); } } keep;
        rtti::global_define()._namespace("first")._class<Base<63>>("B63")._end()._class<Base<64>>("B64")._end()._class<Base<65>>("B65")._end()
            ._class<Many<63>>("M63")._base<Base<63>, Base<64>, Base<65>>()._end()._end();
        auto m = rtti::MetaClass::find(metaTypeId<Many<63>>());
        expect(m && m->baseClassCount() == 3, "bases");
    });
    s.add("casts", [] {
        hierarchy<61>();
        Derived<61> d;
        Base<61> *b = &d;
        expect(rtti::meta_cast<Derived<61>>(b) == &d, "cast down");
        variant v = std::ref(d);
        expect(v.is<Base<61>>() && &v.ref<Base<61>>() == b, "base of a variant");
        variant p = &d;
        expect(p.is<Base<61> *>() && p.to<Base<61> *>() == b, "base of a pointer");
        variant q = b;
        expect(q.is<Derived<61> *>() && q.to<Derived<61> *>() == &d, "derived of a pointer");
    }, true);
    s.add("enum", [] {
        enum class E { a = 3, b };
        rtti::global_define()._namespace("first")._enum<E>("E")._element("a", E::a)._element("b", E::b)._end();
        auto e = rtti::MetaNamespace::global()->getNamespace("first")->getEnum("E");
        expect(e && e->elementCount() == 2 && e->element("b") == E::b && e->element(0) == E::a, "enum");
    });
    s.add("functions", [] {
        rtti::global_define()._namespace("first")._method("twice", +[](Fresh<70> const &f, Wide<71> w) { return Wide<72>(f.v + w.v); })._end();
        auto m = rtti::MetaNamespace::global()->getNamespace("first")->getMethod("twice");
        if (!expect(m != nullptr, "function is not found")) return;
        expect(m->invoke(Fresh<70>(1), Wide<71>(2)).cref<Wide<72>>().v == 3, "function");
        expect(throws([&] { m->invoke(Fresh<73>(1), Wide<71>(2)); }), "function of another type");
    }, true);
}

// outcome of one process
enum { REACHED = 40, BEYOND = 41, BAD = 42 };

struct Child { int status; std::string text; };

Child run_child(Scenario const &s, long k)
{
    int fd[2];
    std::fflush(stdout);
    if (::pipe(fd) != 0) std::abort();
    pid_t pid = ::fork();
    if (pid < 0) std::abort();
    if (pid == 0)
    {
        ::close(fd[0]);
        std::vector<std::string> bad;
        complaints = &bad;
        bool fired = false;
        for (int round = 0; round < 3; ++round)
        {
            int objects = live_objects;
            char const *out = "done";
            bool nomem = false, soft = false;
            std::size_t had = bad.size();
            if (round == 0 && k >= 0) alloc::arm(k);
            try { alloc::Scope sc; s.run(); }
            catch (std::bad_alloc const &) { out = "bad_alloc"; nomem = true; }
            catch (rtti::runtime_error const &e) { out = "runtime_error"; soft = true; }
            catch (...) { out = "another exception"; }
            bool f = alloc::st().fired;
            alloc::off();
            alloc::st().fired = false;
            if (round == 0) fired = f;
            if (round == 0 && f)
            {
                bool ok = nomem || out[0] == 'd' || (s.soft && soft);
                // what did not happen for lack of memory need not be right, the aftermath has to be
                if (soft || out[0] == 'd') { if (s.soft) bad.resize(had); }
                if (!ok) bad.push_back(std::string("lack of memory answered by: ") + out);
            }
            else if (out[0] != 'd')
                bad.push_back(std::string(round ? "after the failure: " : "") + out);
            if (live_objects != objects && round == 0 && k >= 0 && std::strcmp(s.name, "assignment keeps the old value"))
                bad.push_back(fmt("%d objects left", live_objects - objects));
        }
        std::string text;
        for (auto &b : bad) text += b + "; ";
        std::size_t at = 0;
        while (at < text.size())
        {
            auto n = ::write(fd[1], text.data() + at, text.size() - at);
            if (n <= 0) break;
            at += std::size_t(n);
        }
        ::_exit(!bad.empty() ? BAD : fired ? REACHED : BEYOND);
    }
    ::close(fd[1]);
    Child c;
    char buf[4096];
    for (;;)
    {
        auto r = ::read(fd[0], buf, sizeof buf);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        c.text.append(buf, std::size_t(r));
    }
    ::close(fd[0]);
    while (::waitpid(pid, &c.status, 0) < 0 && errno == EINTR) {}
    return c;
}

} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    Scenarios all, sc;
    fill(all);
    auto only = opt("--match", "");
    for (auto &s : all)
        if (std::strncmp(s.name, only.c_str(), only.size()) == 0) sc.push_back(s);
    for_cases(long(sc.size()), [&](long i, Rng &) {
        auto &s = sc[std::size_t(i)];
        begin_case(i, s.name, std::string("first use: ") + s.name);
        auto key = [&] { std::string r = s.name; for (auto &c : r) if (c == ' ') c = '-'; return r; }();
        for (long k = -1; k < 400; ++k)
        {
            auto c = run_child(s, k);
            auto what = std::string("first use: ") + s.name + (k < 0 ? std::string() : fmt(", allocation %ld failing", k));
            int code = WIFEXITED(c.status) ? WEXITSTATUS(c.status) : -1;
            eval(comb(comb(0xf125, i), k + 1), code == REACHED);
            cov(k < 0 ? "first uses" : code == BEYOND ? "first uses beyond the last allocation" : "allocation failures at first use");
            if (code == REACHED) continue;
            if (code == BEYOND) { if (k < 0) continue; break; }
            if (code == BAD) viol("first-use:" + key, c.text + what);
            else viol("process-ended-at-first-use:" + key, fmt("status %x; ", unsigned(c.status)) + what);
            if (k < 0) break;
        }
    });
    return finish();
}
