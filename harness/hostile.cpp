// Arbitrary calls of the public API with arguments that are mostly wrong. Whatever is answered with
// an exception of the library has to leave everything as it was.
#include "hostile.h"
#include "forked.h"
using namespace rv;
using namespace hostile;
using rtti::MetaClass;
using rtti::MetaContainer;
using rtti::MetaMethod;
using rtti::MetaNamespace;
using rtti::MetaType;

namespace hostile {
int const World::fixed = 12;
void typed_calls_0(std::vector<Call> &); void typed_calls_1(std::vector<Call> &); void typed_calls_2(std::vector<Call> &);
void typed_calls_3(std::vector<Call> &); void typed_calls_4(std::vector<Call> &); void typed_calls_5(std::vector<Call> &);

variant make(int kind)
{
    auto &x = w();
    switch (kind)
    {
    case 0: return {};
    case 1: { variant a = std::string("moved away"), b = std::move(a); return a; }
    case 2: return 5;
    case 3: return 2.5;
    case 4: return true;
    case 5: return 'c';
    case 6: return std::string("a text that does not fit in place");
    case 7: return x.cstr;
    case 8: return static_cast<char const *>(nullptr);
    case 9: return nullptr;
    case 10: return &x.number;
    case 11: return static_cast<int *>(nullptr);
    case 12: return static_cast<int const *>(&x.number);
    case 13: return static_cast<void *>(&x.number);
    case 14: return static_cast<void *>(nullptr);
    case 15: return static_cast<void const *>(&x.base);
    case 16: return std::ref(x.number);
    case 17: return std::cref(x.number);
    case 18: return std::ref(x.text);
    case 19: return std::cref(x.text);
    case 20: return Base(6);
    case 21: return Derived{};
    case 22: return Multi{};
    case 23: return &x.base;
    case 24: return static_cast<Base *>(&x.multi);
    case 25: return static_cast<Base const *>(&x.derived);
    case 26: return static_cast<Base *>(nullptr);
    case 27: return static_cast<Derived const *>(nullptr);
    case 28: return std::ref(x.base);
    case 29: return std::cref(static_cast<Base const &>(x.multi));
    case 30: return std::ref(x.multi);
    case 31: return static_cast<Abstract *>(&x.concrete);
    case 32: return static_cast<Abstract const *>(nullptr);
    case 33: return std::cref(static_cast<Abstract const &>(x.concrete));
    case 34: return Concrete{};
    case 35: return Unregistered{};
    case 36: return &x.unregistered;
    case 37: return static_cast<Unregistered *>(nullptr);
    case 38: return std::ref(x.unregistered);
    case 39: return Plain{};
    case 40: return &x.plain;
    case 41: return Stranger{};
    case 42: return static_cast<Stranger const *>(&x.stranger);
    case 43: return &no_result;
    case 44: return &World::real;
    case 45: return Color::Green;
    case 46: return std::ref(x.array);
    case 47: return MoveOnly{};
    case 48: return Big{};
    case 49: return &x.base_pointer;
    case 50: return &function;
    case 51: return &Base::b;
    case 52: return &Base::get;
    case 53: return std::vector<int>{1, 2, 3};
    case 54: return std::ref(x.base_pointer);
    case 55: return std::cref(x.null_pointer);
    case 56: return Uni{3};
    default: return std::ref(x.immovable);
    }
}
std::string hostile_name(Rng &r)
{
    static std::vector<std::string> const names = {"", " ", "get", "get()", "Get", "bump", "bump(int)", "bump(int) ", "bump(", "bump)", "()", "(", ")", "::", "world", "::world", "world::Base", "Base", "Derived", "Multi",
        "b", "name", "stat", "fixed", "got", "nonesuch", "default constructor", "d_constructor()", "c_constructor(const &)", "operator()", "operator()(int)", "operator()()", "label", "label() const",
        "join", "join(const std::string&, int)", "ten", "a0", "a1", "Color", "Red", "int", "int*", "hostile::Base", "void", "hostile::Base*const", "nothing", "take", "take_ptr", "lazy", "self", "side", "\xff\xfe", "\xd0\x98\xd0\xbc\xd1\x8f", "%s%n%d"};
    switch (r.below(12))
    {
    case 0: return std::string(r.below(5000), 'x');
    case 1: { std::string s(r.below(30), ' '); for (auto &c : s) c = char(r.below(256)); return s; }
    case 2: return std::string("get\0more", 8);
    case 3: { auto s = r.pick(names); return s + s; }
    case 4: { auto s = r.pick(names); return s.substr(0, r.below(s.size() + 1)); }
    default: return r.pick(names);
    }
}
std::string show(variant const &v)
{
    if (v.empty()) return "empty";
    auto id = v.typeId();
    std::string s(MetaType{id}.typeName());
    if (id == rtti::metaTypeId<int>()) return s + fmt("=%d", v.cref<int>());
    if (id == rtti::metaTypeId<std::string>()) return s + "=" + v.cref<std::string>();
    if (id == rtti::metaTypeId<Base>()) return s + fmt("=%d", v.cref<Base>().b);
    if (id == rtti::metaTypeId<Derived>()) return s + fmt("=%d %s", v.cref<Derived>().b, v.cref<Derived>().name.c_str());
    if (id == rtti::metaTypeId<Multi>()) return s + fmt("=%d %d %d", v.cref<Multi>().b, v.cref<Multi>().m, v.cref<Multi>().s);
    if (id == rtti::metaTypeId<Big>()) return s + fmt("=%ld ", v.cref<Big>().a[2]) + v.cref<Big>().t;
    if (id == rtti::metaTypeId<Base *>()) return s + fmt("=%p", static_cast<void const *>(v.cref<Base *>()));
    if (id == rtti::metaTypeId<Plain>()) return s + fmt("=%d", v.cref<Plain>().p);
    if (id == rtti::metaTypeId<std::vector<int>>()) { auto &x = v.cref<std::vector<int>>(); for (auto q : x) s += fmt(" %d", q); }
    return s;
}
} // namespace hostile

namespace {
std::vector<Call> calls;
std::string log_;

std::string objects()
{
    auto &x = w();
    auto s = fmt("%d %d %d %d %d %d %d %d %g %d %d ", x.base.b, x.derived.b, x.multi.b, x.multi.s, x.multi.m, x.unregistered.u, x.plain.p, x.number, x.real, x.stat, x.side.s) + x.text + x.derived.name + x.multi.name + show(x.inner);
    for (auto q : x.array) s += fmt(" %d", q);
    return s + fmt("%p %p", static_cast<void *>(x.pointer), static_cast<void *>(x.base_pointer));
}
void item(std::string &s, rtti::MetaItem const *i)
{
    s += i->qualifiedName() + fmt("/%d", int(i->category()));
    i->for_each_attribute([&](std::string_view n, variant const &v) { s += n; s += show(v); return true; });
}
void container(std::string &s, MetaContainer const *c)
{
    item(s, c);
    for (std::size_t i = 0; auto *x = c->getMethod(i); ++i) item(s, x);
    for (std::size_t i = 0; auto *x = c->getProperty(i); ++i) item(s, x);
    for (std::size_t i = 0; auto *x = c->getConstructor(i); ++i) item(s, x);
    for (std::size_t i = 0; auto *x = c->getEnum(i); ++i) { item(s, x); x->for_each_element([&](std::string const &n, variant const &v) { s += n + show(v); return true; }); }
    for (std::size_t i = 0; auto *x = c->getNamespace(i); ++i) container(s, x);
    for (std::size_t i = 0; auto *x = c->getClass(i); ++i)
    {
        container(s, x);
        for (std::size_t k = 0; auto *b = x->baseClass(k); ++k) s += b->name();
        for (std::size_t k = 0; auto *b = x->derivedClass(k); ++k) s += b->name();
    }
}
std::string metadata() { std::string s; container(s, w().ns); return s; }
std::string pool() { std::string s; for (auto &v : w().pool) s += show(v) + "|"; return s; }

void define()
{
    auto g = rtti::global_define();
    auto d = g._namespace("world");
    d._attribute("a0", 1)._attribute("a1", std::string("text"));
    d._method("join", &Base::join)._method("function", &function)._method("no_result", &no_result);
    d._method("operator()", &function);
    d._property("stat", &w().stat)._property("fixed", &World::fixed);
    auto e = d;
    e._enum<Color>("Color")._element("Red", Color::Red)._element("Green", Color::Green);
    d = d._class<Base>("Base")._constructor<int>("make")._method("get", &Base::get)._method("bump", &Base::bump)._method("ref", &Base::ref)._method("self", &Base::self)
        ._method("nothing", &Base::nothing)._method("join", &Base::join)._method("ten", &Base::ten)._method("take", &Base::take)._method("take_ptr", &Base::take_ptr)._property("b", &Base::b)._attribute("a0", 5)._end();
    d = d._class<Derived>("Derived")._base<Base>()._method("label", &Derived::label)._property("name", &Derived::name)._property("d", &Derived::d)._end();
    d = d._class<Side>("Side")._method("side", &Side::side)._end();
    d = d._class<Multi>("Multi")._base<Side, Derived>()._end();
    d = d._class<Abstract>("Abstract")._method("pure", &Abstract::pure)._end();
    d = d._class<Concrete>("Concrete")._base<Abstract>()._end();
    d = d._class<Plain>("Plain")._property("p", &Plain::p)._end();
    d = d._class<NoDefault>("NoDefault")._constructor<int>("make")._end();
    d = d._class<MoveOnly>("MoveOnly")._end();
    d = d._class<Immovable>("Immovable")._property("i", &Immovable::i)._end();
    MetaType::registerConverter<int, std::string>([](int x) { return std::to_string(x); });
    MetaType::registerConverter<double, int>([](double x) -> int { if (x > 2) throw 42; return int(x); });
    MetaType::registerConverter<Stranger, Base>([](Stranger const &s) { return Base(s.q); });
    w().ns = MetaNamespace::global()->getNamespace("world");
    auto fresh = rtti::global_define();
    auto s = fresh._namespace("scratch");
    w().scratch = MetaNamespace::global()->getNamespace("scratch");
}

template<typename ...A> variant call(MetaMethod const *m, A &&...a) { return m->invoke(std::forward<A>(a)...); }
MetaContainer const *any_container(Rng &r)
{
    auto *n = w().ns;
    switch (r.below(4))
    {
    case 0: return n;
    case 1: return MetaNamespace::global();
    default: return n->getClass(r.below(n->classCount()));
    }
}
MetaClass const *any_class(Rng &r) { return r.chance(1, 10) ? nullptr : w().ns->getClass(r.below(w().ns->classCount())); }
void broken(char const *key, std::string const &what) { throw Broken{key, what}; }
variant &any(Rng &r) { return r.pick(w().pool); }

void untyped_calls()
{
    auto add = [](char const *n, std::function<void(Rng &, variant &)> f, int times = 6) { while (times--) calls.emplace_back(n, f); };
    add("eq", [](Rng &r, variant &v) {
        auto &o = any(r);
        bool a = v == o, b = o == v;
        if (a != b) broken("eq", "not symmetric: " + show(v) + ", " + show(o));
        if (v.empty() && a != o.empty()) broken("eq", "an empty variant equals " + show(o));
        (void)(v != o);
    });
    add("eq with conversion", [](Rng &r, variant &v) { v.eq(any(r)); v.neq(5); v.eq(std::string("5")); (void)(v == 5); (void)(v != 2.5); v.eq(Base(1)); });
    add("hash", [](Rng &, variant &v) { std::hash<variant>{}(v); });
    add("copy", [](Rng &, variant &v) { auto before = show(v); variant c = v; if (show(c) != before) broken("copy", before + " -> " + show(c)); });
    add("assign", [](Rng &r, variant &v) { v = any(r); });
    add("self assign", [](Rng &, variant &v) { auto b = show(v); auto &x = v; v = x; v = std::move(x); using std::swap; swap(v, x); if (show(v) != b) broken("changed", "self assignment: " + b + " -> " + show(v)); });
    add("move out", [](Rng &, variant &v) { auto b = show(v); variant m = std::move(v); if (show(m) != b || !v.empty()) broken("move", b + " -> " + show(m)); v = std::move(m); });
    add("swap", [](Rng &r, variant &v) { auto &o = any(r); using std::swap; if (&o != &v) swap(v, o); });
    add("clear", [](Rng &r, variant &v) { v.clear(); v.clear(); if (!v.empty() || v || v.typeId() != rtti::metaTypeId<void>()) broken("clear", show(v)); v = make(int(r.below(KINDS))); });
    add("renew", [](Rng &r, variant &v) { v = make(int(r.below(KINDS))); }, 20);
    add("assign value", [](Rng &r, variant &v) { switch (r.below(4)) { case 0: v = 3; break; case 1: v = Derived{}; break; case 2: v = w().text; break; default: v = static_cast<Base *>(nullptr); } });
    add("variant invoke", [](Rng &r, variant &v) {
        auto name = hostile_name(r);
        auto const &c = v;
        switch (r.below(7))
        {
        case 0: v.invoke(name); break;
        case 1: c.invoke(name); break;
        case 2: v.invoke(name, any(r)); break;
        case 3: c.invoke(name, 5); break;
        case 4: v.invoke(name, std::string("x"), any(r)); break;
        case 5: v.invoke("take_ptr", any(r)); break;
        default: v.invoke(name, 1, 2, 3, 4, 5, 6, 7, 8, 9); break;
        }
    }, 30);
    add("variant property", [](Rng &r, variant &v) {
        auto name = hostile_name(r);
        auto const &c = v;
        if (r.chance(1, 2)) { variant p = c.get_property(name); show(p); }
        else v.set_property(name, any(r));
    }, 25);
    add("variant property known", [](Rng &r, variant &v) {
        static char const *const names[] = {"b", "name", "d", "p", "i", "stat"};
        auto *name = names[r.below(6)];
        if (r.chance(1, 2)) { variant p = v.get_property(name); show(p); }
        else if (r.chance(1, 2)) v.set_property(name, 5);
        else v.set_property(name, any(r));
    }, 25);
    add("method", [](Rng &r, variant &v) {
        auto *c = any_container(r);
        auto name = r.chance(1, 2) ? std::string() : hostile_name(r);
        auto *m = name.empty() ? c->getMethod(r.below(c->methodCount() + 2)) : c->getMethod(name);
        if (!m) return;
        switch (r.below(10))
        {
        case 0: call(m); break;
        case 1: call(m, v); break;
        case 2: call(m, v, any(r)); break;
        case 3: call(m, any(r), any(r), any(r)); break;
        case 4: call(m, &w().base, v); break;
        case 5: call(m, w().derived, 5); break;
        case 6: call(m, static_cast<Base *>(nullptr), v); break;
        case 7: call(m, v, std::ref(any(r))); break;
        case 8: call(m, nullptr, v); break;
        default: call(m, v, any(r), 3, any(r), 5, 6, any(r), 8, 9, any(r)); break;
        }
    }, 60);
    add("property", [](Rng &r, variant &v) {
        auto *c = any_container(r);
        auto *p = r.chance(1, 2) ? c->getProperty(r.below(c->propertyCount() + 2)) : c->getProperty(hostile_name(r));
        if (!p) return;
        switch (r.below(9))
        {
        case 0: show(p->get()); break;
        case 1: show(p->get(v)); break;
        case 2: show(p->get(&w().multi)); break;
        case 3: show(p->get(static_cast<Derived *>(nullptr))); break;
        case 4: p->set(v); break;
        case 5: p->set(v, any(r)); break;
        case 6: p->set(w().derived, v); break;
        case 7: p->set(const_cast<variant const &>(v), 5); break;
        default: p->set(nullptr, v); break;
        }
    }, 40);
    add("constructor", [](Rng &r, variant &v) {
        auto *c = any_container(r);
        auto *k = r.chance(2, 3) ? c->getConstructor(r.below(c->constructorCount() + 2)) : c->getConstructor(hostile_name(r));
        if (r.chance(1, 8)) k = c->defaultConstructor();
        if (r.chance(1, 8)) k = c->copyConstructor();
        if (r.chance(1, 8)) k = c->moveConstructor();
        if (c->category() == rtti::mcatNamespace && k) broken("constructor", "of a namespace");
        if (!k) return;
        switch (r.below(6))
        {
        case 0: show(k->invoke()); break;
        case 1: show(k->invoke(v)); break;
        case 2: show(k->invoke(v, any(r))); break;
        case 3: show(k->invoke(std::move(v))); break;
        case 4: show(k->invoke(nullptr)); break;
        default: show(k->invoke(w().derived, 1, 2, 3, 4, 5, 6, 7, 8, v)); break;
        }
    }, 30);
    add("lookups", [](Rng &r, variant &) {
        auto *c = any_container(r);
        auto name = hostile_name(r);
        auto i = r.chance(1, 3) ? std::size_t(-1) - r.below(3) : r.chance(1, 2) ? std::size_t(1) << r.below(64) : r.below(30);
        auto one = [&](auto *p, bool in_range, char const *what) { if (!p != !in_range) broken("index", what); };
        one(c->getMethod(i), i < c->methodCount(), "method");
        one(c->getProperty(i), i < c->propertyCount(), "property");
        one(c->getConstructor(i), i < c->constructorCount(), "constructor");
        one(c->getEnum(i), i < c->enumCount(), "enum");
        one(c->getClass(i), i < c->classCount(), "class");
        one(c->getNamespace(i), i < c->namespaceCount(), "namespace");
        auto named = [&](auto *p, char const *what) { if (p && p->name() != name && p->name().compare(0, name.size() + 1, name + "(") != 0) broken("name", what + p->name()); };
        named(c->getMethod(name), "method "); named(c->getProperty(name), "property "); named(c->getEnum(name), "enum "); named(c->getClass(name), "class "); named(c->getNamespace(name), "namespace ");
        c->getConstructor(name); c->getConstructor<int>(name); c->getMethod<int, std::string>(name);
        auto &a = c->attribute(name);
        auto &b = c->attribute(i);
        if (i >= c->attributeCount() && (!b.empty() || !c->attributeName(i).empty())) broken("index", "attribute");
        show(a); show(b);
        if (name.empty() && !a.empty()) broken("name", "attribute without a name");
        c->for_each_attribute({}); c->for_each_class({}); c->for_each_method({});
        c->for_each_method([](auto) { return false; });
        c->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
        if (auto *e = c->getEnum(std::size_t(0)))
        {
            auto &x = e->element(i);
            if (i >= e->elementCount() && (!x.empty() || !e->elementName(i).empty())) broken("index", "element");
            show(e->element(name)); e->for_each_element({});
        }
        if (auto *m = c->getMethod(std::size_t(0))) { m->attribute(name); m->attribute(i); m->attributeName(i); }
    }, 40);
    add("classes", [](Rng &r, variant &v) {
        auto *c = any_class(r);
        auto name = hostile_name(r);
        auto i = r.chance(1, 3) ? std::size_t(-1) - r.below(3) : r.below(5);
        MetaClass::find(name); MetaClass::find(v.typeId()); MetaClass::find(rtti::MetaType_ID{});
        if (MetaClass::find(rtti::MetaType_ID{})) broken("class", "of no type");
        MetaType t{name};
        if (t.valid() && t.typeName() != name) broken("name", "type " + std::string(t.typeName()));
        if (!t.valid() && (t.metaClass() || t.typeSize() || t.decayId().valid())) broken("invalid-type", "is something");
        if (!c) return;
        if (!c->baseClass(i) != (i >= c->baseClassCount())) broken("index", "base class");
        if (!c->derivedClass(i) != (i >= c->derivedClassCount())) broken("index", "derived class");
        if (c->inheritedFrom(nullptr)) broken("class", "inherits nothing");
        c->inheritedFrom(any_class(r)); c->metaTypeId();
    }, 20);
    add("meta_cast", [](Rng &r, variant &) {
        using rtti::meta_cast;
        auto &x = w();
        Base *n = nullptr;
        Base const *cn = nullptr;
        if (meta_cast<Derived>(n) || meta_cast<Multi>(cn) || meta_cast<Base>(n)) broken("cast", "null pointer");
        if (meta_cast<Derived>(&x.base) || meta_cast<Side>(&x.derived)) broken("cast", "to a class the object is not of");
        if (meta_cast<Multi>(static_cast<Side *>(&x.multi)) != &x.multi || meta_cast<Base>(static_cast<Side *>(&x.multi)) != static_cast<Base *>(&x.multi)) broken("cast", "within an object");
        if (meta_cast<Unregistered>(&x.base) || meta_cast<Base>(&x.unregistered)) broken("cast", "unregistered");
        if (meta_cast<Stranger>(&x.plain)) broken("cast", "no class info");
        bool threw = false;
        try { if (r.chance(1, 2)) meta_cast<Multi>(x.base); else meta_cast<Base const>(static_cast<Side const &>(x.side)); }
        catch (rtti::bad_meta_cast const &) { threw = true; }
        if (!threw) broken("cast", "reference");
    }, 8);
    add("types by name", [](Rng &r, variant &v) {
        MetaType t{v.typeId()};
        if (!t.valid() != v.empty()) broken("type", "of " + show(v));
        void *p = t.construct();
        t.destruct(p);
        MetaType o{any(r).typeId()};
        MetaType::compatible(t, o);
        t.isClassPtr(); t.isFunctionPtr(); t.isVoidPtr(); t.pointerArity();
    }, 8);
}

void definitions(Rng &r)
{
    auto g = rtti::global_define();
    auto d = g._namespace("scratch");
    auto name = hostile_name(r), other = hostile_name(r);
    auto *s = w().scratch;
    // parentheses are for parameters
    bool odd = name.empty() || name.find_first_of("()") != std::string::npos;
    switch (r.below(9))
    {
    case 0: d._namespace(name)._attribute(other, 1); if (auto *x = s->getNamespace(name); !x || (x->name() != name && !name.empty())) broken("define", "namespace " + name); break;
    case 1: d._method(name, &function)._method(other, &Base::join); if (!odd && !s->getMethod(name + "(int)")) broken("define", "method " + name); break;
    case 2: d._property(name, &w().stat); if (!s->getProperty(name) != name.empty()) broken("define", "property " + name); break;
    case 3: d._enum<Color>(name)._element(other, variant(Color::Red))._attribute(other, 5); if (!s->getEnum(name)) broken("define", "enum " + name); break;
    case 4:
    {
        auto &v = any(r);
        d._attribute(name, v);
        if (name.empty() ? !s->attribute(name).empty() : s->attribute(name).typeId() != v.typeId()) broken("define", "attribute " + name);
        break;
    }
    case 5: d._class<Stranger>(name)._attribute(other, 1); break;
    case 6: d._class<Unregistered>(name)._method(other, &function); break;
    case 7:
        try { d._class<NoDefault>(name); }
        catch (rtti::duplicate_metaclass const &) { break; }
        broken("define", "one type as two classes");
        break;
    default:
        // a base nobody registered
        try { d._class<Orphan>(name)._base<Unregistered, Lonely>(); }
        catch (rtti::definition_error const &) { break; }
        broken("define", "base of an unregistered class");
        break;
    }
}

void one(long i, Rng &rng)
{
    define();
    auto &x = w();
    int slots = rng.range(1, 8);
    for (int k = 0; k < slots; ++k) x.pool.push_back(make(int(rng.below(KINDS))));
    x.pool.reserve(std::size_t(slots));
    for (auto &v : x.pool) log_ += show(v).substr(0, 60) + "|";
    int steps = rng.range(10, 120);
    auto meta = metadata();
    std::string trail;
    std::uint64_t n = 0, shape = 0;
    for (int k = 0; k < steps; ++k)
    {
        bool defines = rng.chance(1, 25);
        auto &c = rng.pick(calls);
        auto slot = rng.below(x.pool.size());
        auto &v = x.pool[slot];
        auto name = defines ? std::string("definitions") : c.first;
        auto before = pool(), objs = objects();
        auto seed = rng.next();
        Rng r(seed);
        at(name, show(v).substr(0, 80) + " of " + log_.substr(0, 300) + "; before:" + trail);
        shape = comb(shape, hash_str(name, hash_str(MetaType{v.typeId()}.typeName())));
        bool failed = false;
        auto ctx = [&] { return name + " on " + before.substr(0, 400) + fmt(" slot %d; before:", int(slot)) + trail; };
        try
        {
            if (defines) definitions(r); else c.second(r, v);
        }
        catch (rtti::runtime_error const &e)
        {
            failed = true;
            // a message is part of the answer
            check(e.what() && *e.what(), "no-message", ctx());
        }
        catch (Broken const &b) { check(false, b.key + ":" + name, b.what + "; " + ctx()); }
        catch (std::exception const &e) { check(false, "foreign-exception:" + name, std::string(typeid(e).name()) + " " + e.what() + "; " + ctx()); }
        catch (...) { check(false, "foreign-exception:" + name, ctx()); }
        ++n;
        cov(failed ? "calls refused" : "calls answered");
        if (failed)
        {
            auto after = pool(), objs2 = objects();
            check(after == before, "changed-by-refused:" + name, after.substr(0, 400) + "; " + ctx());
            check(objs == objs2, "changed-by-refused:" + name, objs + " -> " + objs2 + "; " + ctx());
        }
        if (failed || k % 8 == 0) check(metadata() == meta, "metadata-changed:" + name, ctx());
        trail += " " + name + (failed ? "!" : "");
        if (trail.size() > 240) trail.erase(0, trail.size() - 240);
        // calls may have made the objects refer to other things, none of which go away
    }
    check(metadata() == meta, "metadata-changed", log_);
    eval(shape, true, n);
    sample(trail);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    typed_calls_0(calls); typed_calls_1(calls); typed_calls_2(calls); typed_calls_3(calls); typed_calls_4(calls); typed_calls_5(calls);
    untyped_calls();
    forked_cases(std::stol(opt("--n", "1000")), one);
    return finish();
}
