// Several threads define and look up in the same containers; the history of what each of them did
// and saw is judged afterwards against the contents that resulted.
#include "forked.h"
#define RV_WRAP_LOCKS
#include "delays.h"
#include <rtti/metadefine.h>
#include <memory>
#include <set>
#include <thread>
#include <unordered_map>

using namespace rv;
using rtti::MetaClass;
using rtti::MetaContainer;
using rtti::MetaNamespace;
using rtti::variant;

namespace {
// classes and the classes they can be derived from
template<int I> struct Cls;
#define ROOTCLASS(I) template<> struct Cls<I> { int v = I; Cls() {} Cls(int x) : v(x) {} Cls(int a, int b) : v(a + b) {} virtual ~Cls() {} DECLARE_CLASSINFO };
#define CLASS(I, ...) template<> struct Cls<I> : __VA_ARGS__ { int v = I; Cls() {} Cls(int x) : v(x) {} Cls(int a, int b) : v(a + b) {} DECLARE_CLASSINFO };
ROOTCLASS(0)
ROOTCLASS(1)
CLASS(2, virtual Cls<0>)
CLASS(3, virtual Cls<0>, virtual Cls<1>)
CLASS(4, virtual Cls<2>, virtual Cls<3>)
CLASS(5, virtual Cls<1>)
CLASS(6, virtual Cls<4>, virtual Cls<5>)
CLASS(7, virtual Cls<0>)
constexpr int CLASSES = 8;
constexpr std::pair<int, int> EDGES[] = {{2, 0}, {3, 0}, {3, 1}, {4, 2}, {4, 3}, {5, 1}, {6, 4}, {6, 5}, {7, 0}};
constexpr int EDGE_COUNT = int(std::size(EDGES));
// types that can be defined in more than one way
template<int I> struct Rival { int v = I; };
constexpr int GROUPS = 6;       // even: one type with two names; odd: two types with one name

template<int N> int f0() { return N; }
template<int N> int f1(int x) { return N + x; }
template<int N> int f2(int x, int y) { return N + x + y; }
constexpr int METHODS = 6, OVERLOADS = 3, PROPS = 6, ENUMS = 3, ELEMS = 8, ATTRS = 8, CTORS = 7, LAZY = 3, CONTESTED = 2;
int vars[PROPS];
enum class En { A, B };

enum Cat { NS, CLS, METH, PROP, ENUM, CTOR, ATTR, ELEM, EATTR, BASE, DERIVED, CATS };
char const *const cat_name[] = {"namespaces", "classes", "methods", "properties", "enums", "constructors", "attributes", "elements", "enum attributes", "bases", "derived classes"};

struct Cont
{
    int id = 0, parent = -1, cls = -1;    // class number, or a namespace
    std::string name, path;
};
struct World
{
    std::vector<Cont> conts;
    int cont_of_class[CLASSES];
    int rival_cont[GROUPS][2];
    std::string log;
} *w;
constexpr auto rel = std::memory_order_relaxed;
std::atomic<std::uint64_t> clock_{1};
std::uint64_t tick() { return clock_.fetch_add(1, rel); }
std::atomic<unsigned char> claimed[64][4][16];
std::atomic<long> looks{0};

// a list of a container: enums have lists of their own
int list_id(int cont, int cat, int sub = 0) { return (cont * CATS + cat) * 4 + sub; }
int list_cont(int l) { return l / 4 / CATS; }
int list_cat(int l) { return l / 4 % CATS; }
int list_sub(int l) { return l % 4; }

enum Kind { DEF, LOOK, INDEX, COUNT, ITER, PLAIN, SHARED, INHERITS, RIVAL_OK, RIVAL_NO, UNBASED, CONTEST };
struct Ev
{
    int kind, list, k;
    std::uint64_t b, e;
    void const *p;
    long n;
    std::vector<void const *> seq;
};
struct Thread
{
    std::vector<Ev> evs;
    Rng rng{1};
    int id = 0;
};
thread_local Thread *me;
void note(int kind, int list, int k, std::uint64_t b, void const *p = nullptr, long n = 0) { auto e = tick(); me->evs.push_back({kind, list, k, b, e, p, n, {}}); }

// names
bool shared_method(int j) { return j >= METHODS - 2; }
std::string method_plain(int cont, int j)
{
    auto &c = w->conts[cont];
    if (c.cls >= 0 && !shared_method(j)) return fmt("m%d_%d", j, c.cls);
    return fmt("%s%d", shared_method(j) ? "s" : "m", j);
}
std::string name_of(int list, int k)
{
    int c = list_cont(list);
    switch (list_cat(list))
    {
    case NS: case CLS:
        if (k >= 1000) { int g = (k - 1000) / 2; return g % 2 ? fmt("y%d", g) : fmt("x%d_%d", g, k % 2); }
        return w->conts[k].name;
    case METH:
        if (k >= 1000) return fmt("z%d()", k - 1000);
        return method_plain(c, k / OVERLOADS) + (k % OVERLOADS == 0 ? "()" : k % OVERLOADS == 1 ? "(int)" : "(int, int)");
    case PROP: return fmt("p%d", k) + (w->conts[c].cls >= 0 ? fmt("_%d", w->conts[c].cls) : "");
    case ENUM: return fmt("e%d", k);
    case CTOR: return k == 0 ? rtti::DEFAULT_CONSTRUCTOR_SIG : k == 1 ? rtti::COPY_CONSTRUCTOR_SIG : k == 2 ? rtti::MOVE_CONSTRUCTOR_SIG : fmt("c%d", k) + (k % 2 ? "(int)" : "(int, int)");
    case ATTR: case EATTR: return fmt("a%d", k);
    case ELEM: return fmt("v%d", k);
    default: return "";
    }
}
int value_of(int list, int k) { return list * 64 + k; }
variant make_value(int list, int k)
{
    if (k % 2) return std::string("a value that is not small enough ") + std::to_string(value_of(list, k));
    return value_of(list, k);
}
bool right_value(variant const &v, int list, int k)
{
    if (k % 2) return v.is<std::string>() && v.to<std::string>() == "a value that is not small enough " + std::to_string(value_of(list, k));
    return v.is<int>() && v.to<int>() == value_of(list, k);
}
std::string where(int list, int k = -1) { return fmt("%s of %s", cat_name[list_cat(list)], w->conts[list_cont(list)].path.c_str()) + (k >= 0 ? ", " + name_of(list, k) : "") + "; " + w->log; }

// ---- defining -------------------------------------------------------------------------------
template<typename F, int ...I> void for_class(int k, F &&f, std::integer_sequence<int, I...>)
{ ((k == I ? void(f(std::integral_constant<int, I>{})) : void()), ...); }
template<typename F> void for_class(int k, F &&f) { for_class(k, f, std::make_integer_sequence<int, CLASSES>{}); }

void go_to(rtti::meta_define<void> &d, int cont)
{
    auto &c = w->conts[cont];
    if (c.parent >= 0) go_to(d, c.parent);
    int l = c.parent >= 0 ? list_id(c.parent, NS) : -1;
    if (c.cls >= 0) l = list_id(c.parent, CLS);
    auto b = tick();
    if (c.cls < 0) d._namespace(c.name);
    else for_class(c.cls, [&](auto i) { d._class<Cls<decltype(i)::value>>(c.name); });
    auto e = tick();
    if (l >= 0) me->evs.push_back({DEF, l, cont, b, e, nullptr, 0, {}});
    if (c.cls >= 0) for (int k = 0; k < 3; ++k) me->evs.push_back({DEF, list_id(cont, CTOR), k, b, e, nullptr, 0, {}});
}
struct Definer
{
    rtti::meta_global g = rtti::global_define();
    rtti::meta_define<void> d = g;
    explicit Definer(int cont) { go_to(d, cont); }
};

template<int ...N> void any_method(rtti::meta_define<void> &d, std::string const &name, int n, int o, std::integer_sequence<int, N...>)
{ ((n == N ? void(o == 0 ? d._method(name, &f0<N>) : o == 1 ? d._method(name, &f1<N>) : d._method(name, &f2<N>)) : void()), ...); }

void define_method(rtti::meta_define<void> &d, int cont, int k)
{
    auto b = tick();
    any_method(d, method_plain(cont, k / OVERLOADS), k, k % OVERLOADS, std::make_integer_sequence<int, METHODS * OVERLOADS>{});
    note(DEF, list_id(cont, METH), k, b);
}
bool claim(int cont, int what, int k) { return claimed[cont][what][k].exchange(1, rel) == 0; }

template<int T, typename D> void define_rival(D &d, int g, int a, int cont)
{
    int list = list_id(cont, CLS), k = 1000 + 2 * g + a;
    auto b = tick();
    try { d.template _class<Rival<T>>(name_of(list, k)); }
    catch (rtti::duplicate_metaclass const &)
    {
        note(RIVAL_NO, list, k, b);
        return;
    }
    note(RIVAL_OK, list, k, b);
}

void define_something()
{
    auto &r = me->rng;
    int cont = int(r.below(w->conts.size()));
    if (r.chance(1, 3)) cont = int(r.below(std::min<std::size_t>(3, w->conts.size())));
    auto &c = w->conts[cont];
    Definer x(cont);
    auto &d = x.d;
    int ops = r.range(1, 4);
    for (int o = 0; o < ops; ++o)
        switch (r.below(12))
        {
        case 0: case 1: case 2: define_method(d, cont, int(r.below(METHODS * OVERLOADS))); break;
        case 3:
        {
            int k = int(r.below(PROPS));
            auto b = tick();
            d._property(name_of(list_id(cont, PROP), k), &vars[k]);
            note(DEF, list_id(cont, PROP), k, b);
            break;
        }
        case 4: case 5:
        {
            int k = int(r.below(ENUMS));
            auto b = tick();
            auto e = d;
            if (k % 2) e._enum<En>(name_of(list_id(cont, ENUM), k)); else e._enum<int>(name_of(list_id(cont, ENUM), k));
            note(DEF, list_id(cont, ENUM), k, b);
            for (int q = r.range(0, 4); q--;)
            {
                bool elem = r.chance(2, 3);
                int n = int(r.below(ELEMS)), list = list_id(cont, elem ? ELEM : EATTR, k);
                if (!claim(cont, elem ? 1 + k % 2 : 3, n + (k >= 2 ? 8 : 0))) continue;
                if (!elem && k == 0) continue;
                auto b = tick();
                if (elem) e._element(name_of(list, n), make_value(list, n)); else e._attribute(name_of(list, n), make_value(list, n));
                note(DEF, list, n, b);
            }
            break;
        }
        case 6: case 7:
        {
            int n = int(r.below(ATTRS)), list = list_id(cont, ATTR);
            if (r.chance(1, 4))
            {
                // written again and again by anyone, looked at only in the end
                auto b = tick();
                int v = me->id * 100000 + int(me->evs.size());
                auto name = fmt("w%d", int(r.below(CONTESTED)));
                d._attribute(name, v);
                note(CONTEST, list, name[1] - '0', b, nullptr, v);
                break;
            }
            if (!claim(cont, 0, n)) break;
            auto b = tick();
            d._attribute(name_of(list, n), make_value(list, n));
            note(DEF, list, n, b);
            break;
        }
        case 8: case 9:
            if (c.cls < 0) { define_method(d, cont, int(r.below(METHODS * OVERLOADS))); break; }
            for_class(c.cls, [&](auto i) {
                constexpr int I = decltype(i)::value;
                auto b = tick();
                auto up = w->conts[c.parent];
                // the same class once more, with its type known
                Definer y(c.parent);
                auto k = y.d.template _class<Cls<I>>(c.name);
                note(DEF, list_id(c.parent, CLS), cont, b);
                if (r.chance(1, 2))
                {
                    int n = r.range(3, CTORS - 1);
                    auto b = tick();
                    if (n % 2) k.template _constructor<int>(fmt("c%d", n)); else k.template _constructor<int, int>(fmt("c%d", n));
                    note(DEF, list_id(cont, CTOR), n, b);
                    return;
                }
                auto base = [&](auto j) {
                    constexpr int J = decltype(j)::value;
                    if constexpr (J != I && std::is_base_of_v<Cls<J>, Cls<I>>)
                    {
                        auto b = tick();
                        bool edge = false;
                        for (auto &e : EDGES) edge = edge || (e.first == I && e.second == J);
                        if (!edge) return;
                        try { k.template _base<Cls<J>>(); }
                        catch (rtti::unregistered_metaclass const &) { note(UNBASED, list_id(cont, BASE), J, b); return; }
                        note(DEF, list_id(cont, BASE), J, b);
                        me->evs.push_back({DEF, list_id(w->cont_of_class[J], DERIVED), I, b, me->evs.back().e, nullptr, 0, {}});
                    }
                };
                for (auto &e : EDGES) if (e.first == I && r.chance(1, 2)) for_class(e.second, base);
            });
            break;
        case 10:
        {
            int g = int(r.below(GROUPS)), a = int(r.below(2)), to = w->rival_cont[g][a];
            Definer y(to);
            bool second = g % 2 && a;
            switch (2 * g + second)
            {
            case 0: define_rival<0>(y.d, g, a, to); break;
            case 2: define_rival<1>(y.d, g, a, to); break;
            case 3: define_rival<2>(y.d, g, a, to); break;
            case 4: define_rival<3>(y.d, g, a, to); break;
            case 6: define_rival<4>(y.d, g, a, to); break;
            case 7: define_rival<5>(y.d, g, a, to); break;
            case 8: define_rival<6>(y.d, g, a, to); break;
            case 10: define_rival<7>(y.d, g, a, to); break;
            case 11: define_rival<8>(y.d, g, a, to); break;
            default: break;
            }
            break;
        }
        default:
        {
            // deferred contents: there for everyone from now on
            if (c.cls >= 0) break;
            auto b = tick();
            int n = int(r.below(LAZY));
            try
            {
                d._lazy([n](rtti::meta_define<void> x) { x._method(fmt("z%d", n), &f0<7>); });
                note(DEF, list_id(cont, METH), 1000 + n, b);
            }
            catch (rtti::definition_error const &) {}
            break;
        }
        }
}

// ---- looking --------------------------------------------------------------------------------
template<typename ...A> bool ok(bool good, char const *key, int list, int k, char const *text)
{
    looks.fetch_add(1, rel);
    if (good) return true;
    return check(false, key, std::string(text) + ": " + where(list, k));
}
bool is(bool good, char const *key, int list, int k, char const *text) { return ok(good, key, list, k, text); }

MetaClass const *find_class(int k, bool by_name)
{
    MetaClass const *r = nullptr;
    for_class(k, [&](auto i) {
        using C = Cls<decltype(i)::value>;
        r = by_name ? MetaClass::find(rtti::type_name<C>()) : MetaClass::find(rtti::metaTypeId<C>());
    });
    return r;
}
MetaContainer const *reach(int cont)
{
    auto &c = w->conts[cont];
    auto &r = me->rng;
    if (c.parent < 0)
    {
        auto *p = MetaNamespace::global()->getNamespace(c.name);
        return p;
    }
    int list = list_id(c.parent, c.cls >= 0 ? CLS : NS);
    MetaContainer const *p = nullptr;
    if (c.cls >= 0 && r.chance(1, 3))
    {
        // by type: may be known before it can be found in its owner
        auto b = tick();
        p = find_class(c.cls, r.chance(1, 2));
        note(LOOK, list, cont, b, p);
    }
    else
    {
        auto *o = reach(c.parent);
        if (!o) return nullptr;
        auto b = tick();
        if (c.cls >= 0) p = o->getClass(c.name); else p = o->getNamespace(c.name);
        note(LOOK, list, cont, b, p);
    }
    if (p)
    {
        is(p->name() == c.name && p->qualifiedName() == "::" + c.path && p->category() == (c.cls >= 0 ? rtti::mcatClass : rtti::mcatNamespace), "item-incomplete", list, cont, "name and category");
        is(p->owner() && p->owner()->name() == w->conts[c.parent].name, "item-incomplete", list, cont, "owner");
    }
    return p;
}

void probe(MetaContainer const *o, int list, int k, void const *p)
{
    auto name = name_of(list, k);
    switch (list_cat(list))
    {
    case METH:
    {
        auto *m = static_cast<rtti::MetaMethod const *>(p);
        int want = k >= 1000 ? 7 : k;
        int got = k >= 1000 || k % OVERLOADS == 0 ? m->invoke().to<int>() : k % OVERLOADS == 1 ? m->invoke(3).to<int>() - 3 : m->invoke(3, 5).to<int>() - 8;
        is(m->name() == name && m->owner() == o && got == want, "item-incomplete", list, k, "method");
        break;
    }
    case PROP:
    {
        auto *m = static_cast<rtti::MetaProperty const *>(p);
        is(m->name() == name && m->owner() == o && m->get().to<int>() == k, "item-incomplete", list, k, "property");
        break;
    }
    case ENUM:
    {
        auto *m = static_cast<rtti::MetaEnum const *>(p);
        is(m->name() == name && m->owner() == o && m->qualifiedName() == o->qualifiedName() + "::" + name, "item-incomplete", list, k, "enum");
        break;
    }
    case CTOR:
    {
        auto *m = static_cast<rtti::MetaConstructor const *>(p);
        is(m->name() == name && m->owner() == o, "item-incomplete", list, k, "constructor");
        variant made;
        if (k == 0) made = m->invoke();
        if (k > 2) made = k % 2 ? m->invoke(11) : m->invoke(11, 22);
        if (k == 1 || k == 2) break;
        for_class(w->conts[list_cont(list)].cls, [&](auto i) {
            using C = Cls<decltype(i)::value>;
            is(made.is<C>() && made.ref<C>().v == (k == 0 ? decltype(i)::value : k % 2 ? 11 : 33), "item-incomplete", list, k, "constructed");
        });
        break;
    }
    case ATTR: case ELEM: case EATTR: is(right_value(*static_cast<variant const *>(p), list, k), "value-wrong", list, k, "value"); break;
    default: break;
    }
}
// (does not look at the value, which may be assigned right now)
variant const *given(variant const &v) { return &v == &variant::empty_variant ? nullptr : &v; }
rtti::MetaItem const *holder(MetaContainer const *o, int list)
{
    if (list_cat(list) == ATTR) return o;
    return o->getEnum(name_of(list_id(list_cont(list), ENUM), list_sub(list)));
}
/// Everything about one list that can be asked.
void const *get(MetaContainer const *o, rtti::MetaItem const *h, int list, std::string const &name)
{
    switch (list_cat(list))
    {
    case NS: return o->getNamespace(name);
    case CLS: return o->getClass(name);
    case METH: return o->getMethod(name);
    case PROP: return o->getProperty(name);
    case ENUM: return o->getEnum(name);
    case CTOR: return o->getConstructor(name);
    case ATTR: case EATTR: return given(h->attribute(name));
    case ELEM: return given(static_cast<rtti::MetaEnum const *>(h)->element(name));
    default: return nullptr;
    }
}
void const *get(MetaContainer const *o, rtti::MetaItem const *h, int list, std::size_t i)
{
    switch (list_cat(list))
    {
    case NS: return o->getNamespace(i);
    case CLS: return o->getClass(i);
    case METH: return o->getMethod(i);
    case PROP: return o->getProperty(i);
    case ENUM: return o->getEnum(i);
    case CTOR: return o->getConstructor(i);
    case ATTR: case EATTR: return given(h->attribute(i));
    case ELEM: return given(static_cast<rtti::MetaEnum const *>(h)->element(i));
    case BASE: return static_cast<MetaClass const *>(o)->baseClass(i);
    case DERIVED: return static_cast<MetaClass const *>(o)->derivedClass(i);
    default: return nullptr;
    }
}
std::size_t count(MetaContainer const *o, rtti::MetaItem const *h, int list)
{
    switch (list_cat(list))
    {
    case NS: return o->namespaceCount();
    case CLS: return o->classCount();
    case METH: return o->methodCount();
    case PROP: return o->propertyCount();
    case ENUM: return o->enumCount();
    case CTOR: return o->constructorCount();
    case ATTR: case EATTR: return h->attributeCount();
    case ELEM: return static_cast<rtti::MetaEnum const *>(h)->elementCount();
    case BASE: return static_cast<MetaClass const *>(o)->baseClassCount();
    case DERIVED: return static_cast<MetaClass const *>(o)->derivedClassCount();
    default: return 0;
    }
}
void all(MetaContainer const *o, rtti::MetaItem const *h, int list, std::vector<void const *> &to, std::vector<std::string> *names)
{
    auto item = [&](auto *p) { to.push_back(p); if (names) names->push_back(p->name()); return true; };
    auto value = [&](std::string_view n, variant const &v) { to.push_back(&v); if (names) names->emplace_back(n); return true; };
    switch (list_cat(list))
    {
    case CLS: o->for_each_class(item); break;
    case METH: o->for_each_method(item); break;
    case ATTR: case EATTR: h->for_each_attribute(value); break;
    case ELEM: static_cast<rtti::MetaEnum const *>(h)->for_each_element([&](std::string const &n, variant const &v) { return value(n, v); }); break;
    case NS: for (std::size_t i = 0; auto *p = o->getNamespace(i); ++i) item(p); break;
    case PROP: for (std::size_t i = 0; auto *p = o->getProperty(i); ++i) item(p); break;
    case ENUM: for (std::size_t i = 0; auto *p = o->getEnum(i); ++i) item(p); break;
    case CTOR: for (std::size_t i = 0; auto *p = o->getConstructor(i); ++i) item(p); break;
    case BASE: for (std::size_t i = 0; auto *p = static_cast<MetaClass const *>(o)->baseClass(i); ++i) item(p); break;
    case DERIVED: for (std::size_t i = 0; auto *p = static_cast<MetaClass const *>(o)->derivedClass(i); ++i) item(p); break;
    default: break;
    }
}
int pick_list(Rng &r, int cont)
{
    bool cls = w->conts[cont].cls >= 0;
    static int const for_ns[] = {NS, NS, CLS, CLS, METH, METH, METH, PROP, ENUM, ATTR, ATTR, ELEM, ELEM, EATTR};
    static int const for_cls[] = {METH, METH, METH, PROP, ENUM, CTOR, CTOR, ATTR, ELEM, EATTR, BASE, BASE, DERIVED, DERIVED};
    int cat = cls ? for_cls[r.below(std::size(for_cls))] : for_ns[r.below(std::size(for_ns))];
    int sub = cat == ELEM ? int(r.below(ENUMS)) : cat == EATTR ? r.range(1, ENUMS - 1) : 0;
    return list_id(cont, cat, sub);
}
int pick_name(Rng &r, int list)
{
    switch (list_cat(list))
    {
    case NS: case CLS:
    {
        std::vector<int> v;
        for (auto &c : w->conts) if (c.parent == list_cont(list) && (c.cls >= 0) == (list_cat(list) == CLS)) v.push_back(c.id);
        if (list_cat(list) == CLS) for (int g = 0; g < GROUPS; ++g) for (int a = 0; a < 2; ++a) if (w->rival_cont[g][a] == list_cont(list) && (g % 2 == 0 || a == 0)) v.push_back(1000 + 2 * g + a);
        return v.empty() ? -1 : r.pick(v);
    }
    case METH: return r.chance(1, 6) && w->conts[list_cont(list)].cls < 0 ? 1000 + int(r.below(LAZY)) : int(r.below(METHODS * OVERLOADS));
    case PROP: return int(r.below(PROPS));
    case ENUM: return int(r.below(ENUMS));
    case CTOR: return int(r.below(CTORS));
    case ATTR: case EATTR: case ELEM: return int(r.below(ATTRS));
    default: return -1;
    }
}
bool order_matters(int list) { return list_cat(list) != ATTR; }     // contested ones are among them

void look_at_something()
{
    auto &r = me->rng;
    int cont = int(r.below(w->conts.size()));
    if (r.chance(1, 3)) cont = int(r.below(std::min<std::size_t>(3, w->conts.size())));
    auto *o = reach(cont);
    if (!o) return;
    for (int q = r.range(1, 6); q--;)
    {
        int list = pick_list(r, cont), cat = list_cat(list);
        rtti::MetaItem const *h = o;
        if (cat == ELEM || cat == EATTR)
        {
            h = holder(o, list);
            if (!h) continue;
        }
        int how = int(r.below(10));
        int k = pick_name(r, list);
        if (how < 5 && k >= 0)
        {
            auto name = name_of(list, k);
            bool inherited = cat == METH && w->conts[cont].cls >= 0 && shared_method(k / OVERLOADS);
            if (cat == METH && k < 1000 && !inherited && r.chance(1, 4))
            {
                // by plain name: the first overload
                auto b = tick();
                auto *p = o->getMethod(method_plain(cont, k / OVERLOADS));
                note(PLAIN, list, k / OVERLOADS, b, p);
                continue;
            }
            auto b = tick();
            auto *p = get(o, h, list, name);
            note(inherited ? SHARED : LOOK, list, k, b, p);
            if (p && !inherited) probe(o, list, k, p);
            continue;
        }
        if (cat == BASE && r.chance(1, 2))
        {
            int j = int(r.below(CLASSES));
            auto *base = find_class(j, false);
            if (!base) continue;
            auto b = tick();
            bool yes = static_cast<MetaClass const *>(o)->inheritedFrom(base);
            note(INHERITS, list, j, b, nullptr, yes);
            continue;
        }
        if (how < 7)
        {
            auto i = r.below(12);
            auto b = tick();
            auto *p = get(o, h, list, std::size_t(i));
            note(INDEX, list, int(i), b, p);
        }
        else if (how < 9)
        {
            auto b = tick();
            auto n = count(o, h, list);
            note(COUNT, list, 0, b, nullptr, long(n));
        }
        else
        {
            Ev e{ITER, list, 0, tick(), 0, nullptr, 0, {}};
            all(o, h, list, e.seq, nullptr);
            e.n = long(e.seq.size());
            e.e = tick();
            me->evs.push_back(std::move(e));
        }
    }
}

// ---- judging --------------------------------------------------------------------------------
struct Final
{
    std::vector<void const *> items;
    std::vector<int> names;          // or -1
    std::unordered_map<void const *, std::size_t> index;
};
struct Span { std::uint64_t begin = ~0ull, done = ~0ull; };     // earliest start, earliest completion

void judge(std::vector<std::unique_ptr<Thread>> const &ts)
{
    long judged = 0;
    auto good = [&](bool g, char const *key, int list, int k, std::string const &text) {
        ++judged;
        if (g) return true;
        return check(false, key, text + ": " + where(list, k));
    };
    std::map<std::pair<int, int>, Span> defs;
    std::map<int, std::vector<Ev const *>> counts;
    std::vector<Ev const *> evs;
    for (auto &t : ts) for (auto &e : t->evs) evs.push_back(&e);
    for (auto *e : evs)
        if (e->kind == DEF || e->kind == RIVAL_OK)
        {
            auto &s = defs[{e->list, e->kind == RIVAL_OK && (e->k - 1000) / 2 % 2 ? e->k & ~1 : e->k}];
            s.begin = std::min(s.begin, e->b);
            s.done = std::min(s.done, e->e);
        }
    auto span = [&](int list, int k) { auto it = defs.find({list, k}); return it == defs.end() ? Span{} : it->second; };
    // what came out
    std::map<int, Final> finals;
    std::vector<MetaContainer const *> cont(w->conts.size());
    auto *root = MetaNamespace::global()->getNamespace(w->conts[0].name);
    if (!root) return;
    for (auto &c : w->conts)
        if (c.parent < 0) cont[c.id] = root;
        else if (auto *o = cont[c.parent]) { if (c.cls >= 0) cont[c.id] = o->getClass(c.name); else cont[c.id] = o->getNamespace(c.name); }
    for (auto &c : w->conts)
    {
        auto *o = cont[c.id];
        if (!o) { good(c.parent < 0 || span(list_id(c.parent, c.cls >= 0 ? CLS : NS), c.id).done == ~0ull, "lost", list_id(c.parent, c.cls >= 0 ? CLS : NS), c.id, "not there in the end"); continue; }
        for (int cat = 0; cat < CATS; ++cat)
            for (int sub = 0; sub < (cat == ELEM || cat == EATTR ? ENUMS : 1); ++sub)
            {
                if ((cat == CTOR || cat == BASE || cat == DERIVED) && c.cls < 0) continue;
                if ((cat == NS) && c.cls >= 0) continue;
                int list = list_id(c.id, cat, sub);
                auto *h = cat == ELEM || cat == EATTR ? holder(o, list) : o;
                if (!h) continue;
                auto &f = finals[list];
                std::vector<std::string> names;
                all(o, h, list, f.items, &names);
                std::map<std::string, int> known;
                if (cat == BASE || cat == DERIVED) for (int i = 0; i < CLASSES; ++i) { if (auto *k = cont[w->cont_of_class[i]]) known[k->name()] = i; }
                else for (auto &d : defs) if (d.first.first == list) known[name_of(list, d.first.second)] = d.first.second;
                good(count(o, h, list) == f.items.size(), "final-disagree", list, -1, "count and iteration");
                std::set<std::string> once;
                for (std::size_t i = 0; i < f.items.size(); ++i)
                {
                    auto it = known.find(names[i]);
                    bool contested = cat == ATTR && names[i][0] == 'w';
                    good(contested || it != known.end(), "not-defined", list, -1, "has " + names[i]);
                    f.names.push_back(it == known.end() ? -1 : it->second);
                    good(once.insert(names[i]).second, "defined-twice", list, -1, names[i]);
                    good(f.index.emplace(f.items[i], i).second, "defined-twice", list, -1, names[i]);
                    good(get(o, h, list, i) == f.items[i], "final-disagree", list, -1, "index " + names[i]);
                    if (cat != BASE && cat != DERIVED) good(get(o, h, list, names[i]) == f.items[i], "final-disagree", list, -1, "name " + names[i]);
                    if (it != known.end() && !contested) probe(o, list, it->second, f.items[i]);
                }
                good(get(o, h, list, f.items.size()) == nullptr, "final-disagree", list, -1, "one too many");
                for (auto &d : known)
                    if (auto s = span(list, d.second); s.done != ~0ull) good(once.count(d.first), "lost", list, -1, "no " + d.first + " in the end");
                // order of completion and index agree
                std::uint64_t latest = 0;
                if (cat != METH)
                    for (std::size_t i = 0; i < f.items.size(); ++i)
                    {
                        if (f.names[i] < 0) continue;
                        auto s = span(list, f.names[i]);
                        good(s.done > latest, "order", list, f.names[i], "placed after something defined later");
                        latest = std::max(latest, s.begin);
                    }
            }
    }
    // rivals
    for (int g = 0; g < GROUPS; ++g)
    {
        std::uint64_t first[2] = {~0ull, ~0ull}, no[2] = {~0ull, ~0ull};
        bool tried = false, won[2] = {false, false};
        for (auto *e : evs)
            if ((e->kind == RIVAL_OK || e->kind == RIVAL_NO) && (e->k - 1000) / 2 == g)
            {
                tried = true;
                auto &x = (e->kind == RIVAL_OK ? first : no)[e->k % 2];
                won[e->k % 2] = won[e->k % 2] || e->kind == RIVAL_OK;
                x = std::min(x, e->kind == RIVAL_OK ? e->b : e->e);
            }
        if (!tried) continue;
        int list = list_id(w->rival_cont[g][0], CLS);
        good(won[0] != won[1], "rivals", list, 1000 + 2 * g, won[0] ? "both were defined" : "none was defined");
        for (int a = 0; a < 2; ++a)
        {
            good(!won[a] || no[a] == ~0ull, "rivals", list, 1000 + 2 * g, "refused once, defined once");
            if (no[a] != ~0ull) good(first[1 - a] < no[a], "rivals", list, 1000 + 2 * g, "refused before the other was defined");
        }
        cov("rival definitions", 1);
    }
    auto reaches = [&](int from, int to, std::uint64_t at, bool surely) {
        std::vector<int> todo{from};
        std::set<int> seen{from};
        while (!todo.empty())
        {
            int x = todo.back();
            todo.pop_back();
            if (x == to) return true;
            for (auto &e : EDGES)
                if (e.first == x)
                {
                    auto s = span(list_id(w->cont_of_class[x], BASE), e.second);
                    if ((surely ? s.done : s.begin) < at && seen.insert(e.second).second) todo.push_back(e.second);
                }
        }
        return false;
    };
    std::map<std::pair<int, int>, std::vector<Ev const *>> contests;
    for (auto *e : evs)
    {
        auto &f = finals[e->list];
        auto at = [&](std::size_t i) -> void const * { return i < f.items.size() ? f.items[i] : nullptr; };
        auto bounds = [&](long n, char const *what) {
            long lo = 0, hi = 0;
            bool contested = list_cat(e->list) == ATTR;
            for (auto it = defs.lower_bound({e->list, -1}); it != defs.end() && it->first.first == e->list; ++it) { lo += it->second.done < e->b; hi += it->second.begin < e->e; }
            good(n >= lo, "missing", e->list, -1, fmt("%s of %ld where %ld had been defined", what, n, lo));
            if (!contested) good(n <= hi, "too-many", e->list, -1, fmt("%s of %ld where %ld had been begun", what, n, hi));
            counts[e->list].push_back(e);
        };
        switch (e->kind)
        {
        case LOOK:
        {
            auto s = span(e->list, e->k);
            if (!e->p) { good(s.done > e->b, "missing", e->list, e->k, "had been defined but was not found"); break; }
            good(s.begin < e->e, "too-early", e->list, e->k, "found before it was defined");
            auto it = f.index.find(e->p);
            good(it != f.index.end() && f.names[it->second] == e->k, "changed", e->list, e->k, "another item than in the end");
            break;
        }
        case INDEX:
            if (e->p) good(at(std::size_t(e->k)) == e->p, "changed", e->list, -1, fmt("item at index %d", e->k));
            else
            {
                long lo = 0;
                for (auto it = defs.lower_bound({e->list, -1}); it != defs.end() && it->first.first == e->list; ++it) lo += it->second.done < e->b;
                good(e->k >= lo, "missing", e->list, -1, fmt("nothing at index %d where %ld had been defined", e->k, lo));
            }
            break;
        case COUNT: bounds(e->n, "count"); break;
        case ITER:
        {
            bool prefix = e->seq.size() <= f.items.size();
            for (std::size_t i = 0; prefix && i < e->seq.size(); ++i) prefix = e->seq[i] == f.items[i];
            good(prefix, "changed", e->list, -1, "iteration is no prefix of what came out");
            bounds(e->n, "iteration");
            break;
        }
        case PLAIN:
        {
            void const *first = nullptr;
            for (std::size_t i = 0; !first && i < f.items.size(); ++i) if (f.names[i] >= 0 && f.names[i] < 1000 && f.names[i] / OVERLOADS == e->k) first = f.items[i];
            if (e->p) good(e->p == first, "changed", e->list, e->k * OVERLOADS, "another first overload than in the end");
            else for (int o = 0; o < OVERLOADS; ++o) good(span(e->list, e->k * OVERLOADS + o).done > e->b, "missing", e->list, e->k * OVERLOADS + o, "an overload had been defined but none was found");
            break;
        }
        case SHARED:
        {
            int self = w->conts[list_cont(e->list)].cls;
            bool mine = span(e->list, e->k).done < e->b;
            if (mine) { auto it = f.index.find(e->p); good(it != f.index.end() && f.names[it->second] == e->k, "missing", e->list, e->k, "own method not found"); break; }
            bool found = false;
            for (int j = 0; j < CLASSES; ++j)
            {
                int l = list_id(w->cont_of_class[j], METH);
                auto s = span(l, e->k);
                if (!e->p) { good(!(s.done < e->b && reaches(self, j, e->b, true)), "missing", e->list, e->k, "inherited method not found"); continue; }
                auto &g = finals[l];
                auto it = g.index.find(e->p);
                if (it != g.index.end() && g.names[it->second] == e->k) found = s.begin < e->e && reaches(self, j, e->e, false);
            }
            if (e->p) good(found, "not-inherited", e->list, e->k, "a method of no base");
            break;
        }
        case INHERITS:
        {
            int self = w->conts[list_cont(e->list)].cls;
            if (e->n) good(reaches(self, e->k, e->e, false), "not-inherited", e->list, -1, fmt("inherits %d", e->k));
            else good(!reaches(self, e->k, e->b, true), "missing", e->list, -1, fmt("does not inherit %d", e->k));
            break;
        }
        case UNBASED:
        {
            int c = w->cont_of_class[e->k];
            good(span(list_id(w->conts[c].parent, CLS), c).done > e->b, "missing", e->list, -1, fmt("base %d had been registered", e->k));
            break;
        }
        case CONTEST: contests[{e->list, e->k}].push_back(e); break;
        default: break;
        }
    }
    // counts never go down
    for (auto &c : counts)
    {
        auto v = c.second;
        std::sort(v.begin(), v.end(), [](auto *a, auto *b) { return a->b < b->b; });
        auto done = v;
        std::sort(done.begin(), done.end(), [](auto *a, auto *b) { return a->e < b->e; });
        std::size_t k = 0;
        long top = 0;
        for (auto *e : v)
        {
            while (k < done.size() && done[k]->e < e->b) top = std::max(top, done[k++]->n);
            good(e->n >= top, "went-down", c.first, -1, fmt("count of %ld after %ld", e->n, top));
        }
    }
    for (auto &c : contests)
    {
        auto *o = cont[list_cont(c.first.first)];
        auto &v = o->attribute(fmt("w%d", c.first.second));
        if (!good(v.is<int>(), "lost", c.first.first, -1, "contested attribute")) continue;
        std::uint64_t latest = 0;
        for (auto *e : c.second) latest = std::max(latest, e->b);
        Ev const *from = nullptr;
        for (auto *e : c.second) if (e->n == v.to<int>()) from = e;
        good(from != nullptr, "value-wrong", c.first.first, -1, "nobody wrote it");
        if (from) good(from->e > latest, "value-lost", c.first.first, -1, "a later value was lost");
        cov("contested attributes");
    }
    looks += judged;
}

void one(long i, Rng &rng)
{
    World world;
    w = &world;
    int threads = std::stoi(opt("--threads", "2"));
    for (int k = 0; k < PROPS; ++k) vars[k] = k;
    int namespaces = rng.range(1, 4);
    auto add = [&](int parent, int cls, std::string name) {
        Cont c;
        c.id = int(world.conts.size());
        c.parent = parent;
        c.cls = cls;
        c.name = name;
        c.path = (parent >= 0 ? world.conts[parent].path + "::" : "") + name;
        world.conts.push_back(c);
        return c.id;
    };
    add(-1, -1, "root");
    for (int k = 1; k <= namespaces; ++k) add(int(rng.below(k)), -1, fmt("n%d", k));
    for (int k = 0; k < CLASSES; ++k)
        world.cont_of_class[k] = add(int(rng.chance(1, 5) && k ? world.cont_of_class[rng.below(k)] : rng.below(namespaces + 1)), k, fmt("k%d", k));
    for (int g = 0; g < GROUPS; ++g)
        for (int a = 0; a < 2; ++a) world.rival_cont[g][a] = g % 2 && a ? world.rival_cont[g][0] : int(rng.below(namespaces + 1));
    for (auto &c : world.conts) world.log += c.path + " ";
    int ops = rng.range(5, 40), definers = rng.range(2, 9);
    unsigned strength = unsigned(rng.pick(*new std::vector<int>{0, 2, 8, 24}));
    world.log += fmt("%d threads, %d operations, %d/10 definitions, delays %u", threads, ops, definers, strength);
    begin_case(i, "concurrent", world.log);
    // first use of types is another matter
    for (int k = 0; k < CLASSES; ++k) for_class(k, [](auto i) { rtti::metaTypeId<Cls<decltype(i)::value>>(); });
    std::atomic<int> ready{0};
    std::vector<std::unique_ptr<Thread>> data;
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
    {
        data.push_back(std::make_unique<Thread>());
        data.back()->rng = Rng(rng.next());
        data.back()->id = t;
        data.back()->evs.reserve(2048);
    }
    sched::begin(strength);
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            me = data[t].get();
            sched::enter(t, me->rng.next());
            ready.fetch_add(1, rel);
            while (ready.load(rel) < threads) sched_yield();
            for (int k = 0; k < ops; ++k) if (int(me->rng.below(10)) < definers) define_something(); else look_at_something();
        });
    for (auto &t : ts) t.join();
    auto schedule = sched::end();
    judge(data);
    long n = 0;
    std::map<int, long> kinds;
    for (auto &t : data) { n += long(t->evs.size()); for (auto &e : t->evs) ++kinds[e.kind]; }
    static char const *const kn[] = {"definitions", "lookups by name", "lookups by index", "counts", "iterations", "lookups by plain name", "inherited lookups", "inheritance queries", "rivals defined", "rivals refused", "bases refused", "contested writes"};
    for (auto &k : kinds) cov(std::string("history: ") + kn[k.first], std::uint64_t(k.second));
    eval(schedule, true, looks.load());
    sample(fmt("%ld events: ", n) + world.log);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    forked_cases(std::stol(opt("--n", "1000")), one);
    return finish();
}
