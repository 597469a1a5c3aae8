// Metadata and constant values made by one thread are then only read, by many at once. What every
// operation gave is compared with what it gives alone, afterwards.
#include "forked.h"
#define RV_WRAP_LOCKS
#include "delays.h"
#include <rtti/metadefine.h>
#include <functional>
#include <memory>
#include <sstream>
#include <thread>

using namespace rv;
using rtti::MetaClass;
using rtti::MetaMethod;
using rtti::MetaNamespace;
using rtti::MetaType;
using rtti::variant;

namespace {
struct Base
{
    int b = 1;
    Base() {}
    explicit Base(int x) : b(x) {}
    Base(Base const &o) : b(o.b) {}
    virtual ~Base() {}
    int add(int x) { return b += x; }
    int get() const { return b; }
    int twice(Base const &o) const { return b + o.b; }
    static std::string text(std::string const &s, int n) { return s + std::to_string(n); }
    bool operator==(Base const &o) const { return b == o.b; }
    void set(int x) { b = x; }
    DECLARE_CLASSINFO
};
struct Other
{
    std::string s = "other with a longer text";
    virtual ~Other() {}
    DECLARE_CLASSINFO
};
struct Left : virtual Base
{
    int l = 2;
    Left() {}
    Left(int x, std::string const &t) : Base(x), name(t) {}
    std::string name = "left";
    std::string const &label() const { return name; }
    int add(int x) { return b -= x; }
    DECLARE_CLASSINFO
};
struct Right : virtual Base { int r = 3; DECLARE_CLASSINFO };
struct Bottom : Left, Right, Other { int z = 4; DECLARE_CLASSINFO };
struct Big
{
    long a[12] = {};
    std::string t;
    bool operator==(Big const &o) const { return a[0] == o.a[0] && t == o.t; }
};
struct Money { long cents = 0; };
struct Label { std::string t; Label() {} Label(std::string const &s) : t(s) {} };
enum class Color { Red = 1, Green, Blue };
struct Counted
{
    // what is read from many threads may count its copies
    static std::atomic<long> copies;
    int v = 0;
    Counted(int x = 0) : v(x) {}
    Counted(Counted const &o) : v(o.v) { copies.fetch_add(1, std::memory_order_relaxed); }
    bool operator==(Counted const &o) const { return v == o.v; }
};
std::atomic<long> Counted::copies{0};

int prop_int = 41;
std::string prop_text = "a static property of some length";
int const prop_const = 43;
int getter() { return prop_int + 1; }
void setter(int) {}
Label money_to_label(Money m) { return Label{"label " + std::to_string(m.cents)}; }
int overloaded() { return 0; }
int overloaded1(int x) { return x; }
int overloaded2(int x, int y) { return x * y; }

MetaNamespace const *ns;
std::vector<variant> *shared;           // only read
Bottom *bottom;
Bottom const *const_bottom;

std::string show(variant const &v)
{
    if (v.empty()) return "empty";
    if (v.is<int>()) return fmt("int %d", v.cref<int>());
    if (v.is<std::string>()) return "text " + v.cref<std::string>();
    if (v.is<Big>()) return "big " + v.cref<Big>().t;
    if (v.is<Counted>()) return fmt("counted %d", v.cref<Counted>().v);
    if (v.is<Money>()) return fmt("money %ld", v.cref<Money>().cents);
    if (v.is<Label>()) return "label " + v.cref<Label>().t;
    if (v.is<Base>()) return fmt("base %d", v.cref<Base>().b);
    return std::string(MetaType{v.typeId()}.typeName());
}
template<typename F> std::string tried(F &&f)
{
    try { return f(); }
    catch (rtti::runtime_error const &e) { return std::string("error: ") + e.what(); }
}
std::string def(rtti::MetaItem const *i) { return i ? i->qualifiedName() + "/" + i->name() + fmt("/%d/%zu", int(i->category()), i->attributeCount()) : "none"; }

using Op = std::pair<char const *, std::function<std::string(Rng &)>>;
std::vector<Op> ops;

template<typename T> std::string type_facts()
{
    auto id = rtti::metaTypeId<T>();
    MetaType m{id};
    std::ostringstream s;
    s << m.typeName() << m.typeFlags() << m.typeSize() << m.pointerArity() << (m.metaClass() ? m.metaClass()->qualifiedName() : "no class");
    return s.str() + (MetaType{m.typeName()}.typeId() == id ? "" : " not by name");
}

void make_ops()
{
    auto op = [](char const *n, std::function<std::string(Rng &)> f) { ops.emplace_back(n, std::move(f)); };
    op("namespaces", [](Rng &) { std::string r; for (std::size_t i = 0; auto *x = ns->getNamespace(i); ++i) r += def(x); return r + fmt("%zu", ns->namespaceCount()); });
    op("classes", [](Rng &) { std::string r; ns->for_each_class([&](MetaClass const *c) { r += def(c); return true; }); return r; });
    op("methods", [](Rng &r) {
        auto *c = ns->getClass(r.below(6));
        std::string s;
        if (c) c->for_each_method([&](MetaMethod const *m) { s += def(m); return true; });
        return s;
    });
    op("method by name", [](Rng &r) {
        static char const *const names[] = {"add", "add(int)", "get", "text", "label", "nonesuch", "over", "over(int, int)", "twice", "", "hello"};
        auto *c = ns->getClass(r.below(6));
        auto *n = names[r.below(std::size(names))];
        return c ? def(c->getMethod(n)) + def(ns->getMethod(n)) : "";
    });
    op("properties", [](Rng &r) {
        std::string s;
        auto *c = ns->getClass(r.below(6));
        for (std::size_t i = 0; c && i < c->propertyCount(); ++i) s += def(c->getProperty(i));
        return s + (c ? def(c->getProperty("b")) : "") + def(ns->getProperty("text"));
    });
    op("enums", [](Rng &r) {
        auto *e = ns->getEnum("Color");
        std::string s = def(e);
        e->for_each_element([&](std::string const &n, variant const &v) { s += n + fmt("%d", int(v.cref<Color>())); return true; });
        return s + e->elementName(r.below(4)) + (e->element("Green").empty() ? "no" : "yes") + fmt("%zu", e->elementCount());
    });
    op("attributes", [](Rng &r) {
        std::string s;
        rtti::MetaItem const *i = r.chance(1, 2) ? static_cast<rtti::MetaItem const *>(ns) : ns->getClass(r.below(6));
        if (!i) return s;
        i->for_each_attribute([&](std::string_view n, variant const &v) { s += n; s += show(v); return true; });
        auto k = r.below(10);
        return s + i->attributeName(k) + show(i->attribute(k)) + show(i->attribute(fmt("at%d", int(k)))) + show(variant(i->attribute("at1")));
    });
    op("qualified names", [](Rng &r) {
        auto *c = ns->getClass(r.below(6));
        return c ? c->qualifiedName() + c->owner()->qualifiedName() + c->owner()->owner()->name() : "none";
    });
    op("bases", [](Rng &r) {
        auto *c = ns->getClass(r.below(6)), *d = ns->getClass(r.below(6));
        std::string s;
        if (!c || !d) return s;
        for (std::size_t i = 0; i < c->baseClassCount(); ++i) s += c->baseClass(i)->name();
        // those of deferred definitions come as they are run
        ns->forceDeferredDefine(rtti::MetaContainer::ForceDeferred::Recursive);
        std::vector<std::string> derived;
        for (std::size_t i = 0; i < c->derivedClassCount(); ++i) derived.push_back(c->derivedClass(i)->name());
        std::sort(derived.begin(), derived.end());
        for (auto &n : derived) s += n;
        return s + (c->inheritedFrom(d) ? "inherits" : "");
    });
    op("types", [](Rng &r) {
        switch (r.below(9))
        {
        case 0: return type_facts<Bottom>();
        case 1: return type_facts<Bottom const *>();
        case 2: return type_facts<std::vector<std::string>>();
        case 3: return type_facts<Big const &>();
        case 4: return type_facts<int (*)(Big &)>();
        case 5: return type_facts<Money[3]>();
        case 6: return type_facts<Color *const *>();
        case 7: return type_facts<std::map<int, Color>>();
        default: return type_facts<Counted &&>();
        }
    });
    op("copy", [](Rng &r) { auto &v = r.pick(*shared); variant c = v; variant d; d = v; return show(c) + show(d); });
    op("compare", [](Rng &r) { auto &a = r.pick(*shared), &b = r.pick(*shared); return tried([&] { return std::string(a.eq(b) ? "equal" : "different"); }); });
    op("is", [](Rng &r) {
        auto &v = r.pick(*shared);
        return fmt("%d%d%d%d%d%d", v.is<int>(), v.is<Big>(), v.is<Base>(), v.is<Base *>(), v.is<std::string>(), v.is<Other const *>());
    });
    op("cref", [](Rng &r) {
        auto const &v = r.pick(*shared);
        return tried([&] { return std::to_string(v.cref<int>()); }) + tried([&] { return v.cref<std::string>(); }) + tried([&] { return std::to_string(v.cref<Base>().b); });
    });
    op("to", [](Rng &r) {
        auto const &v = r.pick(*shared);
        switch (r.below(6))
        {
        case 0: return tried([&] { return std::to_string(v.to<int>()); });
        case 1: return tried([&] { return v.to<std::string>(); });
        case 2: return tried([&] { return v.to<Label>().t; });
        case 3: return tried([&] { return std::to_string(v.to<Base>().b); });
        case 4: return tried([&] { return std::to_string(v.to<double>()); });
        default: return tried([&] { return v.to<Big>().t; });
        }
    });
    op("canConvert", [](Rng &r) { auto const &v = r.pick(*shared); return fmt("%d%d%d%d", v.canConvert<Label>(), v.canConvert<int>(), v.canConvert<Base const *>(), v.canConvert<std::string>()); });
    op("raw and hash", [](Rng &r) {
        auto const &v = r.pick(*shared);
        return fmt("%d %d", int(v.empty()), int(v.typeId().value() != 0)) + tried([&] { return fmt("%zu", std::hash<variant>{}(v)); }) + std::string(MetaType{v.typeId()}.typeName());
    });
    op("converted copy", [](Rng &r) { variant v = r.pick(*shared); return tried([&] { return v.tryConvert<Label>() ? show(v) : std::string("not"); }); });
    op("cast", [](Rng &r) {
        Base *b = bottom;
        Other const *o = const_bottom;
        switch (r.below(6))
        {
        case 0: return fmt("%d", rtti::meta_cast<Bottom>(b) == bottom);
        case 1: return fmt("%d", rtti::meta_cast<Left const>(o) == static_cast<Left const *>(const_bottom));
        case 2: return fmt("%d", rtti::meta_cast<Right>(b) == static_cast<Right *>(bottom));
        case 3: return fmt("%d", rtti::meta_cast<Other>(b) == static_cast<Other *>(bottom));
        case 4: { Left alone; return fmt("%d", rtti::meta_cast<Bottom>(static_cast<Base *>(&alone)) == nullptr); }
        default: return tried([&] { return fmt("%d", rtti::meta_cast<Right const>(*static_cast<Base const *>(const_bottom)).r); });
        }
    });
    op("pointer variants", [](Rng &r) {
        variant const v = r.chance(1, 2) ? variant(static_cast<Base *>(bottom)) : variant(const_bottom);
        return tried([&] { return fmt("%d", v.is<Base const *>()); }) + tried([&] { return fmt("%d", v.to<Left const *>()->l); }) + tried([&] { return fmt("%d", v.to<Other const *>()->s.size() == 24); });
    });
    op("invoke static", [](Rng &r) {
        int x = int(r.below(100)), y = int(r.below(100));
        auto *m = ns->getClass("Base")->getMethod("text");
        switch (r.below(4))
        {
        case 0: return m->invoke(std::string("n"), x).to<std::string>();
        case 1: return tried([&] { return show(m->invoke(x)); });
        case 2: return show(ns->getMethod("over(int, int)")->invoke(x, y)) + show(ns->getMethod("over")->invoke());
        default: return show(ns->getMethod("over(int)")->invoke(variant(x)));
        }
    });
    op("invoke on own object", [](Rng &r) {
        auto *c = ns->getClass("Base");
        Bottom mine;
        Left left(5, "own");
        int x = int(r.below(100));
        switch (r.below(5))
        {
        case 0: return show(c->getMethod("add")->invoke(std::ref(mine), x)) + fmt("%d", mine.b);
        case 1: { variant v = Base{7}; return show(c->getMethod("add")->invoke(v, x)) + show(v); }
        case 2: return show(ns->getClass("Bottom")->getMethod("add")->invoke(&mine, x)) + fmt("%d", mine.b);
        case 3: return show(ns->getClass("Left")->getMethod("label")->invoke(left));
        default: return tried([&] { return show(c->getMethod("get")->invoke(Other{})); });
        }
    });
    op("invoke const on shared object", [](Rng &r) {
        auto *c = ns->getClass("Base");
        switch (r.below(4))
        {
        case 0: return show(c->getMethod("get")->invoke(const_bottom));
        case 1: return show(c->getMethod("get")->invoke(std::cref(*const_bottom)));
        case 2: return show(c->getMethod("twice")->invoke(const_bottom, std::cref(*static_cast<Base const *>(const_bottom))));
        default: return tried([&] { return show(c->getMethod("add")->invoke(const_bottom, 1)); });
        }
    });
    op("invoke on shared variant", [](Rng &r) {
        variant const &v = (*shared)[r.below(shared->size())];
        return tried([&] { return show(ns->getClass("Base")->getMethod("get")->invoke(v)); }) + tried([&] { return show(ns->getMethod("over(int)")->invoke(v)); });
    });
    op("argument conversion", [](Rng &r) {
        variant const &v = r.pick(*shared);
        return tried([&] { return show(ns->getMethod("hello")->invoke(v)); }) + tried([&] { return show(ns->getMethod("hello")->invoke(Money{long(r.below(50))})); });
    });
    op("construct", [](Rng &r) {
        auto *c = ns->getClass("Left");
        switch (r.below(5))
        {
        case 0: return show(c->defaultConstructor()->invoke());
        case 1: return show(c->getConstructor("make")->invoke(int(r.below(50)), std::string("x")));
        case 2: { variant l = Left(3, "y"); return show(c->copyConstructor()->invoke(l)); }
        case 3: return tried([&] { return show(c->getConstructor("make")->invoke(1)); });
        default: return show(ns->getClass("Bottom")->defaultConstructor()->invoke());
        }
    });
    op("property", [](Rng &r) {
        switch (r.below(7))
        {
        case 0: return show(ns->getProperty("int")->get());
        case 1: return show(ns->getProperty("text")->get());
        case 2: return show(ns->getProperty("const")->get());
        case 3: return show(ns->getProperty("got")->get());
        case 4: return show(ns->getClass("Base")->getProperty("b")->get(const_bottom));
        case 5: { Bottom mine; ns->getClass("Bottom")->getProperty("b")->set(std::ref(mine), int(r.below(90))); return fmt("%d", mine.b); }
        default: return tried([&] { return show(ns->getClass("Left")->getProperty("name")->get(std::cref(*const_bottom))); });
        }
    });
    op("find class", [](Rng &r) {
        switch (r.below(4))
        {
        case 0: return def(MetaClass::find(rtti::metaTypeId<Bottom>()));
        case 1: return def(MetaClass::find(rtti::type_name<Left>()));
        case 2: return def(MetaClass::find(rtti::metaTypeId<Money>()));
        default: { Base const *b = const_bottom; return def(MetaClass::find(b->classInfo().typeId)); }
        }
    });
    op("containers of variants", [](Rng &r) {
        std::vector<variant> mine(shared->begin(), shared->begin() + long(r.below(shared->size() + 1)));
        std::string s;
        for (auto &v : mine) s += show(v);
        return s;
    });
    op("make and clone by type", [](Rng &r) {
        static Big const big{{7}, "a big text"};
        static Left const left{8, "a left"};
        bool b = r.chance(1, 2);
        MetaType m{b ? rtti::metaTypeId<Big>() : rtti::metaTypeId<Left>()};
        return tried([&] {
            void *p = m.construct(b ? static_cast<void *>(const_cast<Big *>(&big)) : const_cast<Left *>(&left));
            auto s = b ? static_cast<Big *>(p)->t : static_cast<Left *>(p)->name;
            m.destruct(p);
            return s;
        });
    });
}

void define(Rng &rng, bool lazy)
{
    auto g = rtti::global_define();
    auto d = g._namespace("world");
    for (int k = rng.range(0, 8); k--;) d._attribute(fmt("at%d", k), k % 2 ? variant(k) : variant(std::string("a value that is not small enough") + std::to_string(k)));
    d._enum<Color>("Color")._element("Red", Color::Red)._element("Green", Color::Green)._element("Blue", Color::Blue)._attribute("at1", 5);
    d = d._namespace("inner")._method("deep", &overloaded)._end();
    d = d._namespace("second")._end();
    d._method("over", &overloaded)._method("over", &overloaded1)._method("over", &overloaded2);
    d._method("hello", +[](Label const &l) { return "hello " + l.t; });
    d._property("int", &prop_int)._property("text", &prop_text)._property("const", &prop_const)._property("got", &getter, &setter);
    auto base = [](auto c) { c._attribute("at0", 1)._attribute("at1", std::string("text")).template _constructor<int>("make")._method("add", &Base::add)._method("get", &Base::get)._method("twice", &Base::twice)._method("text", &Base::text)._property("b", &Base::b)._property("value", &Base::get, &Base::set); };
    auto left = [](auto c) { c.template _base<Base>()._method("label", &Left::label)._method("add", &Left::add)._property("name", &Left::name).template _constructor<int, std::string const &>("make"); };
    auto bot = [](auto c) { c.template _base<Left, Right, Other>(); };
    auto b = d._class<Base>("Base");
    if (lazy) b._lazy(base); else base(b);
    d = b._end();
    d = d._class<Other>("Other")._end();
    auto l = d._class<Left>("Left");
    if (lazy) l._lazy(left); else left(l);
    d = l._end();
    d = d._class<Right>("Right")._base<Base>()._end();
    auto z = d._class<Bottom>("Bottom");
    if (lazy) z._lazy(bot); else bot(z);
    d = z._end();
    d = d._class<Money>("Money")._end();
    MetaType::registerConverter(&money_to_label);
    MetaType::registerConverter<int, Label>([t = std::string("number ")](int x) { return Label{t + std::to_string(x)}; });
}

void one(long i, Rng &rng)
{
    int threads = std::stoi(opt("--threads", "4"));
    bool lazy = rng.chance(1, 3);
    define(rng, lazy);
    make_ops();
    ns = MetaNamespace::global()->getNamespace("world");
    bottom = new Bottom;
    const_bottom = bottom;
    shared = new std::vector<variant>;
    auto &v = *shared;
    v.emplace_back();
    v.emplace_back(int(rng.below(5)));
    v.emplace_back(int(rng.below(5)));
    v.emplace_back(std::string("a text that is surely not small"));
    v.emplace_back(Big{{7}, "big text which is long as well"});
    v.emplace_back(Big{{7}, "big text which is long as well"});
    v.emplace_back(Money{12});
    v.emplace_back(Base{9});
    v.emplace_back(Left(4, "l"));
    v.emplace_back(Counted{3});
    v.emplace_back(static_cast<Base *>(bottom));
    v.emplace_back(const_bottom);
    v.emplace_back(std::cref(*const_bottom));
    v.emplace_back(std::vector<std::string>{"a", "b"});
    v.emplace_back(2.5);
    int steps = rng.range(10, 60);
    static unsigned const strengths[] = {0, 2, 8, 24};
    auto strength = strengths[rng.below(4)];
    // few different operations make for many meetings
    std::vector<std::size_t> menu;
    for (int k = rng.range(1, 10); k--;) menu.push_back(rng.below(ops.size()));
    if (rng.chance(1, 2)) { menu.clear(); for (std::size_t k = 0; k < ops.size(); ++k) menu.push_back(k); }
    int seeds = rng.range(1, 60);
    std::string log = fmt("%d threads, %d steps, delays %u, %d seeds%s, operations:", threads, steps, strength, seeds, lazy ? ", lazy" : "");
    for (auto m : menu) log += std::string(" ") + ops[m].first;
    begin_case(i, "reading", log);
    struct Seen { std::size_t op; std::uint64_t seed; std::string result; };
    std::vector<std::vector<Seen>> seen(threads);
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    auto base_seed = rng.next();
    std::vector<std::uint64_t> thread_seed;
    for (int t = 0; t < threads; ++t) { seen[t].reserve(64); thread_seed.push_back(rng.next()); }
    // what all of it gives in a process where nothing else happens
    std::vector<std::uint64_t> before(std::size_t(threads) * std::size_t(steps));
    int fd[2];
    std::fflush(stdout);
    if (::pipe(fd) != 0) std::abort();
    auto pid = ::fork();
    if (pid < 0) std::abort();
    if (pid == 0)
    {
        for (int t = 0; t < threads; ++t)
        {
            Rng mine(thread_seed[t]);
            mine.next();
            for (int k = 0; k < steps; ++k)
            {
                auto o = mine.pick(menu);
                auto s = base_seed + mine.below(seeds);
                Rng r(s);
                auto h = hash_str(ops[o].second(r));
                if (::write(fd[1], &h, 8) != 8) ::_exit(9);
            }
        }
        ::_exit(0);
    }
    ::close(fd[1]);
    for (std::size_t got = 0; got < before.size() * 8;)
    {
        auto r = ::read(fd[0], reinterpret_cast<char *>(before.data()) + got, before.size() * 8 - got);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        got += std::size_t(r);
    }
    ::close(fd[0]);
    int st = 0;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { std::signal(WTERMSIG(st), SIG_DFL); ::raise(WTERMSIG(st)); ::_exit(1); }
    if (WEXITSTATUS(st) != 0) ::_exit(WEXITSTATUS(st));
    sched::begin(strength);
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            Rng mine(thread_seed[t]);
            sched::enter(t, mine.next());
            ready.fetch_add(1, sched::rel);
            while (ready.load(sched::rel) < threads) sched_yield();
            for (int k = 0; k < steps; ++k)
            {
                auto o = mine.pick(menu);
                auto s = base_seed + mine.below(seeds);
                Rng r(s);
                seen[t].push_back({o, s, ops[o].second(r)});
            }
        });
    for (auto &t : ts) t.join();
    auto schedule = sched::end();
    std::map<std::pair<std::size_t, std::uint64_t>, std::string> alone;
    std::uint64_t n = 0;
    std::size_t position = 0;
    for (auto &t : seen)
        for (auto &x : t)
        {
            check(before[position++] == hash_str(x.result), std::string("result-differs:") + ops[x.op].first, "together: " + x.result.substr(0, 600) + "; another alone; " + log);
            auto at = alone.find({x.op, x.seed});
            if (at == alone.end())
            {
                Rng r(x.seed);
                at = alone.emplace(std::make_pair(x.op, x.seed), ops[x.op].second(r)).first;
            }
            ++n;
            check(at->second == x.result, std::string("result-differs:") + ops[x.op].first, "together: " + x.result.substr(0, 300) + "; alone: " + at->second.substr(0, 300) + "; " + log);
            cov(std::string("operation: ") + ops[x.op].first);
        }
    cov("copies of counted values", std::uint64_t(Counted::copies.load()));
    eval(schedule, true, n);
    sample(log);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    forked_cases(std::stol(opt("--n", "1000")), one);
    return finish();
}
