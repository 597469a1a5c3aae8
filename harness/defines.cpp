// Random definition programs; in between and afterwards everything reachable is compared
// with the model: by count, index, iteration and name.
#include "defs.h"
#include "forked.h"
#include "alloc_hook.h"
#include <set>

using namespace defs;
using namespace rv;
using rtti::MetaClass;
using rtti::MetaContainer;
using rtti::MetaItem;
using rtti::MetaNamespace;

namespace {
MetaContainer const *box(Node const *n) { return static_cast<MetaContainer const *>(n->real); }
char const *const made_up[] = {"nonesuch", "a ", " a", "A", "f(", "f(int", "f()", "f(int, double)", "f (int)", "f(int,double)", "constructor", "constructor(int)", "::", "::a",
                               "d_constructor", "c_constructor", "operator()", "operator", "operator()(int)", "operator(", "(int)", "()", "global"};

std::size_t count(MetaContainer const *c, int cat)
{
    switch (cat)
    {
    case NS: return c->namespaceCount();
    case CLASS: return c->classCount();
    case PROP: return c->propertyCount();
    case METHOD: return c->methodCount();
    case ENUM: return c->enumCount();
    default: return c->constructorCount();
    }
}
template<typename K> MetaItem const *get(MetaContainer const *c, int cat, K const &k)
{
    switch (cat)
    {
    case NS: return c->getNamespace(k);
    case CLASS: return c->getClass(k);
    case PROP: return c->getProperty(k);
    case METHOD: return c->getMethod(k);
    case ENUM: return c->getEnum(k);
    default: return c->getConstructor(k);
    }
}

struct Look
{
    Env &e;
    Rng rng;
    long looks = 0;
    Look(Env &env, std::uint64_t seed) : e(env), rng(seed) {}
    bool ok(bool good, char const *key, std::string const &what)
    {
        ++looks;
        if (good) return true;
        return check(false, key, what + " after: " + e.log);
    }

    void entries(Node *n)
    {
        auto *it = n->real;
        auto const &a = n->attributes;
        auto at = n->qualified;
        bool right = it->attributeCount() == a.size();
        for (std::size_t k = 0; right && k < a.size(); ++k)
            right = it->attributeName(k) == a[k].name && it->attribute(k).is<int>() && it->attribute(k).to<int>() == a[k].value && &it->attribute(a[k].name) == &it->attribute(k);
        ok(right, "attributes", at);
        if (n->cat != ENUM) return;
        auto *en = static_cast<rtti::MetaEnum const *>(it);
        right = en->elementCount() == n->elements.size();
        for (std::size_t k = 0; right && k < n->elements.size(); ++k)
            right = en->elementName(k) == n->elements[k].name && en->element(k).to<int>() == n->elements[k].value && &en->element(n->elements[k].name) == &en->element(k);
        ok(right, "elements", at);
    }
    void item(Node *n, MetaItem const *it)
    {
        auto at = std::string(cat_names[n->cat]) + " " + n->qualified;
        if (!ok(it != nullptr, "not-found", at)) return;
        if (!n->real) n->real = it;
        static rtti::MetaCategory const cats[] = {rtti::mcatNamespace, rtti::mcatClass, rtti::mcatProperty, rtti::mcatMethod, rtti::mcatEnum, rtti::mcatConstructor};
        ok(n->real == it, "another-item", at);
        ok(it->category() == cats[n->cat], "category", at);
        ok(it->name() == n->name, "name", at + " is called " + it->name());
        if (n->owner->real) ok(it->owner() == n->owner->real, "owner", at);
        ok(it->qualifiedName() == n->qualified, "qualified-name", at + ": " + it->qualifiedName());
        if (n->cat == METHOD)
        {
            auto *m = static_cast<rtti::MetaMethod const *>(it);
            variant r;
            auto sig = n->name.substr(n->plain.size());
            try
            {
                if (sig == "()") r = m->invoke();
                else if (sig == "(int)") r = m->invoke(1);
                else if (sig == "(double)") r = m->invoke(1.0);
                else if (sig == "(int, double)") r = m->invoke(1, 2.0);
                else if (sig == "(int, int)") r = m->invoke(1, 2);
                else if (sig == "(char)") r = m->invoke('c');
                else if (sig == sig_names[6]) r = m->invoke(&callback);
                else if (sig == sig_names[7]) { auto f = &callback; r = m->invoke(&f); }
                else if (sig == sig_names[8]) r = m->invoke(&callback, &callback0);
                else ok(false, "unknown-signature", at);
            }
            catch (std::exception const &x) { ok(false, "method-does-not-run", at + x.what()); }
            ok(r.is<int>() && r.to<int>() == n->tag, "method-replaced", at);
        }
        if (n->cat == PROP)
        {
            auto *p = static_cast<rtti::MetaProperty const *>(it);
            auto v = p->get();
            bool right = n->tag < TAGS ? std::as_const(v).data<int>() == &vars[n->tag]
                       : n->tag < 2 * TAGS ? std::as_const(v).data<char>() == &cvars[n->tag - TAGS]
                       : v.is<int>() && v.to<int>() == 100 + n->tag - 2 * TAGS;
            ok(right, "property-replaced", at);
        }
        if (n->cat == CLASS)
        {
            auto *c = static_cast<MetaClass const *>(it);
            ok(c->metaTypeId() == e.class_id[n->tag](), "class-type", at);
            ok(MetaClass::find(c->metaTypeId()) == c, "class-by-type", at);
            ok(MetaClass::find(rtti::MetaType{c->metaTypeId()}.typeName()) == c, "class-by-type-name", at);
        }
    }
    void container(Node *n)
    {
        auto *c = box(n);
        auto at = n->qualified.empty() ? std::string("the global namespace") : n->qualified;
        for (int cat = 0; cat < CATS; ++cat)
        {
            if (cat == CTOR && n->cat != CLASS) { ok(c->constructorCount() == 0, "constructor-of-a-namespace", at); continue; }
            auto got = count(c, cat);
            auto &list = n->lists[cat];
            if (!ok(got == list.size(), "count", at + fmt(": %zu instead of %zu of category %s", got, list.size(), cat_names[cat]))) continue;
            for (std::size_t k = 0; k < list.size(); ++k)
            {
                item(list[k].get(), get(c, cat, k));
                ok(get(c, cat, std::string_view(list[k]->name)) == list[k]->real, "name-and-index", at + " " + list[k]->name);
            }
            for (std::size_t k : {list.size(), list.size() + 1, std::size_t(-1)}) ok(get(c, cat, k) == nullptr, "index-out-of-range", at);
        }
        std::vector<MetaItem const *> seen, want;
        c->for_each_class([&](MetaClass const *k) { seen.push_back(k); return true; });
        for (auto &x : n->lists[CLASS]) want.push_back(x->real);
        ok(seen == want, "for-each-class", at);
        seen.clear(); want.clear();
        std::size_t stop = rng.below(n->lists[METHOD].size() + 2);
        c->for_each_method([&](rtti::MetaMethod const *k) { seen.push_back(k); return seen.size() != stop; });
        for (auto &x : n->lists[METHOD]) { if (stop && want.size() == stop) break; want.push_back(x->real); }
        ok(seen == want, "for-each-method", at);
        entries(n);
        for (std::size_t k = 0; k < n->lists[ENUM].size(); ++k) entries(n->lists[ENUM][k].get());
        for (int cat : {NS, CLASS})
            for (std::size_t k = 0; k < n->lists[cat].size(); ++k)
                if (n->lists[cat][k]->real) container(n->lists[cat][k].get());
    }
    void collect(Node *n, std::vector<Node *> &to)
    {
        to.push_back(n);
        for (int cat : {NS, CLASS}) for (auto &x : n->lists[cat]) if (x->real) collect(x.get(), to);
    }
    bool same(Node *want, MetaItem const *got)
    {
        if (!want || want->real) return got == (want ? want->real : nullptr);
        item(want, got);
        return true;
    }
    // names that are or are not there
    void probe(int n)
    {
        std::vector<Node *> all;
        collect(&e.root, all);
        for (; n > 0; --n)
        {
            auto *c = all[rng.below(all.size())];
            if (rng.chance(1, 2)) if (auto *k = e.classes[rng.below(N)]; k && k->real) c = k;
            int cat = int(rng.below(CATS));
            std::string name = rng.chance(1, 4) ? made_up[rng.below(std::size(made_up))] : e.names[rng.below(e.names.size())];
            if ((cat == METHOD || cat == CTOR) && rng.chance(1, 2)) name += sig_names[rng.below(SIGS)];
            if (rng.chance(1, 12)) name = c->qualified;
            if (rng.chance(1, 12)) name = c->name;
            if (c->cat == CLASS && !c->bases.empty() && rng.chance(4, 5))
            {
                cat = rng.chance(1, 2) ? METHOD : PROP;
                auto *a = e.ancestor(c);
                if (!a->lists[cat].empty()) { auto *x = rng.pick(a->lists[cat]).get(); name = rng.chance(1, 2) ? x->name : x->plain; }
            }
            if (!c->lists[cat].empty() && rng.chance(1, 6))
            {
                // almost the name of something
                auto *x = rng.pick(c->lists[cat]).get();
                name = x->name;
                auto k = rng.below(name.size());
                switch (rng.below(6))
                {
                case 0: name.pop_back(); break;
                case 1: name.back() ^= 1; break;
                case 2: name[k] ^= 1; break;
                case 3: name.erase(k, 1); break;
                case 4: name.insert(k, 1, name[k]); break;
                default: name += name.back();
                }
                cov("looked up: almost a name");
            }
            if (name.empty()) continue;
            MetaItem const *got;
            { Loan l(name); got = get(box(c), cat, l.view); }
            auto *want = cat == METHOD || cat == CTOR ? e.method(c, Cat(cat), name) : cat == PROP ? e.property(c, name) : c->own(Cat(cat), name);
            auto text = std::string(cat_names[cat]) + " '" + name + "' in " + c->qualified;
            if (!want) ok(got == nullptr, "found-what-is-not-there", text);
            else if (want->real) ok(got == want->real, got ? "found-another" : "not-found", text + " should be " + want->qualified);
            else item(want, got);
            cov(want ? want->owner == c ? "looked up: own" : "looked up: inherited" : "looked up: not there");
            if (cat == METHOD && rng.chance(1, 3))
            {
                auto t = box(c)->getMethod<int, double>(name);
                auto *w = e.method(c, METHOD, name + "(int, double)");
                ok(same(w, t), "found-by-types", text);
            }
            if (c->cat == CLASS && cat == CTOR && rng.chance(1, 3))
            {
                auto t = box(c)->getConstructor<int>(name);
                auto *w = c->own(CTOR, name + "(int)");
                ok(same(w, t), "found-by-types", text);
                auto is = [&](MetaItem const *got, char const *n) { auto *w = c->own(CTOR, n); return same(w, got); };
                ok(is(box(c)->defaultConstructor(), rtti::DEFAULT_CONSTRUCTOR_SIG) && is(box(c)->copyConstructor(), rtti::COPY_CONSTRUCTOR_SIG) &&
                   is(box(c)->moveConstructor(), rtti::MOVE_CONSTRUCTOR_SIG), "special-constructors", text);
            }
        }
    }
    void classes()
    {
        for (int i = 0; i < N + INNER; ++i)
        {
            auto *got = MetaClass::find(e.class_id[i]());
            ok(e.classes[i] ? got && (!e.classes[i]->real || got == e.classes[i]->real) : got == nullptr, "class-by-type", fmt("class %d", i));
        }
    }
};

void one(long i, Rng &rng)
{
    Env e(rng, rng.range(20, rng.chance(1, 2) ? 400 : 90));
    register_ids(e);
    for (auto id : e.class_id) id();
    for (rtti::MetaType_ID (*id)() : {+[] { return rtti::metaTypeId<E0>(); }, +[] { return rtti::metaTypeId<E1>(); }, +[] { return rtti::metaTypeId<E2>(); },
                                      +[] { return rtti::metaTypeId<int>(); }, +[] { return rtti::metaTypeId<double>(); }, +[] { return rtti::metaTypeId<char>(); }}) id();
    if (rng.chance(1, 3)) e.chatty = 25;
    e.failing = rng.chance(1, 3);
    std::vector<std::string> pool = {"a", "b", "ab", "f", "ff", "a.b", "x y", "\xc3\xbcn\xc3\xaf", "operator()", "Class<int>", "::", "std::string", "~", "f'", std::string("a\0b", 3),
                                     std::string("a\0c", 3), std::string(100, 'n'), std::string(100, 'n') + "m", "operator+", "constructor"};
    rng.shuffle(pool);
    e.names.assign(pool.begin(), pool.begin() + rng.range(3, 12));
    e.root.real = MetaNamespace::global();
    begin_case(i, "program", "");
    check(e.root.real->name() == "global" && e.root.real->qualifiedName().empty() && e.root.real->owner() == nullptr && MetaNamespace::global()->isGlobal(), "global-namespace", "");
    long looks = 0;
    int rounds = rng.range(1, 4);
    for (int r = 0; r < rounds && e.budget > 0; ++r)
    {
        {
            auto g = rtti::global_define();
            rtti::meta_define<void> top = g;
            Cursor c{&e.root, &e.root};
            body(e, top, c, rng.range(4, 60));
        }
        at("program", e.log);
        Look look(e, rng.next());
        if (rng.chance(1, 2)) look.probe(4);
        look.container(&e.root);
        look.probe(100);
        look.classes();
        looks += look.looks;
    }
    if (rng.chance(1, 3))
    {
        MetaNamespace::global()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
        Look look(e, rng.next());
        look.container(&e.root);
        looks += look.looks;
    }
    cov("definition steps", e.steps);
    cov("refused definitions", e.refused);
    cov("definitions that ran out of memory", e.failed);
    eval(hash_str(e.log), e.steps > 10, looks);
    sample(e.log);
}
template<int ...I> void ids(Env &e, std::integer_sequence<int, I...>)
{ ((e.class_id[I] = [] { return rtti::metaTypeId<K<I>>(); }), ...); }
} // namespace

namespace defs {
void attempt_failing(Env &e, Node *in, Cat cat, std::function<void()> const &f)
{
    if (!in->real) return;
    long nth = long(e.rng.below(e.rng.chance(1, 3) ? 40 : 12));
    std::size_t before = 0;
    bool fired[2] = {};
    for (int k = 0; k < 2; ++k)
    {
        before = alloc::live();
        {
            alloc::Scope s;
            alloc::arm(nth);
            try { f(); }
            catch (std::bad_alloc const &) { fired[k] = true; }
            alloc::off();
        }
        if (!fired[k]) return;
    }
    ++e.failed;
    auto left = alloc::live() - before;
    std::string at = fmt("%s in %s, allocation %ld failed, ", cat < CATS ? cat_names[cat] : "attribute", in->qualified.c_str(), nth);
    check(left == 0 || cat == CLASS, "leak-when-out-of-memory", at + fmt("%zu blocks; ", left) + e.log);
    if (cat == CATS) return;
    auto *c = box(in);
    auto n = count(c, cat);
    check(n == in->lists[cat].size() || n == in->lists[cat].size() + 1, "count-when-out-of-memory", at + e.log);
    for (std::size_t k = 0; k < n; ++k)
    {
        auto *it = get(c, cat, k);
        if (check(it != nullptr, "inconsistent-when-out-of-memory", at + e.log))
            check(get(c, cat, std::string_view(it->name())) == it, "inconsistent-when-out-of-memory", at + it->name() + " " + e.log);
    }
}
void register_ids(Env &e)
{
    ids(e, std::make_integer_sequence<int, N>{});
    e.class_id[N] = [] { return rtti::metaTypeId<Inner<0>>(); };
    e.class_id[N + 1] = [] { return rtti::metaTypeId<Inner<1>>(); };
    e.class_id[N + 2] = [] { return rtti::metaTypeId<Inner<2>>(); };
}
} // namespace defs

int main(int argc, char **argv)
{
    init(argc, argv);
    forked_cases(std::stol(opt("--n", "1500")), one);
    return finish();
}
