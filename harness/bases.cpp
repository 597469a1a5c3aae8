// C12: random orders of registering classes and declaring bases, judged by a graph.
#include "bases.h"
#include <set>
using namespace rv;
using namespace rtti;
#define D(n) void add_families_##n(std::vector<bases::Family> &);
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7)

struct Model
{
    bool reg[bases::N] = {};
    bool queued[bases::N] = {};                  // a deferred definition waits
    std::vector<int> base[bases::N], derived[bases::N], pend[bases::N];
    std::set<int> reach(int i) const
    {
        std::set<int> s{i};
        for (int b : base[i]) for (int x : reach(b)) s.insert(x);
        return s;
    }
    bool has(int i, int j) const { return std::find(base[i].begin(), base[i].end(), j) != base[i].end(); }
    void edge(int i, int j) { if (!has(i, j)) { base[i].push_back(j); derived[j].push_back(i); } }
};

struct History
{
    bases::Family &f;
    std::string ns;
    std::string names[bases::N];
    Model m;
    Rng &r;
    std::string log;
    std::uint64_t shape = 1;

    History(bases::Family &f_, int n, Rng &r_) : f(f_), r(r_)
    {
        ns = fmt("family%d", n);
        for (int i = 0; i < bases::N; ++i) names[i] = fmt("K%d", i);
    }
    MetaClass const *cls(int i) { return MetaClass::find(f[i].id()); }
    int number(MetaClass const *c)
    {
        for (int i = 0; i < bases::N; ++i) if (c && c->metaTypeId() == f[i].id()) return i;
        return -1;
    }
    std::string list(std::vector<int> const &v) { std::string s; for (int x : v) s += fmt("%d ", x); return s; }
    void bad(char const *key, std::string const &w) { viol(key, w + " after: " + log); }

    // asking for contents of i lets its deferred definition run
    bool force(int i)
    {
        if (!m.queued[i]) return true;
        m.queued[i] = false;
        for (int j : m.pend[i])
        {
            if (!m.reg[j]) return false;          // throws here, what came before stays
            m.edge(i, j);
        }
        return true;
    }
    void look(int i)
    {
        if (!m.reg[i]) { if (cls(i)) bad("class-unregistered", fmt("class %d is found but was never defined", i)); return; }
        auto *c = cls(i);
        if (!c) { bad("class-lost", fmt("class %d is not found", i)); return; }
        bool threw = false;
        std::vector<int> got, want;
        bool ok = force(i);
        int first = int(r.below(3));
        // asking for ancestors also lets the deferred definitions on the way run
        for (int k = 0; k < i; ++k) if (m.queued[k]) first = first % 2;
        auto ask = [&](int what) {
            if (what == 0) { (void)c->baseClassCount(); }
            else if (what == 1) { (void)c->derivedClassCount(); }
            else (void)c->inheritedFrom(reinterpret_cast<MetaClass const *>(MetaClass::find(f[0].id())));
        };
        try { if (!ok || first == 0) ask(0); else ask(first); }
        catch (unregistered_metaclass const &) { threw = true; }
        catch (...) { bad("lazy-error", "unexpected exception"); }
        if (threw == ok) bad("lazy-error", fmt("deferred bases of class %d: exception %s", i, threw ? "unexpected" : "missing"));
        auto n = c->baseClassCount();
        for (std::size_t k = 0; k < n; ++k) got.push_back(number(c->baseClass(k)));
        if (got != m.base[i]) bad("bases", fmt("class %d lists bases %s expected %s", i, list(got).c_str(), list(m.base[i]).c_str()));
        if (c->baseClass(n) || c->baseClass(n + 1) || c->baseClass(std::size_t(-1))) bad("bases-index", "a base beyond the count");
        got.clear();
        n = c->derivedClassCount();
        for (std::size_t k = 0; k < n; ++k) got.push_back(number(c->derivedClass(k)));
        if (got != m.derived[i]) bad("derived", fmt("class %d lists derived %s expected %s", i, list(got).c_str(), list(m.derived[i]).c_str()));
        if (c->derivedClass(n) || c->derivedClass(std::size_t(-1))) bad("derived-index", "a derived class beyond the count");
        if (c->inheritedFrom(nullptr)) bad("inherited", "inherits from null");
        eval(comb(shape, hash_str(fmt("look%d", i))), m.base[i].size() + m.derived[i].size() > 0, 1);
        cov("class checked");
    }
    void closure(int i)
    {
        if (!m.reg[i]) return;
        auto *c = cls(i);
        // deferred definitions on the way run as they are needed, so let them run first
        for (int k = i; k >= 0; --k) if (m.queued[k]) return;
        auto want = m.reach(i);
        for (int j = 0; j < bases::N; ++j)
        {
            auto *b = cls(j);
            if (!b) continue;
            bool got = c->inheritedFrom(b);
            if (got != (want.count(j) > 0))
                bad("inherited", fmt("inheritedFrom(%d -> %d) is %d", i, j, int(got)));
            cov(got ? "inherits" : "does not inherit");
        }
        eval(comb(shape, hash_str(fmt("closure%d", i))), want.size() > 1, bases::N);
    }
    void step()
    {
        int op = int(r.below(12)), i = int(r.below(bases::N));
        shape = comb(shape, std::uint64_t(op * 100 + i));
        if (op < 3)
        {
            log += fmt("class(%d) ", i);
            f[i].define(nullptr, ns.c_str(), names[i].c_str());
            auto *c = cls(i);
            if (!c) { bad("class-lost", "a defined class is not found"); return; }
            m.reg[i] = true;
            cov("define");
        }
        else if (op < 8 && m.reg[i] && i > 0)
        {
            int j = int(r.below(i));
            // declaring goes through the class itself; a waiting deferred definition stays waiting
            std::vector<int> add;
            int form = int(r.below(4));
            if (form == 2 && i >= 3) { j = int(r.below(i - 2)); add = {j, j + 1, j + 2}; }
            else if (form == 3 && i >= 2) { j = int(r.below(i - 1)); add = {j + 1, j}; }
            else add = {j};
            log += fmt("base(%d: %s) ", i, list(add).c_str());
            bool expect_throw = false;
            std::vector<int> done;
            for (int a : add) { if (!m.reg[a]) { expect_throw = true; break; } done.push_back(a); }
            bool threw = false;
            try
            {
                if (add.size() == 3) f[i].base3(ns.c_str(), names[i].c_str(), j);
                else if (add.size() == 2) f[i].base_rev(ns.c_str(), names[i].c_str(), j);
                else f[i].base(ns.c_str(), names[i].c_str(), j);
            }
            catch (unregistered_metaclass const &) { threw = true; }
            catch (std::exception const &e) { bad("base-error", std::string("unexpected exception ") + e.what()); threw = true; }
            if (threw != expect_throw) bad("base-error", threw ? "a registered base was refused" : "an unregistered base was accepted");
            if (expect_throw && add.size() > 1 && !done.empty() && threw)
            {
                // whether the bases before the refused one count is left open, but both sides must agree
                if (!m.queued[i])
                    for (int a : done)
                    {
                        bool here = false;
                        auto *c = cls(i);
                        for (std::size_t k = 0; k < c->baseClassCount(); ++k) here = here || number(c->baseClass(k)) == a;
                        if (here) m.edge(i, a);
                    }
                else for (int a : done) m.edge(i, a);
            }
            else for (int a : done) { if (m.has(i, a)) cov("declared again"); m.edge(i, a); }
            cov(expect_throw ? "base refused" : "base declared");
        }
        else if (op == 8 && m.reg[i] && !m.queued[i] && i > 0)
        {
            std::vector<int> js;
            for (int k = int(r.range(1, 3)); k--;) js.push_back(int(r.below(i)));
            log += fmt("lazy(%d: %s) ", i, list(js).c_str());
            f[i].lazy(ns.c_str(), names[i].c_str(), js);
            m.queued[i] = true;
            m.pend[i] = js;
            cov("deferred bases");
        }
        else if (op < 11) { log += fmt("look(%d) ", i); look(i); }
        else closure(i);
    }
};

int main(int argc, char **argv)
{
    init(argc, argv);
    std::vector<bases::Family> F;
#define A(n) add_families_##n(F);
    A(0) A(1) A(2) A(3) A(4) A(5) A(6) A(7)
    // every process has its own registry, so each uses all families once
    int proc = std::atoi(opt("--proc", "0").c_str());
    for (int n = 0; n < int(F.size()); ++n)
    {
        long c = S().shard * 1000000L + n + proc * 1000L;
        if (S().only >= 0 && S().only != c) continue;
        auto r = case_rng(c);
        begin_case(c, "history", fmt("family %d", n));
        History h(F[n], n, r);
        int steps = r.range(10, 160);
        for (int k = 0; k < steps; ++k) h.step();
        h.log += "end ";
        for (int i = 0; i < bases::N; ++i) h.look(i);
        for (int i = 0; i < bases::N; ++i) { h.look(i); h.closure(i); }
        cov("histories");
        if (n == 3) sample(h.log);
    }
    return finish();
}
