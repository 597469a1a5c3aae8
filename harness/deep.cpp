// C11, C12, C16: large hierarchies. A chain of 40 classes with legs of different sizes and a few
// virtual links, a class with 24 bases, a root with 32 derived classes and a lattice of diamonds;
// registered and linked in random orders. --judge graph | cast | lookup,
// built with -DDEEP_GRAPH, -DDEEP_CAST or -DDEEP_LOOKUP.
#include "deep.h"

std::vector<Node> nodes;

static std::set<int> reach(std::vector<std::vector<int>> const &g, int i)
{
    std::set<int> s;
    std::vector<int> todo{i};
    while (!todo.empty())
    {
        int x = todo.back();
        todo.pop_back();
        if (s.insert(x).second) todo.insert(todo.end(), g[x].begin(), g[x].end());
    }
    return s;
}

int main(int argc, char **argv)
{
    init(argc, argv);
    std::string judge = opt("--judge", "graph");
    deep0();
    deep1();
    deep2();
    deep3();
    int n = int(nodes.size());
    auto r = case_rng(S().shard);
    begin_case(S().shard, "deep", judge);
    std::vector<std::vector<int>> g(n), derived(n);          // declared so far, in the order of declaration
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    r.shuffle(order);
    for (int i : order)
    {
        nodes[i].define();
        nodes[i].cls = MetaClass::find(nodes[i].id);
        check(nodes[i].cls, "class-lost", nodes[i].name);
        if (!nodes[i].cls) return finish();
    }
    auto number = [&](MetaClass const *c) { for (int i = 0; i < n; ++i) if (nodes[i].cls == c) return i; return -1; };
    auto closure = [&](bool all) {
        for (int i = 0; i < n; ++i)
        {
            if (!all && r.below(6)) continue;
            auto want = reach(g, i);
            for (int j = 0; j < n; ++j)
                if (nodes[i].cls->inheritedFrom(nodes[j].cls) != (want.count(j) > 0))
                    viol("inherited", fmt("inheritedFrom(%s, %s) is %d", nodes[i].name.c_str(), nodes[j].name.c_str(), int(want.count(j) == 0)));
            eval(comb(comb(S().seed, S().shard), i), true, n);
            cov_max("ancestors of one class", want.size() - 1);
        }
    };
    // what a class has, which may come before or after the bases
    for (int i : order) if (r.below(2)) { nodes[i].contents(); nodes[i].contents = nullptr; }
    // deferred declarations are let run one by one, in a random order, by a question to the class
    r.shuffle(order);
    std::vector<std::pair<int, int>> edges;
    std::set<int> deferred;
    for (int i : order)
    {
        if (r.chance(1, 4)) { deferred.insert(i); continue; }
        for (int k = 0; k < int(nodes[i].bases.size()); ++k) edges.push_back({i, k});
    }
    r.shuffle(edges);
    std::size_t done = 0;
    for (auto [i, k] : edges)
    {
        nodes[i].link[k]();
        g[i].push_back(nodes[i].bases[k]);
        derived[nodes[i].bases[k]].push_back(i);
        if (++done % 60 == 0 && judge == "graph") closure(false);
    }
    for (int i : deferred)
    {
        std::vector<int> o;
        for (int k = 0; k < int(nodes[i].bases.size()); ++k) o.push_back(k);
        r.shuffle(o);
        nodes[i].link_lazily(o);
        (void)nodes[i].cls->baseClassCount();
        for (int k : o) { g[i].push_back(nodes[i].bases[k]); derived[nodes[i].bases[k]].push_back(i); }
    }
    for (int i : order) if (nodes[i].contents) nodes[i].contents();
    cov("deferred classes", deferred.size());
    cov("bases declared", edges.size());

    if (judge == "graph")
    {
        closure(true);
        for (int i = 0; i < n; ++i)
        {
            std::vector<int> b, d;
            for (std::size_t k = 0, e = nodes[i].cls->baseClassCount(); k < e; ++k) b.push_back(number(nodes[i].cls->baseClass(k)));
            for (std::size_t k = 0, e = nodes[i].cls->derivedClassCount(); k < e; ++k) d.push_back(number(nodes[i].cls->derivedClass(k)));
            check(b == g[i], "bases", fmt("bases of %s", nodes[i].name.c_str()));
            check(d == derived[i], "derived", fmt("derived classes of %s", nodes[i].name.c_str()));
            cov_max("bases of one class", b.size());
            cov_max("derived of one class", d.size());
            eval(comb(comb(S().seed, S().shard), n + i));
        }
    }
    else if (judge == "cast")
    {
        for (int i = 0; i < n; ++i)
        {
            auto obj = nodes[i].make();
            for (int j = 0; j < n; ++j)
            {
                void const *want = nodes[i].up(obj, j);
                void const *got = nodes[i].down_up(obj, j);
                check(want == got, "address", fmt("%s seen as %s is at %p, really at %p", nodes[i].name.c_str(), nodes[j].name.c_str(), got, want));
                eval(comb(comb(i, j), S().shard), want || got);
                cov(want ? "cast to an ancestor" : "cast refused");
            }
        }
    }
    else
    {
        // the declared order decides between bases: the first that has it, itself searched the same way
        std::function<int(int)> holder = [&](int i) -> int {
            if (nodes[i].own_first) return i;
            for (int b : g[i]) { int h = holder(b); if (h >= 0) return h; }
            return -1;
        };
        auto of = [](MetaItem const *item, int j) { return item->owner() == nodes[j].cls; };
        for (int i = 0; i < n; ++i)
        {
            auto want = reach(g, i);
            auto c = nodes[i].cls;
            for (int j = 0; j < n; ++j)
            {
                auto m = c->getMethod("own " + nodes[j].name);
                auto p = c->getProperty("prop " + nodes[j].name);
                bool in = want.count(j) > 0;
                check((m != nullptr) == in, "method-inherited", fmt("%s %s the method of %s", nodes[i].name.c_str(), m ? "sees" : "does not see", nodes[j].name.c_str()));
                check((p != nullptr) == in, "property-inherited", fmt("%s %s the property of %s", nodes[i].name.c_str(), p ? "sees" : "does not see", nodes[j].name.c_str()));
                if (m) check(of(m, j), "method-owner", nodes[j].name);
                if (p) check(of(p, j), "property-owner", nodes[j].name);
                eval(comb(comb(i, j), S().shard), in);
                cov(in ? "inherited" : "not inherited");
            }
            int h = holder(i);
            auto m = c->getMethod("shared");
            auto p = c->getProperty("same");
            check((h < 0) == (m == nullptr) && (!m || of(m, h)), "method-hidden",
                  fmt("the method shared of %s is of %s", nodes[i].name.c_str(), h < 0 ? "none" : nodes[h].name.c_str()));
            check((h < 0) == (p == nullptr) && (!p || of(p, h)), "property-hidden",
                  fmt("the property same of %s is of %s", nodes[i].name.c_str(), h < 0 ? "none" : nodes[h].name.c_str()));
            eval(comb(n + i, S().shard));
        }
    }
    sample(fmt("%d classes, %zu bases declared one by one, %zu classes deferred", n, edges.size(), deferred.size()));
    return finish();
}
