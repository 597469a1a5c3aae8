// C03: MetaType::compatible against a structural model.
#include "rv.h"
#include "compat.h"
using namespace rv;
using rtti::MetaType;

void compat_0(std::vector<Ent> &); void compat_1(std::vector<Ent> &); void compat_2(std::vector<Ent> &);
void compat_3(std::vector<Ent> &); void compat_4(std::vector<Ent> &); void compat_5(std::vector<Ent> &);
void compat_6(std::vector<Ent> &); void compat_7(std::vector<Ent> &);

struct Level { char kind; int v; };
using Shape = std::vector<Level>;

static Shape parse(char const *s)
{
    Shape r;
    while (*s)
    {
        Level l{*s++, 0};
        while (*s >= '0' && *s <= '9') l.v = l.v * 10 + (*s++ - '0');
        r.push_back(l);
    }
    return r;
}
// shape without const, the outermost array turned into a pointer
static std::string under(Shape const &s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[i].kind == 'a' && i) r += "a" + std::to_string(s[i].v);
        else if (s[i].kind == 'b') r += "b";
        else r += "p";
    return r;
}
static bool is_array(Shape const &s) { return s[0].kind == 'a'; }
static long elements(Shape const &s)
{
    long n = 1;
    for (auto &l : s) { if (l.kind != 'a') break; n *= l.v; }
    return n;
}
// const of every pointer level (and of the base), from the outside in; arrays are as const as their elements
static std::vector<bool> consts(Shape const &s)
{
    std::vector<bool> r;
    for (auto &l : s) if (l.kind != 'a') r.push_back(l.v);
    return r;
}
static bool model(Shape const &f, int fref, Shape const &t, int tref)
{
    auto fc = consts(f), tc = consts(t);
    bool from_array = is_array(f), to_array = is_array(t);
    bool is_lvalue = fref == 1;
    if (tref == 1 && !tc[0] && !is_lvalue) return false;
    if (tref == 2 && is_lvalue) return false;
    if (to_array && !from_array) return false;
    if (to_array && elements(f) < elements(t)) return false;
    if (from_array && !to_array)
    {   // array to pointer: a temporary pointer, only bound by const references
        if (tref == 1 && !tc[0]) return false;
        fc.insert(fc.begin(), tref != 0);
    }
    if (fc.size() != tc.size()) return false;
    std::size_t top = tref ? 0 : 1;
    for (std::size_t i = top; i < fc.size(); ++i)
    {
        if (fc[i] && !tc[i]) return false;
        if (fc[i] != tc[i])
            for (std::size_t j = top; j < i; ++j) if (!tc[j]) return false;
    }
    return true;
}

int main(int argc, char **argv)
{
    init(argc, argv);
    std::vector<Ent> v;
    compat_0(v); compat_1(v); compat_2(v); compat_3(v); compat_4(v); compat_5(v); compat_6(v); compat_7(v);
    std::vector<Shape> sh;
    std::vector<std::string> un;
    for (auto &e : v) { sh.push_back(parse(e.shape)); un.push_back(under(sh.back()) + std::to_string(e.base)); }
    char const *refs[] = {"", "&", "&&"};
    begin_case(0, "pairs");
    std::uint64_t yes = 0;
    for (std::size_t i = S().shard; i < v.size(); i += S().shards)
    {
        MetaType a{v[i].id};
        check(!MetaType::compatible(a, MetaType{}) && !MetaType::compatible(MetaType{}, a) , "compat:invalid", v[i].shape);
        for (std::size_t j = 0; j < v.size(); ++j)
        {
            MetaType b{v[j].id};
            if (un[i] != un[j]) continue;      // callers compare the decayed ids first
            bool want = model(sh[i], v[i].ref, sh[j], v[j].ref);
            bool got = MetaType::compatible(a, b);
            ++S().evals;
            yes += want;
            bool fa = is_array(sh[i]), ta = is_array(sh[j]);
            if (got != want)
                viol(fmt("compat:%s-%s%s-to-%s%s", got ? "accepts" : "refuses", fa ? "array" : "plain", refs[v[i].ref], ta ? "array" : "plain", refs[v[j].ref]),
                     fmt("%s -> %s is %d", std::string(a.typeName()).c_str(), std::string(b.typeName()).c_str(), int(got)));
            if (S().evals % 7001 == 1) sample(fmt("%s -> %s: %d", std::string(a.typeName()).c_str(), std::string(b.typeName()).c_str(), int(got)));
        }
    }
    check(!MetaType::compatible(MetaType{}, MetaType{}), "compat:invalid", "invalid with invalid");
    for (std::uint64_t k = 0; k < S().evals; ++k) S().hashes.insert(comb(k, S().shard));    // every pair is asked once
    cov("types", S().shard == 0 ? v.size() : 0);
    cov("compatible pairs", yes);
    return finish();
}
