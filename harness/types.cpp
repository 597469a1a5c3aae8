// C01 / C02: identity and description of types, against what the compiler says.
#include "rv.h"
#include "typeinfo.h"
#include <array>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <unordered_set>
using namespace rv;
using rtti::MetaType;
using rtti::MetaType_ID;
namespace rtti { RTTI_API std::ostream &operator<<(std::ostream &, MetaType); }

rtti::MetaType_ID special_a(int k);
rtti::MetaType_ID special_b(int k);

namespace {

struct Special { char const *key, *what; int a, b; bool cross; };
// pairs of different types whose compiler-printed names are the same
Special const specials[] = {
    {"shared-id:lambdas", "two closure types of one function", 0, 1, false},
    {"shared-id:block-local-classes", "two classes of one name local to two blocks of a function", 2, 3, false},
    {"shared-id:auto-template-argument", "A<1> and A<1u> of template<auto> struct A", 4, 5, false},
    {"shared-id:overloaded-function-argument", "A<(void(*)(int))f> and A<(void(*)(long))f> of template<auto> struct A", 6, 7, false},
    {"shared-id:unnamed-enums", "two unnamed enums of one function", 8, 9, false},
    {"shared-id:anonymous-namespace", "classes of one name in the anonymous namespaces of two translation units", 20, 0, true},
    {"shared-id:const-nullptr", "std::nullptr_t and const std::nullptr_t", 21, 22, false},
    // these must be told apart
    {"shared-id:special-other", "two closure types of different functions", 0, 10, false},
    {"shared-id:special-other", "local classes of different functions", 2, 11, false},
    {"shared-id:special-other", "const and non-const closure pointers", 12, 13, false},
};

char const *const names[] = {"Const", "Pointer", "MemberPointer", "LvalueReference", "RvalueReference", "Array", "Void",
    "Integral", "FloatPoint", "Enum", "Function", "Union", "Class", "StandardLayout", "Trivial", "Abstract", "Polymorphic",
    "DefaultConstructible", "CopyConstructible", "CopyAssignable", "MoveConstructible", "MoveAssignable", "Destructible",
    "EQ_Comparable"};

std::vector<tg::Info> describe()
{
    std::vector<tg::Info> v;
#define DESCRIBE(k) tg::describe_##k(v);
#include "types_all.inc"
#undef DESCRIBE
    return v;
}

std::multiset<std::string> split(std::string const &s)
{
    std::multiset<std::string> r;
    std::string cur;
    for (char c : s + "|") if (c == '|') { r.insert(cur); cur.clear(); } else cur += c;
    return r;
}
std::multiset<std::string> flag_set(std::uint32_t f)
{
    std::multiset<std::string> r;
    for (int i = 0; i < 24; ++i) if (f >> i & 1) r.insert(names[i]);
    if (!f) r.insert("None");
    return r;
}

void judge_flags(tg::Info const &i, MetaType mt, char const *how)
{
    auto at_ = [&](char const *k) { return std::string(k); };
    auto text = [&](std::string const &d) { return fmt("%s (%s): %s", i.spell, how, d.c_str()); };
    auto f = std::uint32_t(mt.typeFlags());
    check(mt.typeSize() == i.size, at_("describe:size"), text(fmt("size %zu, expected %zu", mt.typeSize(), i.size)));
    check(mt.pointerArity() == i.arity, at_("describe:arity"), text(fmt("depth %d, expected %d", mt.pointerArity(), i.arity)));
    if (i.is_void)
    {
        check(f == (1u << 6), at_("describe:flags-void"), text(fmt("flags %x", f)));
    }
    else
    {
        for (int b = 0; b < 23; ++b)
            check((f >> b & 1) == (i.flags >> b & 1), std::string("describe:flag-") + names[b],
                  text(fmt("%s is %d", names[b], int(f >> b & 1))));
        if (i.eq >= 0)
            check(int(f >> 23 & 1) == i.eq, at_("describe:flag-EQ_Comparable"), text(fmt("is %d", int(f >> 23 & 1))));
        check((f >> 24) == 0, at_("describe:flag-unknown"), text(fmt("flags %x", f)));
    }
    struct { char const *n; bool got, want; } p[] = {
        {"isConst", mt.isConst(), i.p_const}, {"isLvalueReference", mt.isLvalueReference(), i.p_lref},
        {"isRvalueReference", mt.isRvalueReference(), i.p_rref}, {"isReference", mt.isReference(), i.p_lref || i.p_rref},
        {"isClass", mt.isClass(), i.p_class}, {"isPointer", mt.isPointer(), i.p_ptr}, {"isVoidPtr", mt.isVoidPtr(), i.p_voidptr},
        {"isClassPtr", mt.isClassPtr(), i.p_classptr}, {"isFunctionPtr", mt.isFunctionPtr(), i.p_fnptr}, {"isArray", mt.isArray(), i.p_array}};
    if (!i.is_void)
        for (auto &x : p) check(x.got == x.want, std::string("describe:") + x.n, text(fmt("%s is %d", x.n, int(x.got))));
    // printing
    std::ostringstream os;
    os << mt.typeFlags();
    check(split(os.str()) == flag_set(f), "print:flags", text("printed " + os.str()));
    std::ostringstream ot;
    ot << mt;
    auto s = ot.str();
    bool ok = s.find("[" + std::string(mt.typeName()) + "]") != std::string::npos
        && s.find("[" + std::to_string(mt.typeId().value()) + "]") != std::string::npos
        && s.find("[" + os.str() + "]") != std::string::npos;
    check(ok, "print:type", text("printed " + s));
}

} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    bool ident = opt("--judge") == "ident";
    if (ident) S().mute = {"describe:", "print:"};
    else S().mute = {"id:", "shared-id:", "lookup:", "decay:"};
    auto v = describe();
    int n = 0;
    for (auto &i : v) n = std::max(n, i.index + 1);
    begin_case(0, "types");
    Rng r = case_rng(S().shard, 77);
    // what is known by name before anything was used
    auto names0 = 0;
    if (ident)
    {
        for (int k = 0; k < 40; ++k)
        {
            auto &i = v[r.below(v.size())];
            auto nm = i.name();
            if (i.is_void) continue;
            // not used yet: either unknown or a type the library itself or an earlier step has used
            MetaType before{nm};
            auto id = i.id();
            if (before.valid()) { check(before.typeId() == id, "lookup:before-first-use", i.spell); ++names0; }
            check(MetaType{nm}.typeId() == id, "lookup:after-first-use", i.spell);
        }
    }
    // first use in a random order, on several threads at once
    unsigned threads = S().shard % 3 == 0 ? 1 : 4;
    std::vector<std::vector<MetaType_ID>> ids(threads, std::vector<MetaType_ID>(v.size()));
    std::atomic<unsigned> ready{0};
    auto work = [&](unsigned t, std::uint64_t seed) {
        Rng q(seed);
        std::vector<std::size_t> o(v.size());
        for (std::size_t k = 0; k < o.size(); ++k) o[k] = k;
        q.shuffle(o);
        ++ready;
        while (ready < threads) {}
        for (auto k : o) ids[t][k] = (q.chance(1, 4) ? v[k].type_id : v[k].id)();
    };
    std::vector<std::thread> ts;
    for (unsigned t = 1; t < threads; ++t) ts.emplace_back(work, t, r.next());
    work(0, r.next());
    for (auto &t : ts) t.join();

    std::vector<MetaType_ID> of(n);
    std::unordered_map<std::size_t, int> owner;
    for (std::size_t k = 0; k < v.size(); ++k)
    {
        auto &i = v[k];
        auto id = ids[0][k];
        at("types", i.spell);
        for (unsigned t = 0; t < threads; ++t)
            check(ids[t][k] == id, "id:differs-between-threads", i.spell);
        check(i.id() == id && i.type_id() == id, "id:changes", i.spell);
        if (of[i.index].valid())
            check(of[i.index] == id, "id:differs-between-translation-units", i.spell);
        of[i.index] = id;
        check(id.valid() == !i.is_void && (id.value() != 0) == !i.is_void, "id:zero", i.spell);
        auto ins = owner.emplace(id.value(), i.index);
        if (!ins.second && ins.first->second != i.index)
        {
            std::string other;
            for (auto &o : v) if (o.index == ins.first->second) other = o.spell;
            viol("id:shared", fmt("%s and %s have one id", i.spell, other.c_str()));
        }
        MetaType mt{id};
        check(mt.valid() == !i.is_void, "lookup:valid", i.spell);
        check(mt.typeId() == id, "lookup:by-id", i.spell);
        check(std::hash<MetaType_ID>{}(id) == std::hash<MetaType_ID>{}(i.id()) && id == i.id() && !(id != i.id()), "id:compare", i.spell);
        if (i.is_void)
        {
            check(mt.typeName() == "void", "lookup:void", "name of void");
            check(!MetaType{std::string_view{"void"}}.valid(), "lookup:void", "void found by name");
        }
        else
        {
            auto name = mt.typeName();
            check(!name.empty() && name == i.name(), "lookup:name", fmt("%s is called %s", i.spell, std::string(name).c_str()));
            std::string copy(name);
            MetaType by{std::string_view(copy)};
            check(by.valid() && by.typeId() == id, "lookup:by-name", i.spell);
            std::string longer = copy + "!";
            check(!MetaType{std::string_view(longer)}.valid(), "lookup:unknown-name", longer);
            check(!MetaType{std::string_view(copy.data(), copy.size() - 1)}.valid()
                  || MetaType{std::string_view(copy.data(), copy.size() - 1)}.typeName() == copy.substr(0, copy.size() - 1), "lookup:prefix", copy);
        }
        auto d = i.decay();
        if (!i.is_void && !i.decayed)
            check(mt.decayId() == d, "decay:id", fmt("%s decays to %s", i.spell, std::string(MetaType{mt.decayId()}.typeName()).c_str()));
        if (!i.is_void)
        {
            check(mt.decayed() == i.decayed, "decay:decayed", i.spell);
            check(mt.decayId() == d, "decay:own", i.spell);
            check(MetaType{mt.decayId()}.decayed() && MetaType{mt.decayId()}.decayId() == mt.decayId(), "decay:of-decay", i.spell);
        }
        else check(!mt.decayed() && !mt.decayId().valid(), "decay:void", i.spell);
        judge_flags(i, mt, "by id");
        eval(comb(hash_str(i.spell), ident ? threads : 0), !i.is_void);
        cov(i.p_ptr ? "pointers" : i.p_array ? "arrays" : i.p_lref || i.p_rref ? "references" : i.p_class ? "classes" : "other types");
    }
    // nothing exists under these
    for (auto s : {"", " ", "int ", "no such type", "tg::Nope", "]", "T", "void*x"})
        check(!MetaType{std::string_view{s}}.valid(), "lookup:unknown-name", s);
    check(!MetaType{MetaType_ID{}}.valid() && !MetaType{}.valid() && !MetaType{}.typeId().valid(), "lookup:zero-id", "the zero id is a type");
    check(MetaType{}.typeName() == "void" && MetaType{}.typeSize() == 0 && MetaType{}.pointerArity() == 0 && !MetaType{}.decayed()
          && !MetaType{}.decayId().valid(), "describe:invalid", "an invalid type describes something");
    // distinct ids
    if (ident)
        for (auto &s : specials)
        {
            at("special", s.what);
            auto a = special_a(s.a), b = s.cross ? special_b(s.b) : special_a(s.b);
            check(a != b, s.key, s.what);
            eval(hash_str(s.what));
        }
    else
    {
        // printing of arbitrary flag sets
        for (int k = 0; k < (S().thorough ? 200000 : 20000); ++k)
        {
            std::uint32_t f = 0;
            switch (r.below(4)) { case 0: f = 1u << r.below(24); break; case 1: f = std::uint32_t(r.next()) & 0xffffff; break;
                                  case 2: f = (1u << r.below(24)) | (1u << r.below(24)); break; default: f = std::uint32_t(r.next() & r.next() & r.next()) & 0xffffff; }
            if (k == 0) f = 0;
            std::ostringstream os;
            os << rtti::TypeFlags(f);
            check(split(os.str()) == flag_set(f), "print:flags", fmt("%x printed as %s", f, os.str().c_str()));
            eval(comb(f, 5));
        }
        cov("flag sets printed", S().thorough ? 200000 : 20000);
    }
    cov("types described", v.size());
    cov("threads used", threads);
    for (int k = 0; k < 3; ++k) { auto &i = v[r.below(v.size())]; sample(fmt("%s: name %s, size %zu, flags %x, depth %d", i.spell, std::string(i.name()).c_str(), i.size, i.flags, i.arity)); }
    return finish();
}
