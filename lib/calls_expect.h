// What calls.h's arguments may become when they are bound to its parameters.
#pragma once
#include "calls.h"

namespace calls {
template<> std::unique_ptr<Source> make_source_group<0>(int);
template<> std::unique_ptr<Source> make_source_group<1>(int);
template<> std::unique_ptr<Source> make_source_group<2>(int);
template<> std::unique_ptr<Source> make_source_group<3>(int);

template<typename T> void prepare(std::unique_ptr<Source> &s, int v, int mode, int payload)
{
    s->v = v; s->mode = mode; s->payload = payload;
    static_cast<SourceOf<T> *>(s.get())->setup();
}
struct EmptySource : Source
{
    variant var;
    argument arg() override { return mode % 3 == 0 ? argument{var} : mode % 3 == 1 ? argument{std::as_const(var)} : argument{std::move(var)}; }
    variant call(rtti::MetaMethod const *m, variant *inst, variant const *cinst) override
    {
        if (inst) return m->invoke(*inst, var);
        if (cinst) return m->invoke(*cinst, std::as_const(var));
        return m->invoke(std::move(var));
    }
    variant construct(rtti::MetaConstructor const *c) override { return c->invoke(var); }
    void set(rtti::MetaProperty const *p, variant *inst, variant const *cinst, char const *name) override
    {
        if (name) inst->set_property(name, var);
        else if (inst) p->set(*inst, std::as_const(var));
        else if (cinst) p->set(*cinst, std::move(var));
        else p->set(var);
    }
    void const *object() const override { return nullptr; }
    long value() const override { return 0; }
    bool intact() const override { return var.empty(); }
};
inline std::unique_ptr<Source> make_source(int v, int mode, int payload)
{
    if (v == VALS)
    {
        auto e = std::make_unique<EmptySource>();
        e->v = v; e->mode = mode; e->payload = payload;
        return e;
    }
    auto s = v < 4 ? make_source_group<0>(v) : v < 7 ? make_source_group<1>(v) : v < 10 ? make_source_group<2>(v) : make_source_group<3>(v);
    switch (v)
    {
#define PREP(n) case n: prepare<V##n>(s, v, mode, payload); break;
    PREP(0) PREP(1) PREP(2) PREP(3) PREP(4) PREP(5) PREP(6) PREP(7) PREP(8) PREP(9) PREP(10) PREP(11) PREP(12)
    }
    return s;
}
enum Rel { NONE, SAME, UPCAST, PTRQUAL, PTRUP, CONV };
inline Rel relation(int s, int v, bool der = false)
{
    if (s == 10 && v == 11 && der) return PTRUP;   // known by its class info to point to a Der
    if (s == VALS) return NONE;
    if (s == v) return SAME;
    if (s == 7 && v == 6) return UPCAST;
    if ((s == 8 && v == 9) || (s == 10 && v == 12)) return PTRQUAL;
    if (s == 11 && (v == 10 || v == 12)) return PTRUP;
    if ((s == 4 && v == 0) || (s == 1 && v == 0) || (s == 5 && v == 4) || (s == 0 && v == 5)) return CONV;
    return NONE;
}
inline bool numeric(std::string const &s) { return s.find("not") == std::string::npos; }
inline T0 int_to_t0(int i) { return T0(i + 1); }
inline T0 t1_to_t0(T1 const &x) { return T0(x.value() + 2); }
inline int string_to_int(std::string s, bool &ok) { ok = numeric(s); return ok ? std::stoi(s) : 0; }
inline std::string t0_to_string(T0 const &x) { return "converted " + std::to_string(x.value()); }

// What may become of one argument.
constexpr unsigned E = 1, ID = 2, CP = 4;       // error; the caller's object itself; a copy, temporary or converted value
struct Expect { unsigned set = E; long value = 0; void const *address = nullptr; };

inline long pointer_value(Source const &s, int v)
{
    // the pointer as the target type sees it
    auto raw = s.value();
    if (s.v == 10 && v == 11) return reinterpret_cast<long>(static_cast<void const *>(static_cast<Der const *>(reinterpret_cast<Base2 const *>(raw))));
    if (s.v == 11) return reinterpret_cast<long>(static_cast<void const *>(static_cast<Base2 const *>(reinterpret_cast<Der const *>(raw))));
    return raw;
}
/// What may become of an argument standing in the given relation to a parameter's type.
inline unsigned outcomes(int rel, int m, int form, bool copyable)
{
    bool rvalue = m == M_R || m == M_CR || m == M_VR_VAL || m == M_VR_REF || m == M_VR_CREF;
    bool is_mutable = m == M_L || m == M_R || m == M_VL_VAL || m == M_VL_REF || m == M_VR_VAL || m == M_VR_REF;
    if (rel == NONE) return E;
    switch (form)
    {
    case VAL: return copyable ? CP : rvalue && is_mutable ? (E | CP) : E;
    case CLREF: return rel == SAME || rel == UPCAST ? ID : rel == CONV ? CP : (ID | CP);
    case LREF: return (rel == SAME || rel == UPCAST) && !rvalue && is_mutable ? ID : E;
    default:
        if (!rvalue) return rel == SAME || rel == UPCAST ? E : (E | CP);
        if (rel == CONV) return m == M_R || m == M_VR_VAL ? CP : (CP | E);
        if (rel == PTRQUAL || rel == PTRUP) return ID | CP | E;
        if (m == M_R) return ID;
        if (m == M_VR_VAL) return ID | (copyable ? CP : 0);
        if (m == M_VR_REF) return ID | E | (copyable ? CP : 0);
        return E | (copyable ? CP : 0);
    }
}
inline Expect expect(Source const &s, Param p)
{
    Expect e;
    auto rel = relation(s.v, p.v, s.payload % 2 == 0);
    if (rel == NONE) return e;
    e.address = rel == UPCAST ? s.base2() : s.object();
    switch (rel)
    {
    case SAME: case UPCAST: e.value = s.value(); break;
    case PTRQUAL: case PTRUP: e.value = pointer_value(s, p.v); break;
    default:
        if (s.v == 4) e.value = s.value() + 1;
        else if (s.v == 1) e.value = s.value() + 2;
        else if (s.v == 0) e.value = rd("converted " + std::to_string(s.value()));
        else
        {
            auto text = Make<std::string>::make(s.payload);
            if (!numeric(*text)) return e;
            e.value = std::stoi(*text);
        }
    }
    e.set = outcomes(rel, s.mode, p.form, p.v != 3);
    return e;
}

inline void register_value_converters()
{
    rtti::MetaType::registerConverter<int, T0>(&int_to_t0);
    rtti::MetaType::registerConverter<T1, T0>([](T1 const &x) { return t1_to_t0(x); });
    rtti::MetaType::registerConverter<std::string, int>([](std::string const &s, bool &ok) { return string_to_int(s, ok); });
    rtti::MetaType::registerConverter<T0, std::string>([](T0 const &x) { return t0_to_string(x); });
}

} // namespace calls
