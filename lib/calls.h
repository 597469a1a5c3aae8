// Functions of every shape, callable through the library with arguments of every shape.
// What a function was really given is written into a log; what it should have been given
// is worked out by harness/calls.cpp from the rules of C++ reference binding.
#pragma once
#include "tracked.h"
#include <rtti/metadefine.h>
#include <memory>
#include <string>
#include <vector>

namespace calls {
using namespace rv;
using rtti::argument;
using rtti::variant;

using T0 = Tr<300, 4>;
using T1 = Tr<301, 80>;
using T2 = Tr<302, 24, CanCopy | HasEq>;
using T3 = Tr<303, 8, CanMove | MoveNoexcept | HasEq>;

struct PadA { virtual ~PadA() {} long pad = 7; };
struct Base2
{
    T0 t;
    explicit Base2(int p = 0) : t(p) {}
    virtual ~Base2() {}
    DECLARE_CLASSINFO
};
struct Der : PadA, Base2
{
    explicit Der(int p = 0) : Base2(p) {}
    DECLARE_CLASSINFO
};

using V0 = T0; using V1 = T1; using V2 = T2; using V3 = T3; using V4 = int; using V5 = std::string;
using V6 = Base2; using V7 = Der; using V8 = T0 *; using V9 = T0 const *; using V10 = Base2 *; using V11 = Der *;
using V12 = Base2 const *;
constexpr int VALS = 13;

template<typename T> struct Vi;
#define CALLS_VI(n) template<> struct Vi<V##n> { static constexpr int value = n; };
CALLS_VI(0) CALLS_VI(1) CALLS_VI(2) CALLS_VI(3) CALLS_VI(4) CALLS_VI(5) CALLS_VI(6) CALLS_VI(7) CALLS_VI(8) CALLS_VI(9)
CALLS_VI(10) CALLS_VI(11) CALLS_VI(12)

enum Form { VAL, LREF, CLREF, RREF };
enum Mode { M_L, M_CL, M_R, M_CR, M_VL_VAL, M_VL_REF, M_VL_CREF, M_VC_VAL, M_VC_REF, M_VC_CREF, M_VR_VAL, M_VR_REF, M_VR_CREF, MODES };
inline char const *mode_name(int m)
{
    static char const *const n[] = {"lvalue", "const lvalue", "rvalue", "const rvalue", "variant&(value)", "variant&(ref)", "variant&(cref)",
                                    "variant const&(value)", "variant const&(ref)", "variant const&(cref)", "variant&&(value)",
                                    "variant&&(ref)", "variant&&(cref)"};
    return n[m];
}
inline char const *val_name(int v)
{
    static char const *const n[] = {"T0", "T1", "CopyOnly", "MoveOnly", "int", "string", "Base2", "Der", "T0*", "T0 const*", "Base2*", "Der*", "Base2 const*", "(empty variant)"};
    return n[v];
}
inline char const *form_name(int f)
{
    static char const *const n[] = {"", "&", " const&", "&&"};
    return n[f];
}

// The pool that pointer values point into.
struct Pool
{
    T0 t[4] = {T0(500), T0(501), T0(502), T0(503)};
    Base2 b[4] = {Base2(510), Base2(511), Base2(512), Base2(513)};
    Der d[4] = {Der(520), Der(521), Der(522), Der(523)};
};
inline Pool &pool() { static Pool *p = new Pool; return *p; }

/// Value of an object as one number; pointers by address.
inline long rd(T0 const &x) { return x.value(); }
inline long rd(T1 const &x) { return x.value(); }
inline long rd(T2 const &x) { return x.value(); }
inline long rd(T3 const &x) { return x.value(); }
inline long rd(int const &x) { return x; }
inline long rd(std::string const &x) { return long(hash_str(x) >> 1); }
inline long rd(Base2 const &x) { return x.t.value(); }
inline long rd(Der const &x) { return x.t.value(); }
template<typename T> long rd(T *const &p) { return reinterpret_cast<long>(static_cast<void const *>(p)); }

template<typename T> struct Make
{
    static std::unique_ptr<T> make(int p) { return std::make_unique<T>(p); }
};
template<> struct Make<int> { static std::unique_ptr<int> make(int p) { return std::make_unique<int>(p); } };
template<> struct Make<std::string>
{
    // every fifth one is not a number; some are long
    static std::unique_ptr<std::string> make(int p)
    {
        if (p % 5 == 0) return std::make_unique<std::string>("not a number " + std::to_string(p));
        return std::make_unique<std::string>(std::string(p % 2 ? 40 : 0, ' ') + std::to_string(p));
    }
};
template<> struct Make<T0 *> { static std::unique_ptr<T0 *> make(int p) { return std::make_unique<T0 *>(&pool().t[p % 4]); } };
template<> struct Make<T0 const *> { static std::unique_ptr<T0 const *> make(int p) { return std::make_unique<T0 const *>(&pool().t[p % 4]); } };
template<> struct Make<Base2 *> { static std::unique_ptr<Base2 *> make(int p) { return std::make_unique<Base2 *>(p % 2 ? &pool().b[p % 4] : &pool().d[p % 4]); } };
template<> struct Make<Der *> { static std::unique_ptr<Der *> make(int p) { return std::make_unique<Der *>(&pool().d[p % 4]); } };
template<> struct Make<Base2 const *> { static std::unique_ptr<Base2 const *> make(int p) { return std::make_unique<Base2 const *>(&pool().b[p % 4]); } };

// What a function does to a mutable reference, and what that leaves behind.
inline void change(T0 &x) { ledger().use(&x, T0::name(), "write"); x.v += 1000; }
inline void change(T1 &x) { ledger().use(&x, T1::name(), "write"); x.v += 1000; }
inline void change(T2 &x) { ledger().use(&x, T2::name(), "write"); x.v += 1000; }
inline void change(T3 &x) { ledger().use(&x, T3::name(), "write"); x.v += 1000; }
inline void change(int &x) { x += 1000; }
inline void change(std::string &x) { x += "!"; }
inline void change(Base2 &x) { change(x.t); }
inline void change(T0 *&x) { x = &pool().t[(x - pool().t + 1) % 4]; }
inline void change(T0 const *&x) { x = &pool().t[(x - pool().t + 1) % 4]; }
inline void change(Base2 *&x) { x = x == &pool().b[3] ? &pool().b[2] : &pool().b[3]; }
inline void change(Der *&x) { x = &pool().d[(x - pool().d + 1) % 4]; }
inline void change(Base2 const *&x) { x = x == &pool().b[0] ? &pool().b[1] : &pool().b[0]; }

//------------------------------------------------------------------ the log
struct Got
{
    void const *address;
    long value;
    int form;
};
struct Call
{
    int id;
    void const *self;
    bool is_const;
    std::vector<Got> got;
};
struct Recorder
{
    std::vector<Call> calls;
    bool throws = false, consume = false;
};
inline Recorder &rec() { static Recorder *r = new Recorder; return *r; }
struct Boom { int id; };

template<typename P> struct ParamOf
{
    using V = std::remove_cv_t<std::remove_reference_t<P>>;
    static constexpr int form = std::is_rvalue_reference_v<P> ? RREF : !std::is_lvalue_reference_v<P> ? VAL
                                : std::is_const_v<std::remove_reference_t<P>> ? CLREF : LREF;
};
template<typename P> void note(Call &c, std::remove_reference_t<P> &p)
{
    c.got.push_back({static_cast<void const *>(std::addressof(p)), rd(p), ParamOf<P>::form});
}
template<typename P> void effect(std::remove_reference_t<P> &p)
{
    constexpr int f = ParamOf<P>::form;
    using V = typename ParamOf<P>::V;
    if constexpr (f == LREF) change(p);
    if constexpr (f == RREF && std::is_move_constructible_v<V>)
        if (rec().consume) { V sink(std::move(p)); (void)sink; }
}

//------------------------------------------------------------------ results
struct Slots
{
    T0 t0{900};
    T3 t3{901};
    Der der{902};
};
inline Slots &slots() { static Slots *s = new Slots; return *s; }
enum Ret { R_VOID, R_INT, R_T0, R_T1, R_T2, R_T3, R_STR, R_T0L, R_T0CL, R_T0P, R_B2L, R_T3L, R_DERP, R_VAR, RETS };
template<int R> struct RetType;
#define CALLS_RET(r, T, expr) template<> struct RetType<r> { using type = T; static type make([[maybe_unused]] int id) { return expr; } };
CALLS_RET(R_VOID, void, void())
CALLS_RET(R_INT, int, id * 3)
CALLS_RET(R_T0, T0, T0(id * 3))
CALLS_RET(R_T1, T1, T1(id * 3))
CALLS_RET(R_T2, T2, T2(id * 3))
CALLS_RET(R_T3, T3, T3(id * 3))
CALLS_RET(R_STR, std::string, "result of " + std::to_string(id))
CALLS_RET(R_T0L, T0 &, slots().t0)
CALLS_RET(R_T0CL, T0 const &, slots().t0)
CALLS_RET(R_T0P, T0 *, &slots().t0)
CALLS_RET(R_B2L, Base2 &, slots().der)
CALLS_RET(R_T3L, T3 &, slots().t3)
CALLS_RET(R_DERP, Der *, &slots().der)
CALLS_RET(R_VAR, variant, variant{id * 3})

template<typename P> struct Visit
{
    std::remove_reference_t<P> &p;
    void operator()(Call &c)
    {
        { Monitoring mon; note<P>(c, p); }
        effect<P>(p);
    }
};

template<int Id, int R, typename... P> struct Fn
{
    static typename RetType<R>::type call(P... p) { return run(nullptr, false, p...); }
    static typename RetType<R>::type ncall(P... p) noexcept { return run(nullptr, false, p...); }
    static typename RetType<R>::type run(void const *self, bool is_const, std::remove_reference_t<P> &...p)
    {
        {
            Monitoring mon;
            rec().calls.push_back({Id, self, is_const, {}});
            rec().calls.back().got.reserve(sizeof...(P));
        }
        (void)std::initializer_list<int>{0, (Visit<P>{p}(rec().calls.back()), 0)...};
        if (rec().throws) throw Boom{Id};
        return RetType<R>::make(Id);
    }
};

struct HostBase
{
    int hb = 31;
    virtual ~HostBase() {}
    template<int Id, int R, typename... P> typename RetType<R>::type bm(P... p) { return Fn<Id, R, P...>::run(this, false, p...); }
    template<int Id, int R, typename... P> typename RetType<R>::type bc(P... p) const { return Fn<Id, R, P...>::run(this, true, p...); }
    DECLARE_CLASSINFO
};
struct Host : PadA, HostBase
{
    T0 mark;
    explicit Host(int p = 0) : mark(p) {}
    template<int Id, int R, typename... P> typename RetType<R>::type m(P... p) { return Fn<Id, R, P...>::run(this, false, p...); }
    template<int Id, int R, typename... P> typename RetType<R>::type c(P... p) const { return Fn<Id, R, P...>::run(this, true, p...); }
    template<int Id, int R, typename... P> typename RetType<R>::type mr(P... p) & { return Fn<Id, R, P...>::run(this, false, p...); }
    template<int Id, int R, typename... P> typename RetType<R>::type mn(P... p) noexcept { return Fn<Id, R, P...>::run(this, false, p...); }
    template<int Id, int R, typename... P> typename RetType<R>::type cr(P... p) const noexcept { return Fn<Id, R, P...>::run(this, true, p...); }
    DECLARE_CLASSINFO
};
struct HostD : std::string, PadA, Host
{
    explicit HostD(int p = 0) : Host(p) {}
    DECLARE_CLASSINFO
};
struct Other { int x = 5; DECLARE_CLASSINFO };

enum Kind { STATIC, STATIC_IN_CLASS, STATIC_NOEXCEPT, MEMBER, MEMBER_LREF, MEMBER_NOEXCEPT, MEMBER_CONST, MEMBER_CONST_NOEXCEPT, BASE_MEMBER, BASE_MEMBER_CONST, FKINDS };
inline char const *kind_name(int k)
{
    static char const *const n[] = {"function in namespace", "static function of class", "noexcept static function of class", "method", "method &", "noexcept method",
                                    "const method", "const noexcept method", "inherited method", "inherited const method"};
    return n[k];
}
inline bool kind_const(int k) { return k == MEMBER_CONST || k == MEMBER_CONST_NOEXCEPT || k == BASE_MEMBER_CONST; }
inline bool kind_noexcept(int k) { return k == STATIC_NOEXCEPT || k == MEMBER_NOEXCEPT || k == MEMBER_CONST_NOEXCEPT; }
struct Param { int v, form; };
struct FnInfo
{
    int id, kind, ret;
    std::string name;
    std::vector<Param> params;
    rtti::MetaMethod const *method = nullptr;
};
inline std::vector<FnInfo> &table() { static auto *t = new std::vector<FnInfo>; return *t; }

template<int Id, int Kd, int R, typename... P> void reg()
{
    auto name = "f" + std::to_string(Id);
    auto g = rtti::global_define();
    if constexpr (Kd == STATIC) g._namespace("calls")._method(name, &Fn<Id, R, P...>::call);
    else if constexpr (Kd == STATIC_IN_CLASS) g._class<Host>("CallsHost")._method(name, &Fn<Id, R, P...>::call);
    else if constexpr (Kd == STATIC_NOEXCEPT) g._class<Host>("CallsHost")._method(name, &Fn<Id, R, P...>::ncall);
    else if constexpr (Kd == MEMBER_LREF) g._class<Host>("CallsHost")._method(name, &Host::mr<Id, R, P...>);
    else if constexpr (Kd == MEMBER_NOEXCEPT) g._class<Host>("CallsHost")._method(name, &Host::mn<Id, R, P...>);
    else if constexpr (Kd == MEMBER_CONST_NOEXCEPT) g._class<Host>("CallsHost")._method(name, &Host::cr<Id, R, P...>);
    else if constexpr (Kd == MEMBER) g._class<Host>("CallsHost")._method(name, &Host::m<Id, R, P...>);
    else if constexpr (Kd == MEMBER_CONST) g._class<Host>("CallsHost")._method(name, &Host::c<Id, R, P...>);
    else if constexpr (Kd == BASE_MEMBER) g._class<HostBase>("CallsHostBase")._method(name, &HostBase::bm<Id, R, P...>);
    else g._class<HostBase>("CallsHostBase")._method(name, &HostBase::bc<Id, R, P...>);
    table().push_back({Id, Kd, R, name, {Param{Vi<typename ParamOf<P>::V>::value, ParamOf<P>::form}...}, nullptr});
}

//------------------------------------------------------------------ arguments
/// An argument of value type v handed over in some mode; owns what it refers to.
struct Source
{
    int v, mode, payload;
    virtual ~Source() {}
    virtual argument arg() = 0;
    virtual variant call(rtti::MetaMethod const *m, variant *inst, variant const *cinst) = 0;   // as the only argument
    virtual variant construct(rtti::MetaConstructor const *c) = 0;
    // given directly as the new value of a property; by name if there is one
    virtual void set(rtti::MetaProperty const *p, variant *inst, variant const *cinst, char const *name) = 0;
    virtual void const *object() const = 0;          // the object that reaches the function
    virtual void const *base2() const { return nullptr; }
    virtual long value() const = 0;                  // its current value
    virtual bool intact() const = 0;                 // still there and unchanged
};
template<typename T> struct SourceOf : Source
{
    std::unique_ptr<T> obj;          // the caller's object (for value-holding variants: a record of the value)
    std::unique_ptr<variant> var;
    long before;
    void setup()
    {
        obj = Make<T>::make(payload);
        before = rd(*obj);
        switch (mode)
        {
        case M_VL_VAL: case M_VC_VAL: case M_VR_VAL:
            {
                auto tmp = Make<T>::make(payload);
                var = std::make_unique<variant>(std::move(*tmp));
            }
            break;
        case M_VL_REF: case M_VC_REF: case M_VR_REF: var = std::make_unique<variant>(std::ref(*obj)); break;
        case M_VL_CREF: case M_VC_CREF: case M_VR_CREF: var = std::make_unique<variant>(std::cref(*obj)); break;
        }
    }
    template<typename F> auto with(F &&f)
    {
        switch (mode)
        {
        case M_L: return f(*obj);
        case M_CL: return f(std::as_const(*obj));
        case M_R: return f(std::move(*obj));
        case M_CR: return f(std::move(std::as_const(*obj)));
        case M_VL_VAL: case M_VL_REF: case M_VL_CREF: return f(*var);
        case M_VC_VAL: case M_VC_REF: case M_VC_CREF: return f(std::as_const(*var));
        default: return f(std::move(*var));
        }
    }
    argument arg() override { return with([](auto &&x) { return argument{std::forward<decltype(x)>(x)}; }); }
    variant call(rtti::MetaMethod const *m, variant *inst, variant const *cinst) override
    {
        return with([&](auto &&x) {
            if (inst) return m->invoke(*inst, std::forward<decltype(x)>(x));
            if (cinst) return m->invoke(*cinst, std::forward<decltype(x)>(x));
            // the first argument could be an instance, so the library wants it to fit into a variant
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, variant> || std::is_copy_constructible_v<T>)
                return m->invoke(std::forward<decltype(x)>(x));
            else return m->invoke(argument{std::forward<decltype(x)>(x)});
        });
    }
    variant construct(rtti::MetaConstructor const *c) override
    { return with([&](auto &&x) { return c->invoke(std::forward<decltype(x)>(x)); }); }
    void set(rtti::MetaProperty const *p, variant *inst, variant const *cinst, char const *name) override
    {
        with([&](auto &&x) {
            if (name) inst->set_property(name, std::forward<decltype(x)>(x));
            else if (inst) p->set(*inst, std::forward<decltype(x)>(x));
            else if (cinst) p->set(*cinst, std::forward<decltype(x)>(x));
            else p->set(std::forward<decltype(x)>(x));
        });
    }
    T const *target() const
    {
        if (mode == M_VL_VAL || mode == M_VC_VAL || mode == M_VR_VAL) return std::as_const(*var).data<T>();
        return obj.get();
    }
    void const *object() const override { return target(); }
    void const *base2() const override
    {
        if constexpr (std::is_base_of_v<Base2, T>) return static_cast<Base2 const *>(target());
        else return nullptr;
    }
    long value() const override { return target() ? rd(*target()) : -1; }
    bool intact() const override { return target() && rd(*target()) == before; }
};
std::unique_ptr<Source> make_source(int v, int mode, int payload);
// by group of value types, to spread the compilation
template<int G> std::unique_ptr<Source> make_source_group(int v);

} // namespace calls
