// An online monitor of object lifetimes: every tracked object reports its
// construction, use and destruction to a ledger keyed by address.
#pragma once
#include "rv.h"

namespace rv {

template<typename T> struct MallocAlloc
{
    using value_type = T;
    MallocAlloc() = default;
    template<typename U> MallocAlloc(MallocAlloc<U> const &) {}
    T *allocate(std::size_t n) { return static_cast<T *>(std::malloc(n * sizeof(T))); }
    void deallocate(T *p, std::size_t) { std::free(p); }
    template<typename U> bool operator==(MallocAlloc<U> const &) const { return true; }
    template<typename U> bool operator!=(MallocAlloc<U> const &) const { return false; }
};

struct Obj
{
    char const *type;
    std::size_t size;
    std::uint64_t uid;
    bool moved;        // its value has been moved out
    bool inplace;      // small enough for a variant to keep it inside itself
};

/// Faults: the n-th event of a kind throws.
struct Injected
{
    int kind;
    explicit Injected(int k = 0) : kind(k) {}
};
struct Faults
{
    long armed = -1;         // events left until the throw; <0: off
    long seen = 0;           // events counted
    bool fired = false;
    void arm(long n) { armed = n; fired = false; seen = 0; }
    void off() { armed = -1; }
    void point(int kind)
    {
        ++seen;
        if (armed >= 0 && armed-- == 0) { fired = true; throw Injected{kind}; }
    }
};
inline Faults &faults() { static Faults f; return f; }

struct Ledger
{
    std::map<std::uintptr_t, Obj, std::less<std::uintptr_t>,
             MallocAlloc<std::pair<std::uintptr_t const, Obj>>> live;
    std::uint64_t created = 0, destroyed = 0, moved_left = 0, next_uid = 1;
    std::uint64_t copies = 0, moves = 0;
    bool quiet = false;

    void born(void const *p, char const *type, std::size_t size, bool inplace)
    {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        auto it = live.lower_bound(a + size);
        while (it != live.begin())
        {
            auto prev = std::prev(it);
            if (prev->first + prev->second.size <= a) break;
            drop(prev->second, type, "constructed over");
            live.erase(prev);
        }
        live.emplace(a, Obj{type, size, next_uid++, false, inplace});
        ++created;
    }
    void drop(Obj const &o, char const *type, char const *how)
    {
        Monitoring m;
        if (o.moved && o.inplace)
        {
            ++moved_left;
            viol("moved-from-object-never-destroyed:inplace",
                 fmt("a moved-from %s kept inside a variant was never destroyed (%s %s)", o.type, how, type));
        }
        else
            viol(std::string("overwritten-while-alive:") + (o.moved ? "moved-from:" : "") + o.type,
                 fmt("a live %s was %s by a %s", o.type, how, type));
    }
    Obj *find(void const *p, char const *type)
    {
        auto it = live.find(reinterpret_cast<std::uintptr_t>(p));
        if (it == live.end() || it->second.type != type) return nullptr;
        return &it->second;
    }
    Obj *use(void const *p, char const *type, char const *how)
    {
        auto o = find(p, type);
        Monitoring m;
        if (!o) viol(std::string("used-outside-lifetime:") + how + ":" + type,
                     fmt("%s of a %s at an address where none is alive", how, type));
        return o;
    }
    void dead(void const *p, char const *type)
    {
        Monitoring m;
        auto a = reinterpret_cast<std::uintptr_t>(p);
        auto it = live.find(a);
        if (it == live.end() || it->second.type != type)
            viol(std::string("destroyed-when-not-alive:") + type,
                 fmt("a %s was destroyed at an address where none is alive", type));
        else
            live.erase(it);
        ++destroyed;
    }
    /// Everything not older than uid `from` must be gone.
    void expect_none(std::uint64_t from, std::string const &what)
    {
        for (auto it = live.begin(); it != live.end();)
        {
            auto &o = it->second;
            if (o.uid >= from)
            {
                if (o.moved && o.inplace)
                {
                    ++moved_left;
                    viol("moved-from-object-never-destroyed:inplace",
                         fmt("a moved-from %s kept inside a variant was never destroyed (%s)", o.type, what.c_str()));
                }
                else
                    viol(std::string("never-destroyed:") + (o.moved ? "moved-from:" : "") + o.type,
                         fmt("a %s is still alive after %s", o.type, what.c_str()));
                it = live.erase(it);
            }
            else ++it;
        }
    }
    std::size_t count() const { return live.size(); }
    /// How many tracked objects live at [p, p + size).
    std::size_t within(void const *p, std::size_t size) const
    {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        std::size_t n = 0;
        for (auto it = live.lower_bound(a); it != live.end() && it->first < a + size; ++it) ++n;
        return n;
    }
    std::size_t count_since(std::uint64_t from, bool moved_too = false) const
    {
        std::size_t n = 0;
        for (auto &o : live) if (o.second.uid >= from && (moved_too || !(o.second.moved && o.second.inplace))) ++n;
        return n;
    }
};
inline Ledger &ledger() { static Ledger *l = new Ledger; return *l; }

// what a tracked type can do
enum : unsigned {
    CanCopy = 1, CanMove = 2, MoveNoexcept = 4, HasEq = 8, CanDefault = 16, CanAssign = 32, CopyNoexcept = 64
};
constexpr unsigned Full = CanCopy | CanMove | MoveNoexcept | HasEq | CanDefault | CanAssign;

struct Nope { explicit Nope() = default; };

template<std::size_t N> struct Pad { unsigned char b[N]; };
template<> struct Pad<0> {};

/// A type named by Tag, of at least Size bytes, aligned to Align, with the abilities in F.
template<int Tag, std::size_t Size, unsigned F = Full, std::size_t Align = 4>
struct alignas(Align) Tr : Pad<(Size > 4 ? Size - 4 : 0)>
{
    static constexpr unsigned flags = F;
    static constexpr int tag = Tag;
    int v = 0;

    static char const *name()
    {
        Monitoring m;
        static std::string const *s = new std::string(
            fmt("Tr<%d,size=%zu,align=%zu%s%s%s>", Tag, sizeof(Tr), alignof(Tr), F & CanCopy ? "" : ",no-copy",
                F & CanMove ? "" : ",no-move", (F & CanMove) && !(F & MoveNoexcept) ? ",throwing-move" : ""));
        return s->c_str();
    }
    static constexpr bool inplace() { return sizeof(Tr) <= 16 && alignof(Tr) <= 8 && (F & CanMove) && (F & MoveNoexcept); }

    void misaligned() const
    {
        Monitoring m;
        if (reinterpret_cast<std::uintptr_t>(this) % alignof(Tr))
            viol(std::string("misaligned:") + name(), fmt("a %s lives at %p, which is not a multiple of %zu", name(), (void const *)this, alignof(Tr)));
    }
    void birth(int val) { v = val; misaligned(); ledger().born(this, name(), sizeof(Tr), inplace()); }
    void copy_from(Tr const &o)
    {
        ledger().use(&o, name(), "copy");
        ++ledger().copies;
        birth(o.v);
    }
    void move_from(Tr &o)
    {
        auto p = ledger().use(&o, name(), "move");
        ++ledger().moves;
        int val = o.v;
        if (p) p->moved = true;
        o.v = -1;
        birth(val);
    }

    template<unsigned G = F, std::enable_if_t<(G & CanDefault) != 0, int> = 0>
    Tr() { faults().point(0); birth(0); }
    explicit Tr(int val) { faults().point(0); birth(val); }
    ~Tr() { ledger().dead(this, name()); v = -2; }

    // exactly one of the two overloads is a copy constructor, the other can never be called
    Tr(std::conditional_t<(F & CanCopy) != 0, Tr, Nope> const &o) noexcept((F & CopyNoexcept) != 0)
    { if constexpr((F & CanCopy) != 0) { if (!(F & CopyNoexcept)) faults().point(1); copy_from(o); } }
    Tr(std::conditional_t<(F & CanCopy) == 0, Tr, Nope> const &) = delete;

    Tr(std::conditional_t<(F & CanMove) != 0, Tr, Nope> &&o) noexcept((F & MoveNoexcept) != 0)
    { if constexpr((F & CanMove) != 0) { if (!(F & MoveNoexcept)) faults().point(2); move_from(o); } }

    Tr &operator=(std::conditional_t<(F & CanAssign) != 0, Tr, Nope> const &o)
    {
        if constexpr((F & CanAssign) != 0)
        {
            faults().point(3);
            ledger().use(&o, name(), "copy-assign-from");
            auto p = ledger().use(this, name(), "assign-to");
            if (p) p->moved = false;
            v = o.v;
        }
        return *this;
    }
    template<unsigned G = F, std::enable_if_t<(G & HasEq) != 0, int> = 0>
    friend bool operator==(Tr const &a, Tr const &b)
    {
        ledger().use(&a, name(), "compare");
        ledger().use(&b, name(), "compare");
        faults().point(4);
        return a.v == b.v;
    }
    int value() const { ledger().use(this, name(), "read"); return v; }
};

} // namespace rv
