// Monitor of storage: replaces the global allocation functions (include in
// exactly one translation unit of a harness; not in ThreadSanitizer builds).
// Allocations made while a Scope is open are remembered until they are freed.
#pragma once
#include "rv.h"
#include "tracked.h"
#include <new>
#include <unordered_map>

namespace rv::alloc {

struct Blk { std::size_t size; bool aligned; std::uint64_t seq; };
using Map = std::unordered_map<void *, Blk, std::hash<void *>, std::equal_to<void *>,
                               MallocAlloc<std::pair<void *const, Blk>>>;
struct State
{
    Map live;
    int on = 0;
    long fail = -1;          // tracked allocations left until one fails
    long seen = 0;
    bool fired = false;
    std::uint64_t seq = 0, total = 0, mismatched = 0;
    bool busy = false;
};
inline State &st()
{
    static State *s = [] { auto p = static_cast<State *>(std::malloc(sizeof(State))); return new (p) State; }();
    return *s;
}
struct Scope
{
    Scope() { ++st().on; }
    ~Scope() { --st().on; }
};
struct Pause
{
    int was;
    Pause() : was(st().on) { st().on = 0; }
    ~Pause() { st().on = was; }
};
inline void arm(long n) { st().fail = n; st().seen = 0; st().fired = false; }
inline void off() { st().fail = -1; }

inline void *get(std::size_t n, std::size_t al, bool nothrow)
{
    auto &s = st();
    if (s.on && !s.busy && !monitoring())
    {
        ++s.seen;
        if (s.fail >= 0 && s.fail-- == 0)
        {
            s.fired = true;
            if (nothrow) return nullptr;
            throw std::bad_alloc{};
        }
    }
    void *p = nullptr;
    if (al) { if (posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n ? n : 1)) p = nullptr; }
    else p = std::malloc(n ? n : 1);
    if (!p)
    {
        if (nothrow) return nullptr;
        throw std::bad_alloc{};
    }
    if (s.on && !s.busy && !monitoring())
    {
        s.busy = true;
        s.live[p] = Blk{n, al != 0, ++s.seq};
        ++s.total;
        s.busy = false;
    }
    return p;
}
inline void put(void *p, bool aligned)
{
    if (!p) return;
    auto &s = st();
    if (!s.busy && !s.live.empty())
        if (auto it = s.live.find(p); it != s.live.end())
        {
            bool bad = it->second.aligned != aligned;
            s.busy = true;
            s.live.erase(it);
            s.busy = false;
            if (bad && ++s.mismatched < 4)
                viol("mismatched-deallocation", aligned ? "plain storage returned with an aligned delete"
                                                        : "over-aligned storage returned with a plain delete");
        }
    std::free(p);
}
inline std::size_t live() { return st().live.size(); }
inline std::string describe()
{
    std::string r;
    int n = 0;
    for (auto &b : st().live)
    {
        if (n++ == 4) { r += "..."; break; }
        r += fmt("%zu bytes; ", b.second.size);
    }
    return r;
}
inline void forget() { auto &s = st(); s.busy = true; s.live.clear(); s.busy = false; }

/// Runs f; if storage taken in its scopes is left, runs it again, and reports
/// only what is left then too (first use registers types for good).
template<typename F> void leak_checked(std::string const &key, F &&f)
{
    forget();
    f();
    if (!live()) return;
    forget();
    f();
    if (live())
    {
        viol(key, fmt("%zu blocks of storage are never returned: %s", live(), describe().c_str()));
        forget();
    }
}

} // namespace rv::alloc

void *operator new(std::size_t n) { return rv::alloc::get(n, 0, false); }
void *operator new[](std::size_t n) { return rv::alloc::get(n, 0, false); }
void *operator new(std::size_t n, std::nothrow_t const &) noexcept { return rv::alloc::get(n, 0, true); }
void *operator new[](std::size_t n, std::nothrow_t const &) noexcept { return rv::alloc::get(n, 0, true); }
void *operator new(std::size_t n, std::align_val_t a) { return rv::alloc::get(n, std::size_t(a), false); }
void *operator new[](std::size_t n, std::align_val_t a) { return rv::alloc::get(n, std::size_t(a), false); }
void operator delete(void *p) noexcept { rv::alloc::put(p, false); }
void operator delete[](void *p) noexcept { rv::alloc::put(p, false); }
void operator delete(void *p, std::size_t) noexcept { rv::alloc::put(p, false); }
void operator delete[](void *p, std::size_t) noexcept { rv::alloc::put(p, false); }
void operator delete(void *p, std::nothrow_t const &) noexcept { rv::alloc::put(p, false); }
void operator delete(void *p, std::align_val_t) noexcept { rv::alloc::put(p, true); }
void operator delete[](void *p, std::align_val_t) noexcept { rv::alloc::put(p, true); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { rv::alloc::put(p, true); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { rv::alloc::put(p, true); }
