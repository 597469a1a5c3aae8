// Observes and disturbs the schedule: every lock and unlock of the process goes through here
// (link with the options of delay_flags), is counted, noted in a trace from which the interleaving
// is told, and delayed at random. All of it with relaxed atomics, so that no order between threads
// is made that the code under test does not make.
#pragma once
#include "rv.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <ctime>

namespace rv::sched {
constexpr auto rel = std::memory_order_relaxed;
constexpr unsigned TRACE = 1u << 15;
inline std::atomic<bool> on_{false};
inline std::atomic<unsigned> events_{0};
inline std::atomic<unsigned> strength_{8};
inline std::atomic<unsigned char> trace_[TRACE];
struct Self
{
    std::uint64_t x = 0;
    unsigned char id = 0;
};
inline thread_local Self self_;

inline std::uint64_t next()
{
    auto &x = self_.x;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return x;
}
inline void nap(unsigned us)
{
    timespec t{0, long(us) * 1000};
    ::nanosleep(&t, nullptr);
}
/// A point at which the schedule may change.
inline void point(unsigned char what)
{
    if (!self_.id || !on_.load(rel)) return;
    auto n = events_.fetch_add(1, rel);
    if (n < TRACE) trace_[n].store(static_cast<unsigned char>(self_.id * 8 + what), rel);
    auto r = next();
    auto s = strength_.load(rel);
    if (r % 64 >= s) return;
    switch ((r >> 8) % 8)
    {
    case 0: case 1: case 2: ::sched_yield(); break;
    case 3: case 4: for (unsigned k = (r >> 16) % 2000; k--;) asm volatile("" ::: "memory"); break;
    case 5: case 6: nap(unsigned((r >> 16) % 40)); break;
    default: nap(unsigned((r >> 16) % 300)); break;
    }
}
/// First thing in a thread of a case.
inline void enter(int id, std::uint64_t seed) { self_.id = static_cast<unsigned char>(id + 1); self_.x = seed | 1; }
inline void begin(unsigned strength) { events_.store(0, rel); strength_.store(strength, rel); on_.store(true, rel); }
/// After all threads have been joined: tells the interleaving.
inline std::uint64_t end()
{
    on_.store(false, rel);
    auto n = events_.load(rel);
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned k = 0; k < std::min(n, TRACE); ++k) h = (h ^ trace_[k].load(rel)) * 1099511628211ull;
    cov("lock operations observed", n);
    unsigned switches = 0;
    for (unsigned k = 1; k < std::min(n, TRACE); ++k) switches += (trace_[k].load(rel) >> 3) != (trace_[k - 1].load(rel) >> 3);
    cov("switches between threads observed", switches);
    return h;
}
} // namespace rv::sched

#ifdef RV_WRAP_LOCKS
extern "C" {
#define RV_WRAP(NAME, ARG, BEFORE, AFTER)                                        \
    int __real_##NAME(ARG *);                                                    \
    int __wrap_##NAME(ARG *m);                                                   \
    int __wrap_##NAME(ARG *m)                                                    \
    {                                                                            \
        if (BEFORE) rv::sched::point(BEFORE);                                    \
        int r = __real_##NAME(m);                                                \
        if (AFTER) rv::sched::point(AFTER);                                      \
        return r;                                                                \
    }
RV_WRAP(pthread_mutex_lock, pthread_mutex_t, 1, 0)
RV_WRAP(pthread_mutex_unlock, pthread_mutex_t, 0, 2)
RV_WRAP(pthread_rwlock_rdlock, pthread_rwlock_t, 3, 0)
RV_WRAP(pthread_rwlock_wrlock, pthread_rwlock_t, 4, 0)
RV_WRAP(pthread_rwlock_unlock, pthread_rwlock_t, 0, 5)
}
#endif
