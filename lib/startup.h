// A program most of which happens before main and after it (C23). What it does is told by the
// environment, what happened goes to a pipe as an event log which the process that started it judges.
#pragma once
#include <rtti/metadefine.h>
#include <array>
#include <atomic>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace start {
constexpr int UNITS = 6, KINDS = 19;
enum Kind { TYPES, CLASS, DERIVED, LAZY, CONVERTER, METHOD_CONVERTER, STATICS, THREAD_LOCALS, CONTAINERS, ENUM, FUNCTIONS,
    UNREGISTER, CLOSER, LATE, JOINED_THREAD, EMPTY, ERRORS, AT_EXIT, OWNED };
enum Phase { STARTUP, MAIN, SHUTDOWN };

// all of this is constant-initialised
extern std::atomic<unsigned> next_id;
extern std::atomic<int> phase;
extern std::atomic<bool> program_started;
extern std::atomic<unsigned> done[UNITS];
extern thread_local bool optional;   // values made now may never be destroyed
void log(char op, unsigned a, unsigned b = 0);
void bad(char const *key, char const *what, int unit, int kind);
/// Does what the script lists under this key.
void run(char const *key);
void step(int unit, int kind);
void verify(int unit, unsigned mask);
std::string key_of(char kind, int unit);

/// A value whose life can be read from the log.
template<int Words, bool NoThrow>
struct Value
{
    Value const *self = this;
    unsigned id = next_id++;
    int v;
    long pad[Words > 0 ? Words : 1];
    explicit Value(int v = 0) : v(v) { born(); }
    Value(Value const &o) : v(o.v) { o.alive(); born(); }
    Value(Value &&o) noexcept(NoThrow) : v(o.v) { o.alive(); born(); }
    Value &operator=(Value const &o) { alive(); o.alive(); v = o.v; return *this; }
    ~Value() { alive(); self = nullptr; log('D', id); }
    bool operator==(Value const &o) const { return v == o.v; }
    void born() { log(optional ? 'O' : 'C', id); }
    void alive() const { if (self != this) bad("value", "use of a value that does not exist", 0, 0); }
};
template<>
struct Value<0, true>
{
    Value const *self = this;
    unsigned id = next_id++;
    int v;
    explicit Value(int v = 0) : v(v) { born(); }
    Value(Value const &o) : v(o.v) { o.alive(); born(); }
    Value(Value &&o) noexcept : v(o.v) { o.alive(); born(); log('M', o.id); }   // known: what is left of it may stay
    Value &operator=(Value const &o) { alive(); o.alive(); v = o.v; return *this; }
    ~Value() { alive(); self = nullptr; log('D', id); }
    bool operator==(Value const &o) const { return v == o.v; }
    void born() { log(optional ? 'O' : 'C', id); }
    void alive() const { if (self != this) bad("value", "use of a value that does not exist", 0, 0); }
};
using Small = Value<0, true>;       // kept inside a variant
using Large = Value<5, true>;       // on the heap
using Throwing = Value<1, false>;

template<int N> struct Cls
{
    int v = N;
    Large part{N};
    Cls() {}
    explicit Cls(int v) : v(v) {}
    virtual ~Cls() {}
    int get() const { return v; }
    void set(int x) { v = x; }
    int to_int() const { return v * 10; }
    static int twice(int x) { return 2 * x; }
    DECLARE_CLASSINFO
};
template<int N> struct Der : Cls<N>, Cls<(N + 1) % UNITS>
{
    int d = 7;
    int der() const { return d + N; }
    DECLARE_CLASSINFO
};
template<int N> struct Lazy { int answer() const { return 42 + N; } };
template<int N> struct Alone { int v = N; };
template<int N> struct Enum { enum class Of { A = N, B }; };
template<int N> int twice(int x) { return 2 * x + N; }
template<int N> int static_value = N;

/// One variant of the whole program, initialised by nobody knows which file.
inline rtti::variant shared_inline{Large{77}};
template<int N> struct Holder { static rtti::variant v; };
template<int N> rtti::variant Holder<N>::v{Small{88}};
} // namespace start
