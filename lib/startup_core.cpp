#include "startup.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <sys/auxv.h>
#include <unistd.h>

namespace start {
std::atomic<unsigned> next_id{1};
std::atomic<int> phase{STARTUP};
std::atomic<bool> program_started{false};
std::atomic<unsigned> done[UNITS] = {};
thread_local bool optional = false;

static void line(char const *b, std::size_t n)
{
    static std::atomic<int> fd{-1};
    if (fd < 0) { auto *e = std::getenv("RV_LOG_FD"); fd = e ? std::atoi(e) : 2; }
    while (n) { auto w = ::write(fd, b, n); if (w <= 0) ::_exit(9); b += w; n -= std::size_t(w); }
}
void log(char op, unsigned a, unsigned b)
{
    char t[64];
    line(t, std::size_t(std::snprintf(t, sizeof t, "%c %u %u %d\n", op, a, b, phase.load())));
}
void bad(char const *key, char const *what, int unit, int kind)
{
    char t[512];
    line(t, std::size_t(std::snprintf(t, sizeof t, "V %s unit %d kind %d phase %d: %.300s\n", key, unit, kind, phase.load(), what)));
}
std::string key_of(char kind, int unit) { char t[] = {kind, char('0' + unit), 0}; return t; }

void step0(int); void step1(int); void step2(int); void step3(int); void step4(int); void step5(int);
void verify0(unsigned); void verify1(unsigned); void verify2(unsigned); void verify3(unsigned); void verify4(unsigned); void verify5(unsigned);
void step(int unit, int kind)
{
    using f = void (*)(int);
    static constexpr f steps[] = {&step0, &step1, &step2, &step3, &step4, &step5};
    if (done[unit] & (1u << kind)) return;
    // a library that is initialised before the program leaves the program's own files alone: what
    // they make would end before what the library made earlier
    auto foreign = [](int u) {
        Dl_info a, b;
        return !program_started && dladdr(reinterpret_cast<void *>(steps[u]), &a) && dladdr(reinterpret_cast<void *>(::getauxval(AT_ENTRY)), &b) && a.dli_fbase == b.dli_fbase;
    };
    if (foreign(unit) || (kind == DERIVED && foreign((unit + 1) % UNITS))) return;
    if (kind == DERIVED) { step(unit, CLASS); step((unit + 1) % UNITS, CLASS); }
    if (kind == UNREGISTER) step(unit, CONVERTER);
    try { steps[unit](kind); }
    catch (std::exception const &e) { bad("step", e.what(), unit, kind); return; }
    catch (...) { bad("step", "exception", unit, kind); return; }
    done[unit] |= 1u << kind;
    log('S', unsigned(unit), unsigned(kind));
}
void verify(int unit, unsigned mask)
{
    using f = void (*)(unsigned);
    static constexpr f verifies[] = {&verify0, &verify1, &verify2, &verify3, &verify4, &verify5};
    try { verifies[unit](mask); }
    catch (std::exception const &e) { bad("verify", e.what(), unit, -1); }
    catch (...) { bad("verify", "exception", unit, -1); }
    log('Y', unsigned(unit), unsigned(__builtin_popcount(mask)));
}
// the script: "key=unit.kind,unit.kind;key=..."
void run(char const *key)
{
    auto *s = std::getenv("RV_SCRIPT");
    auto n = std::strlen(key);
    while (s && *s)
    {
        if (!std::strncmp(s, key, n) && s[n] == '=')
        {
            s += n + 1;
            while (*s && *s != ';')
            {
                int u = int(std::strtol(s, const_cast<char **>(&s), 10));
                int k = int(std::strtol(s + 1, const_cast<char **>(&s), 10));
                step(u, k);
                verify(u, done[u]);
                if (*s == ',') ++s;
            }
            return;
        }
        s = std::strchr(s, ';');
        if (s) ++s;
    }
}
} // namespace start
