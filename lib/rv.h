// Common part of every harness: command line, deterministic randomness, case
// bookkeeping and the report protocol that run.py reads.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace rv {

inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline std::uint64_t hash_bytes(void const *p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    auto c = static_cast<unsigned char const *>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline std::uint64_t hash_str(std::string_view s, std::uint64_t h = 1469598103934665603ull)
{ return hash_bytes(s.data(), s.size(), h); }
inline std::uint64_t comb(std::uint64_t a, std::uint64_t b) { return mix(mix(a) ^ (b + 0x9e3779b97f4a7c15ull)); }

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(mix(seed)) {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(std::uint64_t(hi - lo + 1))); }
    bool chance(int num, int den) { return below(den) < std::uint64_t(num); }
    template<typename C> auto &pick(C &c) { return c[below(c.size())]; }
    template<typename C> void shuffle(C &c)
    { for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[below(i)]); }
};

struct State
{
    std::uint64_t seed = 1;
    int shard = 0, shards = 1;
    bool thorough = false;
    long cases = -1;              // explicit number of cases
    long only = -1;               // run this case only
    std::string case_file, hash_file;
    std::map<std::string, std::string> opt;
    int case_fd = -1;
    long cur = -1;
    std::uint64_t evals = 0;
    std::unordered_set<std::uint64_t> hashes;
    std::map<std::string, std::uint64_t> cov;
    std::map<std::string, int> viol_count;
    int viols = 0, hard = 0, samples = 0;
    std::vector<std::string> mute;   // key prefixes another check judges
    std::string kind, case_text;
    std::mutex m;
};
inline State &S() { static State *s = new State; return *s; }

inline void init(int argc, char **argv)
{
    auto &s = S();
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shard") s.shard = std::atoi(v.c_str());
        else if (k == "--shards") s.shards = std::atoi(v.c_str());
        else if (k == "--tier") s.thorough = v == "thorough";
        else if (k == "--cases") s.cases = std::atol(v.c_str());
        else if (k == "--only-case") s.only = std::atol(v.c_str());
        else if (k == "--case-file") s.case_file = v;
        else if (k == "--hash-file") s.hash_file = v;
        else s.opt[k] = v;
    }
    if (!s.case_file.empty())
        s.case_fd = ::open(s.case_file.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
}
inline std::string opt(char const *k, char const *dflt = "")
{
    auto it = S().opt.find(k);
    return it == S().opt.end() ? dflt : it->second;
}

/// The randomness of case n; independent of how cases are spread over shards.
inline Rng case_rng(long n, std::uint64_t salt = 0) { return Rng(comb(comb(S().seed, std::uint64_t(n)), salt)); }

/// While one of these is alive the monitors themselves are at work: their allocations are not the library's.
inline int &monitoring() { static thread_local int n = 0; return n; }
struct Monitoring { Monitoring() { ++monitoring(); } ~Monitoring() { --monitoring(); } };

inline void begin_case(long n, std::string const &kind, std::string const &text = "")
{
    Monitoring mon;
    auto &s = S();
    s.cur = n;
    s.kind = kind;
    s.case_text = text;
    if (s.case_fd >= 0)
    {
        char buf[1024];
        int k = snprintf(buf, sizeof buf, "%ld %s %s", n, kind.c_str(), text.c_str());
        if (k > int(sizeof buf) - 1) k = sizeof buf - 1;
        std::memset(buf + k, 0, sizeof buf - k);
        if (::pwrite(s.case_fd, buf, sizeof buf, 0) < 0) {}
    }
}
/// Note what the running case is about to do (for crash reports).
inline void at(std::string const &kind, std::string const &text = "")
{ begin_case(S().cur, kind, text); }

inline std::string fmt(char const *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(char const *f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline std::string clean(std::string s)
{
    for (auto &c : s) if (c == '\n' || c == '\r') c = ' ';
    return s;
}

inline void viol(std::string const &key, std::string const &msg)
{
    Monitoring mon;
    auto &s = S();
    std::lock_guard<std::mutex> l(s.m);
    for (auto &p : s.mute) if (key.compare(0, p.size(), p) == 0) return;
    ++s.viols;
    if (key.compare(0, 6, "moved-") != 0) ++s.hard;
    if (++s.viol_count[key] <= 3)
    {
        std::printf("@@VIOL %s | case %ld (%s %s): %s\n", clean(key).c_str(), s.cur, s.kind.c_str(), clean(s.case_text).c_str(), clean(msg).c_str());
        std::fflush(stdout);
    }
}
inline bool check(bool ok, std::string const &key, std::string const &msg)
{
    if (!ok) viol(key, msg);
    return ok;
}
inline void cov(std::string const &name, std::uint64_t n = 1)
{
    Monitoring mon;
    auto &s = S();
    std::lock_guard<std::mutex> l(s.m);
    s.cov[name] += n;
}
inline void cov_max(std::string const &name, std::uint64_t n)
{
    auto &s = S();
    std::lock_guard<std::mutex> l(s.m);
    auto &x = s.cov["max:" + name];
    x = std::max(x, n);
}
inline void sample(std::string const &t)
{
    Monitoring mon;
    auto &s = S();
    std::lock_guard<std::mutex> l(s.m);
    if (s.samples++ < 4)
        std::printf("@@SAMPLE %s\n", clean(t).substr(0, 550).c_str());
}
inline void eval(std::uint64_t hash, bool nontrivial = true, std::uint64_t n = 1)
{
    Monitoring mon;
    auto &s = S();
    std::lock_guard<std::mutex> l(s.m);
    s.evals += n;
    if (nontrivial) s.hashes.insert(hash);
}
inline int finish()
{
    auto &s = S();
    for (auto &c : s.cov) std::printf("@@COV %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    std::printf("@@EVAL %llu\n", (unsigned long long)s.evals);
    if (!s.hash_file.empty())
        if (FILE *f = std::fopen(s.hash_file.c_str(), "wb"))
        {
            for (auto h : s.hashes) std::fwrite(&h, 8, 1, f);
            std::fclose(f);
        }
    std::printf("@@DONE\n");
    std::fflush(stdout);
    return s.viols ? 3 : 0;
}
/// Calls f(case number, rng) for this shard's share of n cases.
template<typename F> void for_cases(long n, F &&f)
{
    auto &s = S();
    if (s.cases >= 0) n = s.cases;
    for (long i = s.shard; i < n; i += s.shards)
    {
        if (s.only >= 0 && i != s.only) continue;
        auto r = case_rng(i);
        f(i, r);
        if (s.hard > 200) break;
    }
}

} // namespace rv
