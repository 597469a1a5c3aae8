// Runs every case in a process of its own, since definitions cannot be undone.
#pragma once
#include "rv.h"
#include <csignal>
#include <cerrno>
#include <sys/wait.h>

namespace rv {
namespace detail {
inline void put(std::string &b, std::uint64_t v) { b.append(reinterpret_cast<char *>(&v), 8); }
inline void put(std::string &b, std::string const &s) { put(b, s.size()); b += s; }
inline std::uint64_t take(char const *&p) { std::uint64_t v; std::memcpy(&v, p, 8); p += 8; return v; }
inline std::string take_str(char const *&p) { auto n = take(p); std::string s(p, n); p += n; return s; }
} // namespace detail

/// Whether the child leaves by way of its destructors.
inline bool &full_exit() { static bool b = false; return b; }

/// Calls f(case number, rng) for this shard's share of n cases, each in a child process whose
/// counters are added to those of this process. A child that dies takes this process along.
template<typename F> void forked_cases(long n, F &&f)
{
    using namespace detail;
    for_cases(n, [&](long i, Rng &rng) {
        int fd[2];
        std::fflush(stdout);
        if (::pipe(fd) != 0) std::abort();
        pid_t pid = ::fork();
        if (pid < 0) std::abort();
        auto &s = S();
        if (pid == 0)
        {
            ::close(fd[0]);
            s.cov.clear(); s.hashes.clear(); s.viols = s.hard = 0; s.evals = 0;
            f(i, rng);
            std::string b;
            put(b, s.evals); put(b, s.viols); put(b, s.hard); put(b, s.samples);
            put(b, s.hashes.size());
            for (auto h : s.hashes) put(b, h);
            put(b, s.cov.size());
            for (auto &c : s.cov) { put(b, c.first); put(b, c.second); }
            put(b, s.viol_count.size());
            for (auto &c : s.viol_count) { put(b, c.first); put(b, c.second); }
            std::fflush(stdout);
            for (std::size_t k = 0; k < b.size();)
            {
                auto w = ::write(fd[1], b.data() + k, b.size() - k);
                if (w <= 0) ::_exit(9);
                k += std::size_t(w);
            }
            if (full_exit()) std::exit(0);
            ::_exit(0);
        }
        ::close(fd[1]);
        std::string b;
        char buf[65536];
        for (;;)
        {
            auto r = ::read(fd[0], buf, sizeof buf);
            if (r < 0 && errno == EINTR) continue;
            if (r <= 0) break;
            b.append(buf, std::size_t(r));
        }
        ::close(fd[0]);
        int st = 0;
        while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) { std::signal(WTERMSIG(st), SIG_DFL); ::raise(WTERMSIG(st)); ::_exit(1); }
        if (WEXITSTATUS(st) != 0) ::_exit(WEXITSTATUS(st));
        char const *p = b.data();
        s.evals += take(p); s.viols += int(take(p)); s.hard += int(take(p)); s.samples = int(take(p));
        for (auto k = take(p); k--;) s.hashes.insert(take(p));
        for (auto k = take(p); k--;)
        {
            auto name = take_str(p);
            auto v = take(p);
            auto &c = s.cov[name];
            c = name.compare(0, 4, "max:") == 0 ? std::max<std::uint64_t>(c, v) : c + v;
        }
        for (auto k = take(p); k--;) { auto name = take_str(p); s.viol_count[name] = int(take(p)); }
        ++s.cov["processes"];
    });
}
} // namespace rv
