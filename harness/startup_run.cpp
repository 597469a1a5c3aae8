// Starts programs whose static initialisers and destructors do what a random script says, in every
// order the script, the order of linking and the kind of library bring about, and judges the event
// log: values are made once and destroyed once, what was registered is there, the program ends well.
#include "rv.h"
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
using namespace rv;

namespace {
constexpr int UNITS = 6, KINDS = 19;
char const *const kind_names[] = {"types", "class", "derived class", "deferred class", "converter", "method converter", "static variants", "thread local variants", "variants in containers", "enum", "global items",
    "unregister", "closer", "late destructor", "thread joined at exit", "empty variant", "errors", "atexit", "owned variant"};
std::vector<std::string> programs;
std::string dir;

std::string read_all(int a, int b, std::string &other)
{
    std::string one;
    pollfd p[2] = {{a, POLLIN, 0}, {b, POLLIN, 0}};
    int open = 2;
    char buf[65536];
    while (open)
    {
        ::poll(p, 2, -1);
        for (int i = 0; i < 2; ++i)
            if (p[i].fd >= 0 && p[i].revents)
            {
                auto r = ::read(p[i].fd, buf, sizeof buf);
                if (r < 0 && errno == EINTR) continue;
                if (r <= 0) { ::close(p[i].fd); p[i].fd = -1; --open; }
                else (i ? other : one).append(buf, std::size_t(r));
            }
    }
    return one;
}

void one(long i, Rng &rng)
{
    auto &program = rng.pick(programs);
    std::vector<std::string> keys = {"e1", "e4", "c2", "c5", "m", "t"};
    for (int k = 0; k < UNITS; ++k) { keys.push_back("s" + std::to_string(k)); keys.push_back("r" + std::to_string(k)); }
    std::map<std::string, std::string> parts;
    int steps = rng.chance(1, 6) ? rng.range(1, 4) : rng.range(5, 70);
    // some programs are about few kinds of things
    std::vector<int> kinds;
    for (int k = 0; k < KINDS; ++k) if (rng.chance(2, 3)) kinds.push_back(k);
    if (kinds.empty()) kinds.push_back(int(rng.below(KINDS)));
    rng.shuffle(keys);
    auto used = std::size_t(rng.range(1, int(keys.size())));
    for (int k = 0; k < steps; ++k)
    {
        auto &p = parts[keys[rng.below(used)]];
        p += (p.empty() ? "" : ",") + std::to_string(rng.below(UNITS)) + "." + std::to_string(rng.pick(kinds));
    }
    std::string script;
    for (auto &p : parts) script += (script.empty() ? "" : ";") + p.first + "=" + p.second;
    auto mode = rng.below(4);
    begin_case(i, "program", program + " exit " + std::to_string(mode) + " " + script);
    auto shape = hash_str(program, hash_str(script, mode));

    int events[2], errors[2];
    if (::pipe2(events, O_CLOEXEC) || ::pipe2(errors, O_CLOEXEC)) std::abort();
    std::fflush(stdout);
    auto pid = ::fork();
    if (pid < 0) std::abort();
    if (pid == 0)
    {
        ::dup2(errors[1], 2);
        ::dup2(errors[1], 1);
        ::dup2(events[1], 9);
        ::setenv("RV_SCRIPT", script.c_str(), 1);
        ::setenv("RV_LOG_FD", "9", 1);
        ::setenv("RV_EXIT", std::to_string(mode).c_str(), 1);
        ::setenv("LD_LIBRARY_PATH", dir.c_str(), 1);
        auto path = dir + "/" + program;
        ::execl(path.c_str(), path.c_str(), nullptr);
        ::_exit(127);
    }
    ::close(events[1]);
    ::close(errors[1]);
    std::string err, log = read_all(events[0], errors[0], err);
    int st = 0;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)
    {
        std::fprintf(stderr, "%s\n", err.c_str());
        std::fflush(stderr);
        // dies the way the program did, so that it is told by what it did
        if (WIFSIGNALED(st)) { std::signal(WTERMSIG(st), SIG_DFL); ::raise(WTERMSIG(st)); ::_exit(1); }
        ::_exit(WEXITSTATUS(st));
    }
    struct Life { int made = 0, gone = 0; bool optional = false; };
    std::map<unsigned, Life> lives;
    std::uint64_t n = 0, late = 0, verified = 0;
    bool late_seen = false;
    std::size_t pos = 0;
    while (pos < log.size())
    {
        auto end = log.find('\n', pos);
        auto l = log.substr(pos, end - pos);
        pos = end == std::string::npos ? log.size() : end + 1;
        unsigned a = 0, b = 0;
        int phase = 0;
        ++n;
        if (l[0] == 'V') { auto k = l.find(' ', 2); viol(l.substr(2, k - 2), l.substr(k + 1)); continue; }
        if (std::sscanf(l.c_str() + 1, "%u %u %d", &a, &b, &phase) != 3) { viol("log", l); continue; }
        switch (l[0])
        {
        case 'C': case 'O': ++lives[a].made; if (l[0] == 'O') lives[a].optional = true; break;
        case 'M': lives[a].optional = true; break;
        case 'D': { auto &x = lives[a]; ++x.gone; check(x.made == 1 && x.gone == 1, "destroyed-twice", fmt("value %u", a)); late += late_seen; break; }
        case 'S': cov(std::string(kind_names[b]) + (phase == 0 ? " before main" : phase == 1 ? " in main" : " at exit")); break;
        case 'Y': ++verified; cov(std::string("registrations looked at ") + (phase == 0 ? "before main" : phase == 1 ? "in main" : "at exit"), b); break;
        case 'L': cov("late destructors"); late_seen = true; break;
        case 'J': cov("threads joined at exit"); break;
        }
    }
    for (auto &x : lives)
        check(x.second.gone == 1 || (x.second.optional && !x.second.gone), "never-destroyed", fmt("value %u of %zu: made %d, destroyed %d", x.first, lives.size(), x.second.made, x.second.gone));
    check(!lives.empty() && verified, "log", "nothing happened");
    cov("values", lives.size());
    cov("values destroyed after a late destructor", late);
    eval(shape, true, n);
    sample(program + " exit " + std::to_string(mode) + " " + script);
}
} // namespace

int main(int argc, char **argv)
{
    init(argc, argv);
    dir = opt("--programs");
    if (auto *d = ::opendir(dir.c_str()))
    {
        while (auto *e = ::readdir(d)) if (!std::strncmp(e->d_name, "prog", 4)) programs.push_back(e->d_name);
        ::closedir(d);
    }
    std::sort(programs.begin(), programs.end());
    if (programs.empty()) return 9;
    for_cases(std::stol(opt("--n", "100")), one);
    return finish();
}
