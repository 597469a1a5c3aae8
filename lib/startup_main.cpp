#include "startup.h"
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <unistd.h>
namespace start { void file0(); void file1(); void file2(); void file3(); void file4(); void file5(); }
using namespace start;
namespace { struct First { First() { program_started = true; } }; First first __attribute__((init_priority(101))); }
static void everything() { for (int i = 0; i < UNITS; ++i) verify(i, done[i]); }
static void deep(int n)
{
    rtti::variant v = n;
    if (!n) std::exit(0);
    deep(n - 1);
    if (!v) std::abort();
}
int main()
{
    phase = MAIN;
    everything();
    file0(); file1(); file2(); file3(); file4(); file5();
    run("m");
    everything();
    std::thread([] { optional = true; everything(); run("t"); optional = false; }).join();
    everything();
    auto *e = std::getenv("RV_EXIT");
    switch (e ? std::atoi(e) : 0)
    {
    case 0: return 0;
    case 1: deep(3);
    case 2: { std::thread t([] { std::exit(0); }); for (;;) ::pause(); }
    case 3: { std::thread([] { std::this_thread::sleep_for(std::chrono::milliseconds(2)); optional = true; everything(); optional = false; std::exit(0); }).detach(); pthread_exit(nullptr); }
    }
}
