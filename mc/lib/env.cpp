#include "env.h"
#include <cstdlib>
#include <ctime>
#include <unistd.h>
#include <k52/common/random.h>

namespace
{
std::function<int()>& hook() { static std::function<int()> h; return h; }
std::function<void(unsigned)>& sleep_hook() { static std::function<void(unsigned)> h; return h; }
uint64_t g_calls = 0;
uint64_t g_state = 1;
int g_period = 0;
}

namespace env
{
int next_default()
{
    g_state = g_state * 6364136223846793005ull + 1442695040888963407ull;
    return (int)((g_state >> 33) & 0x7fffffff);
}
void set_rand(const std::function<int()>& h) { hook() = h; }
uint64_t rand_calls() { return g_calls; }
void set_sleep(const std::function<void(unsigned)>& h) { sleep_hook() = h; }
void reset(unsigned stream_seed)
{
    k52::common::Random::Instance(); // its construction draws a number
    hook() = std::function<int()>();
    g_state = stream_seed * 2654435761u + 12345;
    g_calls = 0;
}
void reset_random()
{
    k52::common::Random& r = k52::common::Random::Instance();
    std::function<int()> keep = hook();
    uint64_t state = g_state;
    hook() = []() { return 0; };
    const int kLimit = 200;
    if (!g_period)
    {
        int i = 0;
        for (uint64_t c = g_calls; g_calls == c && i < kLimit; ++i) r.GetRandomBool();
        g_period = 0;
        for (uint64_t c = g_calls; g_calls == c && g_period < kLimit;) { r.GetRandomBool(); g_period++; }
    }
    uint64_t c = g_calls;
    for (int i = 0; g_calls == c && i < kLimit; ++i) r.GetRandomBool();
    for (int i = 0; i + 1 < g_period; ++i) r.GetRandomBool();
    hook() = keep;
    g_state = state;
    g_calls = 0;
}
}

// These definitions take precedence over libc's for everything linked into the
// harness: the library draws all of its randomness from rand().
extern "C" int rand(void) noexcept
{
    g_calls++;
    if (hook()) return hook()();
    return env::next_default();
}
extern "C" void srand(unsigned) noexcept {}
extern "C" long random(void) noexcept { return rand(); }
extern "C" void srandom(unsigned) noexcept {}
extern "C" int rand_r(unsigned*) noexcept { return rand(); }
extern "C" double drand48(void) noexcept { return rand() / (2147483647 + 1.0); }
extern "C" int usleep(useconds_t us)
{
    if (sleep_hook()) sleep_hook()(us);
    return 0;
}
