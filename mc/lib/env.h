// Environment answers owned by the harness.
#pragma once
#include <functional>
#include <cstdint>
namespace env
{
/// What rand() answers; when empty a fixed linear congruential stream is used.
void set_rand(const std::function<int()>& hook);
/// Number of rand() calls since the last reset().
uint64_t rand_calls();
/// Restarts the default stream with this seed and forgets the hook.
void reset(unsigned stream_seed = 1);
/// The default stream's next value.
int next_default();
/// usleep() calls are not executed; this is called instead (MPI polling loops).
void set_sleep(const std::function<void(unsigned)>& hook);
/// Brings k52's Random singleton to a state that does not depend on what ran
/// before in this process: its pool of random bits is exhausted.
void reset_random();
}
