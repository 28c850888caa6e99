// Small stateless model-checking core used by every harness in /verif.
//
// A *scenario* is a closed driver around the real k52 code.  Whenever the
// driver (or an interposed environment function) may behave in several ways it
// calls mc::choose(n); the explorer re-executes the scenario until every
// combination of answers has been executed (depth-first odometer over choice
// sequences).  mc::deviate(n) is a choice whose alternative 0 is the default
// environment answer and whose other alternatives cost one deviation each;
// the scenario states how many deviations are explored.
//
// Every execution runs in a forked worker.  The choice sequence being executed
// is kept in shared memory, so a crash, a hang or a failed check becomes a
// replayable artefact; it is re-executed alone before it is reported.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{

/// Free choice among n alternatives (n >= 1); all of them are explored.
int choose(int n, const char* label = "");
/// Environment answer: 0 is the default, others cost one deviation.
int deviate(int n, const char* label = "");
/// Deviations left in the current execution.
int deviations_left();

/// One operation of the implementation was executed and compared.
void step(uint64_t n = 1);
/// An (implementation or model) state reached, by hash of its canonical form.
void state(uint64_t hash);
/// What this execution was observed to do, by hash.
void outcome(uint64_t hash);

/// True while re-executing one path for a report or a sample.
bool tracing();
void trace(const std::string& line);

/// Report a violation of the property; never returns.
[[noreturn]] void fail(const std::string& message);
/// End this execution without a verdict (an assumption does not hold).
[[noreturn]] void discard();
/// A violation which may be in the known-findings file under `key`; returns
/// if it is listed there (the finding is then printed by the driver).
void fail_known(const std::string& key, const std::string& message);

bool thorough();
int seed();

struct Options
{
    int max_deviations = 0;     ///< bound for deviate()
    bool warm_up = false;       ///< run the default execution once, uncounted, in every process
    bool once = false;          ///< single-execution scenario (no parallel split)
    double hang_seconds = 40;   ///< no progress for so long: suspected hang
    int workers = 0;            ///< 0: default
    bool thorough_only = false;
};

void add(const std::string& name, const std::string& bound_text,
         const std::function<void()>& body, const Options& options = Options());

/// Text describing how cases are made; goes to the evidence file.
void describe(const std::string& rule);

/// Called in every worker before the first execution of a scenario.
void at_worker_start(const std::function<void()>& hook);

int run(int argc, char** argv);

// ---- helpers -------------------------------------------------------------

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_double(double d, uint64_t h = 0)
{
    if (d == 0) d = 0; // +0 and -0
    uint64_t u; __builtin_memcpy(&u, &d, 8);
    return mix(h, u);
}
template <class V> uint64_t hash_doubles(const V& v, uint64_t h = 7)
{
    for (size_t i = 0; i < v.size(); ++i) h = hash_double(v[i], h);
    return mix(h, v.size());
}
inline uint64_t hash_string(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}
std::string show(double d);
std::string show(const std::vector<double>& v);
std::string show(const std::vector<bool>& v);
std::string show(const std::vector<int>& v);

} // namespace mc

#define MC_FAIL(stream_expr)                                                  \
    do { std::ostringstream mc_os_; mc_os_.precision(17); mc_os_ << stream_expr; \
         mc::fail(mc_os_.str()); } while (0)
#define MC_CHECK(cond, stream_expr)                                           \
    do { if (!(cond)) MC_FAIL(stream_expr); } while (0)
#define MC_TRACE(stream_expr)                                                 \
    do { if (mc::tracing()) { std::ostringstream mc_os_; mc_os_.precision(17); \
         mc_os_ << stream_expr; mc::trace(mc_os_.str()); } } while (0)
