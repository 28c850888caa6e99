// Simulated MPI: every rank is a process of its own (forked, so that statics,
// registries and exit() are real), the explorer's process is the network.
//
// The network knows what each rank waits for; it lets the other ranks run as
// far as they can before it answers rank 0, so that an answer does not depend
// on the speed of anything.  What is explored: whether sends are buffered or
// wait for their receiver, and for each test of an incoming message that was
// sent whether it has already arrived.  A state in which no rank can go on is
// a deadlock.
#pragma once
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>

namespace fmpi
{
struct Options
{
    int size = 2;
    bool synchronous = false;  ///< a send returns when its message is being received
    int late = 1;              ///< how often a message may be late at rank 0
    int late_at_workers = 0;
    bool deviations = false;   ///< a late message costs a deviation
    int horizon = 100000;      ///< operations per execution
};

/// What a rank's process did.
struct End { bool finalized = false; bool exited = false; int status = 0; };

/// Runs program(rank) in `size` processes.  Rank 0 returns from it; the other
/// ranks may return or exit(0).  Violations of the rules of MPI, deadlocks,
/// crashes, messages nobody received and exits with another status fail.
/// Returns what rank 0 gave to say().
std::string run(const Options& o, const std::function<void(int)>& program);

// --- for the ranks ---
void fail(const std::string& message);   ///< never returns
int choose(int n, const char* label = "");
void say(const std::string& text);       ///< collected, in order, from rank 0
void trace(const std::string& line);
void step();
/// Pauses this rank until there is something new for it.
void pause();
bool simulated();
}

#define FMPI_CHECK(cond, stream_expr) \
    do { if (!(cond)) { std::ostringstream os_; os_.precision(17); os_ << stream_expr; fmpi::fail(os_.str()); } } while (0)
