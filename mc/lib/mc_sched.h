// Controlled scheduler: the harness's threads are real threads, but exactly
// one runs at a time, and at every synchronisation operation the explorer
// decides who runs next.  pthread mutexes, conditions, thread creation and
// join (which boost::thread and std::thread are made of), function-local
// static guards and pthread_once are interposed at link time.
//
// Switching away from a thread that could continue costs one deviation
// (a preemption), as do a spurious wakeup, an out-of-order notification and a
// timeout that fires although somebody else could run.
//
// The code under test is compiled with -fsanitize=thread; the instrumentation
// calls come here and feed a vector-clock happens-before race detector that
// knows the edges of the *program* (mutex, join, atomics), not the hand-offs
// of the scheduler.
#pragma once
#include <functional>
#include <string>

namespace sched
{
struct Options
{
    int processors = 2;        ///< what the machine claims to have
    bool spurious = true;      ///< spurious wakeups are explored
    bool races = true;         ///< data races are violations
    bool free_signal = false;  ///< the notified waiter is a free choice
    bool delay_bounded = false; ///< choosing another thread than the first when the running one blocks is a deviation too
    int failing_create = -1;   ///< this creation of a thread (0, 1, ...) fails
    int horizon = 20000;       ///< scheduling points per execution
};

/// Runs body as thread 0 under the scheduler; fails on deadlock, on a data
/// race, on misuse of a synchronisation object and on threads left behind.
void run(const std::function<void()>& body, const Options& options = Options());

/// A scheduling point of the harness itself (for instance inside a task).
void point(const char* what);

/// Bookkeeping of the harness: not monitored, no scheduling points.
struct Quiet { Quiet(); ~Quiet(); };

/// Id of the calling thread under the scheduler (0 is the body).
int self();

/// True while run() is active.
bool active();

/// The calling thread is one of run() and not in code of the scheduler or Quiet.
bool monitored();

/// Schedule points passed in this execution.
int points();

/// Hash of the order in which threads were scheduled so far.
unsigned long long schedule_hash();

/// Number of threads created so far in this execution (without the body).
int threads_created();

/// Threads created and not yet finished (without the body).
int threads_alive();
}
