// P09: threads that create, use or destroy pools are interrupted.
#include "mc.h"
#include "mc_sched.h"
#include <k52/parallel/worker_pool_factory.h>
#include <boost/thread.hpp>
#include <stdexcept>

using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;

namespace
{
struct Result : ITaskResult { int value; explicit Result(int v) : value(v) {} };

struct Batch { bool over; Batch() : over(false) {} };

struct Task : ITask
{
    const Batch* batch;
    int id; bool fails;
    mutable int performed;
    Task() : batch(0), id(0), fails(false), performed(0) {}
    void alive() const
    {
        sched::Quiet q;
        if (batch->over) mc::fail("task " + std::to_string(id) + " is performed after the call that was given its batch has ended");
    }
    ITaskResult* Perform() const
    {
        alive();
        { sched::Quiet q; performed++; }
        sched::point("in the task");
        alive();
        if (fails) throw std::runtime_error("failing task");
        return new Result(id);
    }
};

// The batches outlive the calls, also in case of an error of the pool.
std::vector<std::pair<boost::shared_ptr<std::vector<Task> >, boost::shared_ptr<Batch> > > g_kept;

IWorkerPool::shared_ptr make() { return WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); }

enum Ending { kResults, kFailure, kInterrupted };

// One batch; whatever ends it, none of its tasks is performed any more.
Ending batch(IWorkerPool& pool, int n, int base, int failing)
{
    boost::shared_ptr<std::vector<Task> > tasks(new std::vector<Task>(n));
    boost::shared_ptr<Batch> b(new Batch);
    g_kept.push_back(std::make_pair(tasks, b));
    std::vector<const ITask*> p;
    for (int i = 0; i < n; ++i)
    {
        (*tasks)[i].id = base + i;
        (*tasks)[i].batch = b.get();
        (*tasks)[i].fails = i == failing;
        p.push_back(&(*tasks)[i]);
    }
    mc::step();
    std::vector<ITaskResult::shared_ptr> r;
    Ending ending = kResults;
    try { r = pool.DoTasks(p); }
    catch (const boost::thread_interrupted&) { ending = kInterrupted; }
    catch (const std::runtime_error&) { ending = kFailure; }
    sched::Quiet q;
    b->over = true;
    if (ending == kFailure && failing < 0) mc::fail("a failure was reported although no task failed");
    if (ending == kResults)
    {
        if (failing >= 0) mc::fail("the failure of a task was not reported");
        if ((int)r.size() != n) mc::fail("wrong number of results");
        for (int i = 0; i < n; ++i)
        {
            const Result* x = dynamic_cast<const Result*>(r[i].get());
            if (!x || x->value != base + i) mc::fail("result " + std::to_string(i) + " is missing or belongs to another task");
        }
    }
    if (ending != kInterrupted)
        for (int i = 0; i < n; ++i)
            if ((*tasks)[i].performed != 1) mc::fail("task " + std::to_string(i) + " was performed " + std::to_string((*tasks)[i].performed) + " times");
    return ending;
}

// The body of the thread that is interrupted.  A thread may end because it is
// interrupted, but the program may not.
void run(const std::function<void()>& interrupted, const std::function<void()>& afterwards, int failing_create = -1)
{
    mc::step();
    sched::Options o;
    o.failing_create = failing_create;
    o.processors = 2;
    o.spurious = false;
    sched::run([&] {
        boost::thread t([&] {
            try { interrupted(); } catch (const boost::thread_interrupted&) {}
        });
        t.interrupt();
        t.join();
        afterwards();
        g_kept.clear();
        MC_CHECK(sched::threads_alive() == 0, "every pool is gone but " << sched::threads_alive() << " worker(s) are not");
    }, o);
    mc::outcome(sched::threads_created());
    mc::state(sched::schedule_hash());
}
}

int main(int argc, char** argv)
{
    mc::describe("the interruption of a thread that creates a pool, waits for batches of 0 to 3 tasks (one of them failing) or destroys a pool, "
                 "at every moment, followed by batches of another thread on the same pool or a new one, under every schedule with at most the "
                 "stated number of preemptions");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](const std::string& name, int dev, const std::function<void()>& body) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " preemptions", body, o);
    };
    for (int n = 0; n <= 3; ++n)
    {
        add("batch of " + std::to_string(n) + " interrupted, then a batch of another thread", n == 0 ? 2 : t && n < 3 ? 2 : 1, [n] {
            IWorkerPool::shared_ptr pool;
            run([&] { pool = make(); batch(*pool, n, 100, -1); },
                [&] { if (pool) batch(*pool, 2, 200, -1); pool.reset(); });
        });
    }
    add("batch with a failing task interrupted, then a batch of another thread", t ? 2 : 1, [] {
        IWorkerPool::shared_ptr pool;
        run([&] { pool = make(); batch(*pool, 2, 100, 1); },
            [&] { if (pool) batch(*pool, 2, 200, -1); pool.reset(); });
    });
    add("two batches on one pool interrupted", t ? 2 : 1, [] {
        run([&] { IWorkerPool::shared_ptr pool = make(); batch(*pool, 2, 100, -1); batch(*pool, 1, 200, -1); }, [] {});
    });
    add("pool created, used and destroyed while interrupted", t ? 2 : 1, [] {
        run([&] { IWorkerPool::shared_ptr pool = make(); batch(*pool, 1, 100, -1); },
            [] { IWorkerPool::shared_ptr pool = make(); batch(*pool, 1, 200, -1); });
    });
    add("pool created and destroyed while interrupted", t ? 3 : 2, [] { run([&] { make(); }, [] {}); });
    // thread 0 is the one that is interrupted
    add("creation of the second thread of the pool fails while interrupted", t ? 3 : 2, [] {
        run([&] {
            bool thrown = false;
            try { make(); } catch (const std::exception&) { thrown = true; }
            MC_CHECK(thrown, "a pool was created without all its threads");
        }, [] {}, 2);
    });
    return mc::run(argc, argv);
}
