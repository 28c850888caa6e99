// P02: a task that fails (throws) under every schedule of the thread pool and
// in the sequential pool.
#include "mc.h"
#include "mc_sched.h"
#include <k52/parallel/worker_pool_factory.h>
#include <stdexcept>

using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;

namespace
{
struct Result : ITaskResult { int value; explicit Result(int v) : value(v) {} };
struct OwnError { int id; explicit OwnError(int i) : id(i) {} };

enum Failure { kNone, kStandard, kOwn, kNumber };

struct Task : ITask
{
    int id;
    Failure failure;
    mutable int performed;
    Task() : id(0), failure(kNone), performed(0) {}
    ITaskResult* Perform() const
    {
        performed++;
        if (sched::active()) sched::point("inside a task");
        switch (failure)
        {
        case kStandard: throw std::runtime_error("task " + std::to_string(id));
        case kOwn: throw OwnError(id);
        case kNumber: throw id;
        default: return new Result(id * 10 + 7);
        }
    }
};

// Runs a batch; says which task's failure came out (-1: none).
int attempt(IWorkerPool& pool, std::vector<Task>& tasks, std::vector<ITaskResult::shared_ptr>& results)
{
    std::vector<const ITask*> pointers;
    for (size_t i = 0; i < tasks.size(); ++i) pointers.push_back(&tasks[i]);
    mc::step();
    try
    {
        results = pool.DoTasks(pointers);
        return -1;
    }
    catch (const std::runtime_error& e)
    {
        std::string what = e.what();
        MC_CHECK(what.compare(0, 5, "task ") == 0, "the batch failed with a message no task gave: " << what);
        return std::atoi(what.c_str() + 5);
    }
    catch (const OwnError& e) { return e.id; }
    catch (int id) { return id; }
}

void check_batch(IWorkerPool& pool, const std::vector<int>& failures, int base, bool all_performed)
{
    std::vector<Task> tasks(failures.size());
    bool any = false;
    int first = -1;
    for (size_t i = 0; i < tasks.size(); ++i)
    {
        tasks[i].id = base + i;
        tasks[i].failure = Failure(failures[i]);
        if (failures[i]) { if (first < 0) first = i; any = true; }
    }
    std::vector<ITaskResult::shared_ptr> results;
    int out = attempt(pool, tasks, results);
    MC_CHECK(any == (out >= 0), (any ? "the failure of a task was not reported to the caller" : "a failure was reported although no task failed"));
    if (any)
    {
        int i = out - base;
        MC_CHECK(i >= 0 && i < (int)tasks.size() && failures[i], "the reported failure (" << out << ") is not of a task of this batch that failed");
        if (!all_performed) MC_CHECK(i == first, "the sequential pool reported another failure than the first");
    }
    else
    {
        MC_CHECK(results.size() == tasks.size(), "wrong number of results");
        for (size_t i = 0; i < tasks.size(); ++i)
        {
            const Result* r = dynamic_cast<const Result*>(results[i].get());
            MC_CHECK(r && r->value == tasks[i].id * 10 + 7, "result " << i << " is missing or belongs to another task");
        }
    }
    for (size_t i = 0; i < tasks.size(); ++i)
    {
        int expected = !all_performed && first >= 0 && (int)i > first ? 0 : 1;
        if (any && !all_performed && (int)i > first) continue; // not stated
        MC_CHECK(tasks[i].performed == expected, "task " << i << " was performed " << tasks[i].performed << " times");
    }
}

void threads(int tasks, int followed_by, int kinds)
{
    std::vector<int> failures(tasks);
    for (int i = 0; i < tasks; ++i) failures[i] = mc::choose(kinds, "how the task fails");
    std::vector<int> then(followed_by, 0);
    sched::Options o;
    o.processors = 2;
    o.spurious = false;
    uint64_t h = mc::hash_bytes(failures.data(), failures.size() * sizeof(int));
    sched::run([&] {
        {
            IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
            check_batch(*pool, failures, 100, true);
            if (followed_by) check_batch(*pool, then, 200, true);
        }
        MC_CHECK(sched::threads_alive() == 0, "the pool is gone but a worker is not");
    }, o);
    mc::outcome(h);
    mc::state(mc::mix(h, sched::schedule_hash()));
}

// a batch far larger than above in which one or two tasks fail, then a healthy one
void large(int processors, int size)
{
    std::vector<int> failures(size, 0);
    int a = mc::choose(size, "which fails"), b = mc::choose(3, "another one that fails");
    failures[a] = kStandard;
    if (b) failures[b == 1 ? 0 : size - 1] = kOwn;
    sched::Options o;
    o.processors = processors;
    o.spurious = false;
    o.delay_bounded = true;
    uint64_t h = mc::hash_bytes(failures.data(), failures.size() * sizeof(int));
    sched::run([&] {
        {
            IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
            check_batch(*pool, failures, 1000, true);
            check_batch(*pool, std::vector<int>(size / 2, 0), 2000, true);
        }
        MC_CHECK(sched::threads_alive() == 0, "the pool is gone but a worker is not");
    }, o);
    mc::outcome(h);
    mc::state(mc::mix(h, sched::schedule_hash()));
}

void sequential()
{
    IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
    int batches = mc::thorough() ? 3 : 2;
    uint64_t h = 0;
    for (int b = 0; b < batches; ++b)
    {
        int n = mc::choose(4, "tasks");
        std::vector<int> f(n);
        for (int i = 0; i < n; ++i) { f[i] = mc::choose(3, "how the task fails"); h = mc::mix(h, f[i]); }
        h = mc::mix(h, n);
        check_batch(*pool, f, 100 * (b + 1), false);
        mc::state(h);
    }
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    mc::describe("every subset of failing tasks in a batch, every kind of exception, followed by a healthy batch on the same pool, "
                 "under every schedule with at most the stated number of preemptions");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](const std::string& name, int dev, int tasks, int then, int kinds) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " preemptions", [=] { threads(tasks, then, kinds); }, o);
    };
    add("1 task that may fail, then a batch of 1", t ? 3 : 2, 1, 1, 4);
    add("2 tasks that may fail", t ? 3 : 2, 2, 0, 3);
    add("2 tasks that may fail, then a batch of 2", 1, 2, 2, 3);
    add("3 tasks that may fail, then a batch of 1", t ? 2 : 1, 3, 1, 2);
    auto add_large = [&](const std::string& name, int dev, int processors, int size) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " delays", [=] { large(processors, size); }, o);
    };
    add_large("one or two of 40 tasks fail, 2 workers", 0, 2, 40);
    add_large("one or two of 12 tasks fail, 6 workers", 1, 6, 12);
    if (t) add_large("one or two of 7 tasks fail, 3 workers", 2, 3, 7);
    mc::add("sequential pool: batches of up to 3 tasks", "every subset and kind of failure", sequential);
    return mc::run(argc, argv);
}
