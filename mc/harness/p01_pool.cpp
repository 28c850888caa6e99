// P01: every schedule of the real thread pool (through the public factory)
// within the preemption bound.
#include "mc.h"
#include "mc_sched.h"
#include <k52/parallel/worker_pool_factory.h>
#include <boost/thread.hpp>
#include <stdexcept>

using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;

namespace
{
struct Result : ITaskResult
{
    int value;
    explicit Result(int v) : value(v) {}
};

struct Task : ITask
{
    int id;
    int points;
    mutable int performed;
    mutable int performer;
    Task(int id_, int points_) : id(id_), points(points_), performed(0), performer(-1) {}
    ITaskResult* Perform() const
    {
        performed++;
        performer = sched::self();
        int seen = performed;
        for (int i = 0; i < points; ++i) sched::point("inside a task");
        MC_CHECK(seen == performed, "task " << id << " is performed by two threads at the same time");
        return new Result(id * 10 + 7);
    }
};

// One batch; what the caller may rely on afterwards.
uint64_t batch(IWorkerPool& pool, const std::vector<const Task*>& tasks)
{
    std::vector<const ITask*> pointers(tasks.begin(), tasks.end());
    std::vector<int> before;
    std::vector<ITaskResult::shared_ptr> results;
    for (size_t i = 0; i < tasks.size(); ++i) before.push_back(tasks[i]->performed);
    results = pool.DoTasks(pointers);
    mc::step();
    MC_CHECK(results.size() == tasks.size(), tasks.size() << " tasks gave " << results.size() << " results");
    uint64_t h = 5;
    for (size_t i = 0; i < tasks.size(); ++i)
    {
        int times = 0;
        for (size_t k = 0; k < tasks.size(); ++k) if (tasks[k] == tasks[i]) times++;
        MC_CHECK(tasks[i]->performed - before[i] == times, "task " << i << " was performed "
                 << tasks[i]->performed - before[i] << " times when the batch returned, expected " << times);
        MC_CHECK(results[i], "result " << i << " is missing when the batch returns");
        const Result* r = dynamic_cast<const Result*>(results[i].get());
        MC_CHECK(r, "result " << i << " is not what the task returned");
        MC_CHECK(r->value == tasks[i]->id * 10 + 7, "result " << i << " belongs to another task (value " << r->value << ")");
        h = mc::mix(h, tasks[i]->performer);
    }
    return h;
}

IWorkerPool::shared_ptr make_pool();

// two callers, each with a pool of its own, at the same time
void two_pools(int processors, int size, int rounds)
{
    uint64_t h = 1;
    sched::Options o;
    o.processors = processors;
    o.spurious = false;
    o.delay_bounded = true;     // six threads: also whom a blocking thread leaves the processor to is bounded
    sched::run([&] {
        std::vector<Task> mine, others;
        for (int i = 0; i < size * rounds; ++i) { mine.push_back(Task(i, 0)); others.push_back(Task(100 + i, 0)); }
        uint64_t h2 = 1;
        auto caller = [&](std::vector<Task>& tasks, uint64_t& hash) {
            IWorkerPool::shared_ptr pool = make_pool();
            for (int r = 0; r < rounds; ++r)
            {
                std::vector<const Task*> now;
                for (int i = 0; i < size; ++i) now.push_back(&tasks[r * size + i]);
                hash = mc::mix(hash, batch(*pool, now));
            }
        };
        boost::thread other([&] { caller(others, h2); });
        caller(mine, h);
        other.join();
        h = mc::mix(h, h2);
        MC_CHECK(sched::threads_alive() == 0, "both pools are gone but " << sched::threads_alive() << " worker(s) are not");
    }, o);
    mc::outcome(h);
    mc::state(sched::schedule_hash());
}

IWorkerPool::shared_ptr make_pool() { return WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); }

void scenario(int processors, const std::vector<int>& batch_sizes, int points, bool spurious, bool repeat_task, bool delays = false)
{
    uint64_t h = 1;
    sched::Options o;
    o.processors = processors;
    o.spurious = spurious;
    o.delay_bounded = delays;
    sched::run([&] {
        std::vector<Task> tasks;
        int total = 0;
        for (size_t b = 0; b < batch_sizes.size(); ++b) total += batch_sizes[b];
        for (int i = 0; i < total; ++i) tasks.push_back(Task(i, points));
        {
            IWorkerPool::shared_ptr pool = make_pool();
            MC_CHECK(pool->IsValid() == (processors >= 2), "IsValid() is " << pool->IsValid() << " with " << processors << " processors");
            int next = 0;
            for (size_t b = 0; b < batch_sizes.size(); ++b)
            {
                std::vector<const Task*> now;
                for (int i = 0; i < batch_sizes[b]; ++i) now.push_back(&tasks[next++]);
                if (repeat_task && !now.empty()) now.push_back(now[0]);
                h = mc::mix(h, batch(*pool, now));
            }
        }
        MC_CHECK(sched::threads_alive() == 0, "the pool is gone but " << sched::threads_alive() << " worker(s) are not");
    }, o);
    mc::outcome(h);
    mc::state(sched::schedule_hash());
}
}

int main(int argc, char** argv)
{
    mc::describe("every schedule of the pool's real threads with at most the stated number of deviations "
                 "(preemptions, spurious wakeups, out-of-order notifications); distinct schedules are counted as states, "
                 "distinct assignments of tasks to workers as outcomes");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    int b = t ? 3 : 2;
    auto add = [&](const std::string& name, int dev, int processors, std::vector<int> sizes, int points, bool spurious, bool repeat, bool thorough_only = false) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        o.thorough_only = thorough_only;
        mc::add(name, "at most " + std::to_string(dev) + " deviations", [=] { scenario(processors, sizes, points, spurious, repeat); }, o);
    };
    add("2 workers, 1 task", b, 2, { 1 }, 1, true, false);
    add("2 workers, 2 tasks", b, 2, { 2 }, 1, true, false);
    add("2 workers, no task", b, 2, { 0 }, 1, true, false);
    add("2 workers, batches of 1 and 1", t ? 2 : 1, 2, { 1, 1 }, 0, true, false);
    add("3 workers, 2 tasks", t ? 2 : 1, 3, { 2 }, 1, true, false);
    add("2 workers, 3 tasks", t ? 2 : 1, 2, { 3 }, 1, true, false);
    add("2 workers, batches of 2, 0 and 1", t ? 2 : 1, 2, { 2, 0, 1 }, 0, true, false);
    add("2 workers, one task twice in a batch", 0, 2, { 1 }, 0, true, true);
    auto two = [&](const std::string& name, int dev, int processors, int size, int rounds) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " delays", [=] { two_pools(processors, size, rounds); }, o);
    };
    two("two callers with pools of their own, 2 workers and 1 task each", t ? 3 : 2, 2, 1, 1);
    two("two callers with pools of their own, 2 workers and 2 tasks each", 2, 2, 2, t ? 2 : 1);
    // far more workers and tasks than above
    auto large = [&](const std::string& name, int dev, int processors, std::vector<int> sizes) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " delays", [=] { scenario(processors, sizes, 0, false, false, true); }, o);
    };
    large("2 workers, batches of 70 and 9", 1, 2, { 70, 9 });
    large("10 workers, batches of 23 and 5", 1, 10, { 23, 5 });
    large("4 workers, batches of 9 and 5", t ? 2 : 1, 4, { 9, 5 });
    return mc::run(argc, argv);
}
