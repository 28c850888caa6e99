// P11: memory runs out in any thread while a thread pool is created, performs
// batches or is destroyed.
#include "mc.h"
#include "mc_sched.h"
#include <k52/parallel/worker_pool_factory.h>
#include <cstdlib>
#include <new>
#include <stdexcept>

using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;

namespace
{
bool g_scarce = false;            // allocations may fail
int g_failures = 0;
thread_local bool t_plenty = false; // not those of the harness

struct Plenty { bool before; Plenty() : before(t_plenty) { t_plenty = true; } ~Plenty() { t_plenty = before; } };

bool fails()
{
    if (!g_scarce || t_plenty || !sched::monitored()) return false;
    Plenty p;
    sched::Quiet q;
    if (!mc::deviate(2, "allocation fails")) return false;
    g_failures++;
    return true;
}
void* take(size_t n, bool may_throw)
{
    void* p = fails() ? 0 : std::malloc(n ? n : 1);
    if (!p && may_throw) throw std::bad_alloc();
    return p;
}
}

void* operator new(size_t n) { return take(n, true); }
void* operator new[](size_t n) { return take(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, false); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

namespace
{
struct Result : ITaskResult { int value; explicit Result(int v) : value(v) {} };

struct Task : ITask
{
    const bool* over;
    int id;
    mutable int performed;
    Task() : over(0), id(0), performed(0) {}
    void alive() const
    {
        sched::Quiet q;
        if (*over) mc::fail("task " + std::to_string(id) + " is performed after the call that was given its batch has ended");
    }
    ITaskResult* Perform() const
    {
        alive();
        { sched::Quiet q; performed++; }
        sched::point("in the task");
        alive();
        return new Result(id);
    }
};

// kept until the pool is gone, also in case of an error of the pool
struct Kept { std::vector<Task> tasks; bool over; };
std::vector<boost::shared_ptr<Kept> > g_kept;

IWorkerPool::shared_ptr make()
{
    try { return WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); }
    catch (const std::bad_alloc&) { return IWorkerPool::shared_ptr(); }
    // boost::thread reports that it cannot start a thread
    catch (const std::exception&) { MC_CHECK(g_failures, "the pool was not created"); return IWorkerPool::shared_ptr(); }
}

void batch(IWorkerPool& pool, int n, int base)
{
    boost::shared_ptr<Kept> kept;
    std::vector<const ITask*> p;
    {
        Plenty plenty;
        kept.reset(new Kept);
        kept->tasks.resize(n);
        kept->over = false;
        g_kept.push_back(kept);
        for (int i = 0; i < n; ++i) { kept->tasks[i].id = base + i; kept->tasks[i].over = &kept->over; p.push_back(&kept->tasks[i]); }
    }
    mc::step();
    int before = g_failures;
    bool failed = false;
    std::vector<ITaskResult::shared_ptr> r;
    try { r = pool.DoTasks(p); }
    // boost reports an exception that it has no memory to keep as an unknown one
    catch (const std::exception&) { failed = true; }
    Plenty plenty;
    sched::Quiet q;
    kept->over = true;
    if (failed && g_failures == before) mc::fail("a failure was reported, but all allocations of this batch succeeded");
    for (int i = 0; i < n; ++i)
    {
        int times = kept->tasks[i].performed;
        if (times > 1 || (!failed && times != 1)) mc::fail("task " + std::to_string(i) + " was performed " + std::to_string(times) + " times");
    }
    if (failed) return;
    if ((int)r.size() != n) mc::fail("wrong number of results");
    for (int i = 0; i < n; ++i)
    {
        const Result* x = dynamic_cast<const Result*>(r[i].get());
        if (!x || x->value != base + i) mc::fail("result " + std::to_string(i) + " is missing or belongs to another task");
    }
}

// batches of these sizes, during which memory may run out, and one afterwards
void run(const std::vector<int>& sizes, bool create, bool destroy, bool bound_all)
{
    g_failures = 0;
    sched::Options o;
    o.processors = 2;
    o.spurious = false;
    o.delay_bounded = bound_all;
    sched::run([&] {
        {
            g_scarce = create;
            IWorkerPool::shared_ptr pool = make();
            g_scarce = !create && !destroy;
            if (pool)
            {
                int base = 100;
                for (int n : sizes) { batch(*pool, n, base); base += 100; }
                g_scarce = false;
                batch(*pool, 2, 900);
            }
            g_scarce = destroy;
            pool.reset();
            g_scarce = false;
        }
        Plenty plenty;
        g_kept.clear();
        MC_CHECK(sched::threads_alive() == 0, "the pool is gone but " << sched::threads_alive() << " worker(s) are not");
    }, o);
    mc::outcome(mc::mix(g_failures, sched::schedule_hash()));
    mc::state(mc::mix(g_failures, sched::schedule_hash()));
}
}

int main(int argc, char** argv)
{
    mc::describe("every allocation made by any thread while a pool is created, performs one to three batches or is destroyed fails, followed by a "
                 "batch with enough memory, under every schedule; failing allocations and preemptions together are bounded");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](const std::string& name, int dev, const std::vector<int>& sizes, bool create, bool destroy, bool bound_all = false) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + (bound_all ? " failing allocations, preemptions and unusual choices of the next thread"
                                                                    : " failing allocations and preemptions"),
                [=] { run(sizes, create, destroy, bound_all); }, o);
    };
    add("creation of a pool", t ? 3 : 2, {}, true, false);
    add("destruction of a pool", t ? 3 : 2, {}, false, true);
    add("batch of 1", t ? 3 : 2, { 1 }, false, false);
    add("batch of 2", t ? 2 : 1, { 2 }, false, false);
    add("batch of 2, all choices bounded", t ? 3 : 2, { 2 }, false, false, true);
    add("batch of 3", t ? 2 : 1, { 3 }, false, false);
    add("two batches", t ? 2 : 1, { 2, 1 }, false, false);
    // the queues need more memory again
    add("batch of 23", t ? 3 : 2, { 23 }, false, false, true);
    add("batch of 45", t ? 2 : 1, { 45 }, false, false, true);
    add("three batches of 15", t ? 2 : 1, { 15, 15, 15 }, false, false, true);
    return mc::run(argc, argv);
}
