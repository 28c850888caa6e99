// P03: creating, using and destroying pools: no deadlock, no leaked or
// still-running worker, no use of a destroyed synchronisation object.
#include "mc.h"
#include "mc_sched.h"
#include <k52/parallel/worker_pool_factory.h>
#include <stdexcept>

using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;

namespace
{
struct Result : ITaskResult { int value; explicit Result(int v) : value(v) {} };
struct Task : ITask
{
    int id; bool fails;
    mutable int performed;
    Task() : id(0), fails(false), performed(0) {}
    ITaskResult* Perform() const
    {
        performed++;
        if (fails) throw std::runtime_error("failing task");
        return new Result(id);
    }
};

IWorkerPool::shared_ptr make() { return WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); }

void batch(IWorkerPool& pool, int n, int base, bool usable)
{
    std::vector<Task> tasks(n);
    std::vector<const ITask*> p;
    for (int i = 0; i < n; ++i) { tasks[i].id = base + i; p.push_back(&tasks[i]); }
    mc::step();
    bool thrown = false;
    std::vector<ITaskResult::shared_ptr> r;
    try { r = pool.DoTasks(p); } catch (const std::exception&) { thrown = true; }
    MC_CHECK(thrown == !usable, (usable ? "a valid pool refused a batch" : "a pool that says it is not valid accepted a batch"));
    if (usable)
    {
        MC_CHECK((int)r.size() == n, "wrong number of results");
        for (int i = 0; i < n; ++i)
            MC_CHECK(tasks[i].performed == 1 && dynamic_cast<Result*>(r[i].get()) && dynamic_cast<Result*>(r[i].get())->value == base + i,
                     "result " << i << " is wrong");
    }
    else for (int i = 0; i < n; ++i) MC_CHECK(tasks[i].performed == 0, "a refused batch was partly performed");
}

void run(int processors, int failing_create, const std::function<void()>& body)
{
    mc::step();
    sched::Options o;
    o.processors = processors;
    o.failing_create = failing_create;
    o.spurious = true;
    sched::run([&] {
        body();
        MC_CHECK(sched::threads_alive() == 0, "every pool is gone but " << sched::threads_alive() << " worker(s) are not");
    }, o);
    mc::outcome(mc::mix(processors + 8 * failing_create, sched::threads_created()));
    mc::state(sched::schedule_hash());
}
}

int main(int argc, char** argv)
{
    mc::describe("pools destroyed at once, after a batch, after a failing batch, two at a time, and on machines with 0 to 3 processors, "
                 "under every schedule with at most the stated number of deviations (preemptions, spurious wakeups)");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](const std::string& name, int dev, int processors, const std::function<void()>& body, int failing_create = -1) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " deviations", [=] { run(processors, failing_create, body); }, o);
    };
    add("pool of 2 destroyed without use", t ? 3 : 2, 2, [] { IWorkerPool::shared_ptr p = make(); MC_CHECK(p->IsValid(), "not valid"); });
    add("pool of 3 destroyed without use", t ? 2 : 1, 3, [] { IWorkerPool::shared_ptr p = make(); });
    add("pool of 1: not valid, refuses work, ends", t ? 3 : 2, 1, [] {
        IWorkerPool::shared_ptr p = make();
        MC_CHECK(!p->IsValid(), "a thread pool with one worker says it is valid");
        batch(*p, 1, 5, false);
    });
    add("number of processors not known: no pool or one that refuses work", t ? 3 : 2, 0, [] {
        IWorkerPool::shared_ptr p;
        try { p = make(); } catch (const std::exception&) { return; }
        MC_CHECK(!p->IsValid(), "a thread pool for an unknown number of processors says it is valid");
        batch(*p, 1, 5, false);
    });
    add("the best pool if the number of processors is not known", t ? 3 : 2, 0, [] {
        IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateBestWorkerPool();
        MC_CHECK(p->IsValid(), "the best pool is not valid");
        batch(*p, 2, 10, true);
    });
    for (int n = 2; n <= 3; ++n)
        for (int k = 0; k < n; ++k)
            add("creation of thread " + std::to_string(k + 1) + " of " + std::to_string(n) + " fails", t ? 3 - (n == 3) : n == 2 ? 2 : 1, n, [n] {
                bool thrown = false;
                try { make(); } catch (const std::exception&) { thrown = true; }
                MC_CHECK(thrown, "a pool was created without all its threads");
                MC_CHECK(sched::threads_alive() == 0, "the creation of a pool failed, but " << sched::threads_alive() << " of its workers are alive");
                IWorkerPool::shared_ptr p = make();
                if (n == 2) batch(*p, 1, 5, true);
            }, k);
    add("pool of 2 destroyed after a failing batch", t ? 2 : 1, 2, [] {
        IWorkerPool::shared_ptr p = make();
        Task a, b; a.fails = b.fails = true;
        std::vector<const ITask*> v(1, &a);
        v.push_back(&b);
        try { p->DoTasks(v); mc::fail("the failure was not reported"); } catch (const std::exception&) {}
    });
    add("two pools alive, destroyed in order of creation", 0, 2, [] {
        IWorkerPool::shared_ptr a = make(), b = make();
        batch(*a, 1, 10, true);
        batch(*b, 1, 20, true);
        a.reset();
        batch(*b, 1, 30, true);
        b.reset();
    });
    add("one pool after another", t ? 2 : 1, 2, [] {
        { IWorkerPool::shared_ptr a = make(); batch(*a, 1, 10, true); }
        { IWorkerPool::shared_ptr b = make(); batch(*b, 1, 20, true); }
    });
    add("the best pool on a machine with 2 processors", t ? 2 : 1, 2, [] {
        IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateBestWorkerPool();
        MC_CHECK(p->IsValid(), "the best pool is not valid");
        MC_CHECK(sched::threads_created() == 2, "the best pool has " << sched::threads_created() << " threads");
        batch(*p, 2, 10, true);
    });
    add("the best pool on a machine with 1 processor", t ? 3 : 2, 1, [] {
        IWorkerPool::shared_ptr p = WorkerPoolFactory::CreateBestWorkerPool();
        MC_CHECK(p->IsValid(), "the best pool is not valid");
        batch(*p, 2, 10, true);
    });
    return mc::run(argc, argv);
}
