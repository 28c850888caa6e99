// P05: every history of batches on sequential pools, of statistics, and what
// the factory offers in a build without threads and MPI.
#include "mc.h"
#include "opt_util.h"
#include <k52/parallel/worker_pool_factory.h>
#include <parallel/statistics_aggregator.h>
#include <map>
#include <stdexcept>

using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::StatisticsAggregator;
using k52::parallel::WorkerPoolFactory;
using k52::parallel::WorkerStatistics;

namespace
{
int alive = 0;
struct Result : ITaskResult
{
    int value;
    explicit Result(int v) : value(v) { alive++; }
    ~Result() { alive--; }
};
struct Failure { int id; };

std::vector<int> order; // ids of tasks in the order they were performed

struct Task : ITask
{
    int id;
    bool fails;
    ITaskResult* Perform() const
    {
        order.push_back(id);
        if (fails) throw Failure{ id };
        return new Result(id * 10 + 7);
    }
};

IWorkerPool::shared_ptr make(bool best)
{
    return best ? WorkerPoolFactory::CreateBestWorkerPool() : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
}

// --- batches ---
struct Modelled
{
    IWorkerPool::shared_ptr pool;
    int counted = 0;
};

void check_statistics(Modelled& m, const char* which)
{
    std::vector<WorkerStatistics> s = m.pool->GetStatistics();
    mc::step();
    MC_CHECK(s.size() == 1, "the sequential pool has " << s.size() << " statistics");
    MC_CHECK(s[0].get_counted() == m.counted, which << ": " << s[0].get_counted() << " tasks counted, expected " << m.counted);
    MC_CHECK(s[0].get_errors() == 0, which << ": " << s[0].get_errors() << " errors counted");
}

void batches(int length, int maximum)
{
    Modelled pools[2];
    pools[0].pool = make(false);
    pools[1].pool = make(true);
    alive = 0;
    std::vector<Task> tasks(std::max(4, maximum));
    std::vector<std::vector<ITaskResult::shared_ptr>> kept;
    int expected_alive = 0;
    uint64_t h = 1;
    for (int step = 0; step < length; ++step)
    {
        int which = mc::choose(2, "pool");
        Modelled& m = pools[which];
        int n = mc::choose(maximum + 1, "tasks");
        int fails = mc::choose(n + 1, "which fails");           // 0: none
        bool twice = n >= 2 && mc::choose(2, "same task twice"); // the last is the first one
        bool keep = mc::choose(2, "keep the results");
        std::vector<const ITask*> p;
        for (int i = 0; i < n; ++i)
        {
            int k = twice && i == n - 1 ? 0 : i;
            tasks[k].id = 10 * step + k;
            p.push_back(&tasks[k]);
        }
        for (Task& t : tasks) t.fails = false;
        int failing = -1;
        if (fails)
        {
            tasks[twice && fails == n ? 0 : fails - 1].fails = true;
            failing = twice && fails == n ? 0 : fails - 1;
        }
        order.clear();
        MC_TRACE("pool " << which << ": " << n << " tasks" << (twice ? " (the last is the first)" : "") << ", failing " << failing);
        std::vector<ITaskResult::shared_ptr> r;
        int failure = -1;
        try { r = m.pool->DoTasks(p); }
        catch (const Failure& f) { failure = f.id; }
        mc::step();
        int performed = failing >= 0 ? failing + 1 : n;
        MC_CHECK(failure == (failing >= 0 ? 10 * step + failing : -1), "the batch ended with failure " << failure << ", task " << failing << " fails");
        MC_CHECK((int)order.size() >= performed, "only " << order.size() << " of " << performed << " tasks were performed");
        for (int i = 0; i < performed; ++i)
            MC_CHECK(order[i] == 10 * step + (twice && i == n - 1 ? 0 : i), "task " << order[i] << " was performed at position " << i);
        if (failing < 0)
        {
            MC_CHECK((int)order.size() == n, order.size() << " tasks performed in a batch of " << n);
            MC_CHECK((int)r.size() == n, r.size() << " results of " << n << " tasks");
            for (int i = 0; i < n; ++i)
            {
                Result* x = dynamic_cast<Result*>(r[i].get());
                MC_CHECK(x && x->value == order[i] * 10 + 7, "result " << i << " is not that of its task");
                for (int k = 0; k < i; ++k) MC_CHECK(r[k] != r[i], "two positions share a result");
            }
        }
        m.counted += failing >= 0 ? failing : n;
        if (keep) { expected_alive += r.size(); kept.push_back(r); }
        r.clear();
        MC_CHECK(alive == expected_alive, alive << " results are alive, " << expected_alive << " are held");
        check_statistics(pools[0], "first pool");
        check_statistics(pools[1], "second pool");
        MC_CHECK(m.pool->IsValid(), "the pool is not valid any more");
        h = mc::mix(mc::mix(mc::mix(h, which), n * 8 + fails), twice * 2 + keep);
        mc::state(mc::mix(pools[0].counted, pools[1].counted));
    }
    // results outlive the pool
    pools[0].pool.reset();
    pools[1].pool.reset();
    MC_CHECK(alive == expected_alive, "results died with their pool");
    kept.clear();
    MC_CHECK(alive == 0, alive << " results are never released");
    mc::outcome(h);
}

// batches far larger than those above: every failing position of a fixed size
void large_batch(int size)
{
    Modelled m;
    m.pool = make(mc::choose(2, "pool"));
    alive = 0;
    std::vector<Task> tasks(size);
    for (int round = 0; round < 2; ++round)
    {
        int failing = round == 0 ? mc::choose(size + 1, "which fails") - 1 : -1;
        int n = round == 0 ? size : size / 2;
        std::vector<const ITask*> p;
        for (int i = 0; i < n; ++i)
        {
            tasks[i].id = i;
            tasks[i].fails = i == failing;
            p.push_back(&tasks[i]);
        }
        order.clear();
        std::vector<ITaskResult::shared_ptr> r;
        int failure = -1;
        try { r = m.pool->DoTasks(p); }
        catch (const Failure& f) { failure = f.id; }
        mc::step();
        int performed = failing >= 0 ? failing + 1 : n;
        MC_CHECK(failure == failing, "the batch of " << n << " ended with failure " << failure << ", task " << failing << " fails");
        MC_CHECK((int)order.size() >= performed, "only " << order.size() << " of " << performed << " tasks were performed");
        for (int i = 0; i < performed; ++i) MC_CHECK(order[i] == i, "task " << order[i] << " was performed at position " << i);
        if (failing < 0)
        {
            MC_CHECK((int)order.size() == n && (int)r.size() == n, order.size() << " performed and " << r.size() << " results in a batch of " << n);
            for (int i = 0; i < n; ++i)
            {
                Result* x = dynamic_cast<Result*>(r[i].get());
                MC_CHECK(x && x->value == i * 10 + 7, "result " << i << " is not that of its task");
            }
            MC_CHECK(alive == n, alive << " results are alive, " << n << " are held");
        }
        r.clear();
        MC_CHECK(alive == 0, alive << " results are never released");
        m.counted += failing >= 0 ? failing : n;
        check_statistics(m, "the pool");
        mc::outcome(mc::mix(failing + 1, n));
    }
}

// --- statistics ---
void aggregator(int length)
{
    const int ids[] = { 3, 0, -1, 1000000 };
    StatisticsAggregator a, other;
    std::map<int, std::pair<int, int>> model;
    uint64_t h = 1;
    for (int step = 0; step < length; ++step)
    {
        int id = ids[mc::choose(4, "worker")];
        int what = mc::choose(2, "counted or error");
        if (what) { a.RegisterError(id); model[id].second++; }
        else { a.RegisterCount(id); model[id].first++; }
        mc::step();
        std::vector<WorkerStatistics> s = a.GetStatistics();
        MC_CHECK(s.size() == model.size(), s.size() << " statistics of " << model.size() << " workers");
        std::map<int, std::pair<int, int>> seen;
        for (const WorkerStatistics& w : s)
        {
            MC_CHECK(!seen.count(w.get_id()), "worker " << w.get_id() << " is reported twice");
            seen[w.get_id()] = std::make_pair(w.get_counted(), w.get_errors());
        }
        MC_CHECK(seen == model, "after " << step + 1 << " registrations a worker's counts are wrong");
        MC_CHECK(other.GetStatistics().empty(), "another aggregator counted this one's tasks");
        for (WorkerStatistics& w : s) { w.IncreaseCounted(); w.IncreaseErrors(); } // copies
        h = mc::mix(mc::mix(h, id), what);
        mc::state(h);
    }
    mc::outcome(h);
}

void counters(int length)
{
    int c0 = mc::choose(2) * 5, e0 = mc::choose(2) * 7, id = mc::choose(3) - 1;
    WorkerStatistics w(c0, e0, id), fresh;
    MC_CHECK(fresh.get_counted() == 0 && fresh.get_errors() == 0, "new statistics are not empty");
    int c = c0, e = e0;
    for (int i = 0; i < length; ++i)
    {
        if (mc::choose(2)) { w.IncreaseCounted(); c++; } else { w.IncreaseErrors(); e++; }
        mc::step();
        MC_CHECK(w.get_counted() == c && w.get_errors() == e && w.get_id() == id, "counts are " << w.get_counted() << ", " << w.get_errors() << " of worker " << w.get_id());
    }
    mc::outcome(mc::mix(mc::mix(c, e), id));
}

// --- factory ---
void factory(int length)
{
    std::vector<IWorkerPool::shared_ptr> pools;
    uint64_t h = 1;
    for (int i = 0; i < length; ++i)
    {
        int op = mc::choose(5, "request");
        WorkerPoolFactory::WorkerPoolType type = op == 0 ? WorkerPoolFactory::kThreadWorkerPool
            : op == 1 ? WorkerPoolFactory::kMpiWorkerPool : op == 2 ? WorkerPoolFactory::kSequentialWorkerPool : (WorkerPoolFactory::WorkerPoolType)3;
        IWorkerPool::shared_ptr p;
        bool refused = false;
        mc::step();
        if (op == 4) p = WorkerPoolFactory::CreateBestWorkerPool();
        else
        {
            bool can = WorkerPoolFactory::CanCreateWorkerPool(type);
            MC_CHECK(can == (op == 2), "CanCreateWorkerPool says " << can << " of type " << op);
            try { p = WorkerPoolFactory::CreateWorkerPool(type); }
            catch (const std::runtime_error&) { refused = true; }
            MC_CHECK(refused != can, "a pool that can " << (can ? "" : "not ") << "be created was " << (refused ? "refused" : "created"));
        }
        if (!refused)
        {
            MC_CHECK(p, "no pool was created");
            MC_CHECK(p->IsValid(), "the pool is not valid");
            for (auto& q : pools) MC_CHECK(q != p, "two requests share a pool");
            pools.push_back(p);
        }
        for (size_t k = 0; k < pools.size(); ++k)
        {
            Task t; t.id = k; t.fails = false;
            std::vector<ITaskResult::shared_ptr> r = pools[k]->DoTasks(std::vector<const ITask*>(k, &t));
            MC_CHECK(r.size() == k, "wrong number of results");
            for (auto& x : r) MC_CHECK(dynamic_cast<Result*>(x.get())->value == (int)k * 10 + 7, "wrong result");
        }
        h = mc::mix(h, op);
    }
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    mc::describe("all sequences of batches (pool, number of tasks, failing position, repeated task, results kept or not) on two pools; all "
                 "sequences of registrations for four workers; all sequences of requests to the factory");
    bool t = opt::thorough(argc, argv);
    int m = t ? 8 : 6;
    mc::add("batches on two sequential pools", "all sequences of 3 batches of up to 3 tasks", [=] { batches(3, 3); });
    mc::add("larger batches", "all sequences of 2 batches of up to " + std::string(t ? "6" : "4") + " tasks", [=] { batches(2, t ? 6 : 4); });
    mc::add("large batch", "a batch of 120 tasks with each failing position, then one of 60", [=] { large_batch(120); });
    if (t) mc::add("longer sequences", "all sequences of 4 batches of up to 2 tasks", [=] { batches(4, 2); });
    mc::add("statistics of several workers", "all sequences of " + std::to_string(m) + " registrations", [=] { aggregator(m); });
    mc::add("statistics of one worker", "all sequences of 10 increments", [=] { counters(10); });
    mc::add("factory", "all sequences of " + std::to_string(m - 1) + " requests", [=] { factory(m - 1); });
    return mc::run(argc, argv);
}
