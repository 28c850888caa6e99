// P12: tasks of a batch are performed at the same time: tasks that wait for
// each other come to an end, under every schedule within the preemption bound.
#include "mc.h"
#include "mc_sched.h"
#include "env.h"
#include "opt_util.h"
#include <boost/thread.hpp>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/parallel/worker_pool_factory.h>
#include <set>

using namespace k52::optimization;
using namespace k52::parallel;

namespace
{
// The n-th, 2n-th, ... to arrive lets those before it go on.
class Meeting
{
public:
    explicit Meeting(int n) : n_(n), here_(0), round_(0) {}
    void arrive()
    {
        boost::unique_lock<boost::mutex> lock(mutex_);
        int round = round_;
        if (++here_ == n_) { here_ = 0; ++round_; all_.notify_all(); }
        while (round == round_) all_.wait(lock);
    }
    int rounds() const { return round_; }
private:
    int n_, here_, round_;
    boost::mutex mutex_;
    boost::condition_variable all_;
};

struct Failure { int id; };
struct Result : ITaskResult
{
    int value;
    explicit Result(int v) : value(v) {}
};
struct Task : ITask
{
    int id;
    Meeting* meeting;
    bool fails;
    Task(int id_, Meeting* meeting_, bool fails_) : id(id_), meeting(meeting_), fails(fails_) {}
    ITaskResult* Perform() const
    {
        if (meeting) meeting->arrive();
        if (fails) throw Failure{ id };
        return new Result(id);
    }
};

// a batch: tasks, how many of them meet, how many of them fail
struct Batch { int tasks, meet, failing; };

IWorkerPool::shared_ptr pool_of(bool best)
{
    return best ? WorkerPoolFactory::CreateBestWorkerPool() : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
}

void batches(int processors, const std::vector<Batch>& all, bool best)
{
    sched::Options o;
    o.processors = processors;
    o.spurious = false;
    sched::run([&] {
        IWorkerPool::shared_ptr pool = pool_of(best);
        for (const Batch& b : all)
        {
            Meeting meeting(b.meet);
            std::vector<Task> tasks;
            for (int i = 0; i < b.tasks; ++i) tasks.push_back(Task(i, b.meet ? &meeting : 0, i < b.failing));
            std::vector<const ITask*> pointers;
            for (int i = 0; i < b.tasks; ++i) pointers.push_back(&tasks[i]);
            bool failed = false;
            try
            {
                std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(pointers);
                for (int i = 0; i < b.tasks; ++i) MC_CHECK(dynamic_cast<Result&>(*r[i]).value == i, "result " << i << " belongs to another task");
            }
            catch (Failure&) { failed = true; }
            MC_CHECK(failed == (b.failing > 0), (failed ? "a batch failed" : "failures of tasks were not reported"));
            MC_CHECK(!b.meet || meeting.rounds() == b.tasks / b.meet, "tasks met " << meeting.rounds() << " times");
            mc::step();
        }
    }, o);
    mc::outcome(sched::threads_created());
    mc::state(sched::schedule_hash());
}

// objective functions that wait for each other
class Discrete : public DiscreteObjectiveFunction
{
public:
    explicit Discrete(Meeting* m) : m_(m) {}
    using DiscreteObjectiveFunction::operator();
    virtual double operator()(const IDiscreteParameters* p) const
    {
        m_->arrive();
        return dynamic_cast<const IntParameter*>(p)->get_value() + 1;
    }
    virtual Discrete* Clone() const { return new Discrete(m_); }
private:
    Meeting* m_;
};

void genetic(int processors, int population)
{
    sched::Options o;
    o.processors = processors;
    o.spurious = false;
    sched::run([&] {
        env::reset(1);
        env::reset_random();
        Meeting meeting(processors);
        GeneticAlgorithm::shared_ptr a = GeneticAlgorithm::Create(population, 0, 1, IMutator::shared_ptr(new FlipBitMutator(0)), 0);
        MC_CHECK(a, "the genetic algorithm was not created");
        std::vector<IDiscreteParameters::shared_ptr> initial;
        for (int k = 0; k < population; ++k)
        {
            IntParameter::shared_ptr p(new IntParameter(0, 15));
            p->set_value(k);
            initial.push_back(p);
        }
        a->SetInitialParameters(initial);
        IntParameter::shared_ptr p(new IntParameter(0, 15));
        a->Optimize(Discrete(&meeting), p.get(), true);
        MC_CHECK(p->get_value() == population - 1, "the best was not found");
        mc::step();
    }, o);
    mc::outcome(population);
    mc::state(sched::schedule_hash());
}

class Continuous : public ContinuousObjectiveFunction
{
public:
    explicit Continuous(Meeting* m) : m_(m), met_(false) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& p) const
    {
        // each search has a clone of the function: it meets the others once
        if (clone_ && !met_) { met_ = true; m_->arrive(); }
        return opt::function(0)(p);
    }
    virtual Continuous* Clone() const { Continuous* c = new Continuous(m_); c->clone_ = true; return c; }
private:
    Meeting* m_;
    mutable bool met_;
    bool clone_ = false;
};
}

int main(int argc, char** argv)
{
    mc::describe("tasks of a batch wait until as many of them as there are workers have begun; every schedule with at most the stated "
                 "number of preemptions, a batch that does not end is a deadlock");
    bool t = opt::thorough(argc, argv);
    auto add = [&](const std::string& name, int dev, const std::function<void()>& f) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " deviations", f, o);
    };
    int b = t ? 2 : 1;
    add("2 workers, 2 tasks meet", b + 1, [] { batches(2, { { 2, 2, 0 } }, false); });
    add("2 workers, 4 tasks meet in pairs", b, [] { batches(2, { { 4, 2, 0 } }, false); });
    add("3 workers, 3 tasks meet", b, [] { batches(3, { { 3, 3, 0 } }, false); });
    add("3 workers, 2 tasks meet", b, [] { batches(3, { { 2, 2, 0 } }, false); });
    add("4 workers, 4 tasks meet", t ? 1 : 0, [] { batches(4, { { 4, 4, 0 } }, false); });
    add("2 workers, two batches", b, [] { batches(2, { { 2, 2, 0 }, { 2, 2, 0 } }, false); });
    add("2 workers, after a batch of 3", b, [] { batches(2, { { 3, 0, 0 }, { 2, 2, 0 } }, false); });
    add("2 workers, after no tasks", b, [] { batches(2, { { 0, 0, 0 }, { 2, 2, 0 } }, false); });
    add("2 workers, after a batch of which one task failed", b, [] { batches(2, { { 2, 0, 1 }, { 2, 2, 0 } }, false); });
    add("2 workers, after a batch of which all tasks failed", b, [] { batches(2, { { 2, 0, 2 }, { 2, 2, 0 } }, false); });
    add("2 workers, after tasks that met failed", b, [] { batches(2, { { 2, 2, 2 }, { 2, 2, 0 } }, false); });
    add("best pool, 2 processors", b, [] { batches(2, { { 2, 2, 0 } }, true); });
    add("best pool, 3 processors", b - 1, [] { batches(3, { { 3, 3, 0 } }, true); });
    add("genetic algorithm, 2 processors, population of 2", t ? 1 : 1, [] { genetic(2, 2); });
    add("genetic algorithm, 2 processors, population of 4", t ? 1 : 0, [] { genetic(2, 4); });
    add("genetic algorithm, 4 processors", 0, [] { genetic(4, 4); });
    for (int processors : { 2, 3 })
        add("random search with an optimizer, " + std::to_string(processors) + " processors", 0, [=] {
            sched::Options o;
            o.processors = processors;
            o.spurious = false;
            sched::run([&] {
                env::reset(1);
                env::reset_random();
                Meeting meeting(processors);
                boost::shared_ptr<ContinuousOptimizer> inner(opt::make(opt::kNelderMead, 1));
                RandomSearch search(processors, -1, 1, inner.get());
                ContinuousParametersArray p(std::vector<double>(2, 0.5));
                search.Optimize(Continuous(&meeting), static_cast<IContinuousParameters*>(&p), false);
                MC_CHECK(meeting.rounds() == 1, "searches met " << meeting.rounds() << " times");
                mc::step();
            }, o);
            mc::outcome(processors);
            mc::state(sched::schedule_hash());
        });
    return mc::run(argc, argv);
}
