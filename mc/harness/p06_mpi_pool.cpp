// P06: the MPI pool (server and worker loop, each rank a process) on a
// simulated network: every order in which results arrive.
#include "mc.h"
#include "env.h"
#include "fmpi.h"
#include <boost/bind.hpp>
#include <boost/mpi.hpp>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/random_search.h>
#include <k52/parallel/mpi/constants.h>
#include <k52/parallel/mpi/i_mpi_task.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <k52/parallel/worker_pool_factory.h>
#include <set>
#include <sys/stat.h>

using namespace k52::parallel;
using namespace k52::parallel::mpi;

namespace
{
const int kTag = constants::kCommonTag;
int performed_here = 0; // per process
int task_alive = 0, result_alive = 0;

// A result of one to three messages: the first two are received asynchronously,
// the third one when the second has come.
class Result : public IMpiTaskResult
{
public:
    explicit Result(int parts) : parts_(parts), id_(-1), rank_(-1), count_(-1), c_(0), source_(0) { result_alive++; }
    ~Result() { result_alive--; }
    int id() const { return id_; }
    int rank() const { return rank_; }
    int count() const { return count_; }
    void set(int id, int rank, int count) { id_ = id; rank_ = rank; count_ = count; }
    const std::string& text() const { return text_; }
    virtual AsyncCallChain::shared_ptr ReceiveAsync(boost::mpi::communicator* c, int source)
    {
        c_ = c;
        source_ = source;
        AsyncCallChain::shared_ptr chain = AsyncCallChain::CreateAsyncCallChain(boost::bind(&Result::First, this));
        if (parts_ > 1) chain->Add(boost::bind(&Result::Second, this));
        if (parts_ > 2) chain->Add(boost::bind(&Result::Third, this));
        return chain;
    }
    virtual void Send(boost::mpi::communicator* c)
    {
        std::vector<int> first;
        first.push_back(id_);
        first.push_back(rank_);
        first.push_back(count_);
        c->send(constants::kServerRank, kTag, first);
        if (parts_ > 1) c->send(constants::kServerRank, kTag, "text of " + std::to_string(id_));
        if (parts_ > 2) c->send(constants::kServerRank, kTag, id_ * 1.5);
    }
    bool complete(int id) const
    {
        return id_ == id && (parts_ < 2 || text_ == "text of " + std::to_string(id)) && (parts_ < 3 || number_ == id * 1.5);
    }
private:
    boost::optional<boost::mpi::request> First() { return c_->irecv(source_, kTag, first_); }
    boost::optional<boost::mpi::request> Second() { Unpack(); return c_->irecv(source_, kTag, text_); }
    boost::optional<boost::mpi::request> Third() { c_->recv(source_, kTag, number_); return boost::optional<boost::mpi::request>(); }
public:
    void Unpack() { if (first_.size() == 3) { id_ = first_[0]; rank_ = first_[1]; count_ = first_[2]; } }
private:
    int parts_, id_, rank_, count_;
    std::vector<int> first_;
    std::string text_;
    double number_ = 0;
    boost::mpi::communicator* c_;
    int source_;
};

template <int Kind> class Task : public IMpiTask
{
public:
    explicit Task(int id = -1) : id_(id) { task_alive++; }
    ~Task() { task_alive--; }
    virtual IMpiTaskResult* Perform() const
    {
        performed_here++;
        Result* r = new Result(Kind);
        r->set(id_ + 1000 * Kind, fmpi::rank(), performed_here);
        return r;
    }
    virtual IMpiTaskResult::shared_ptr CreateEmptyResult() const { return IMpiTaskResult::shared_ptr(new Result(Kind)); }
    virtual Task* Clone() const { return new Task(id_); }
    virtual void Send(boost::mpi::communicator* c, int target) const { c->send(target, kTag, id_); }
    virtual void Receive(boost::mpi::communicator* c, int source) { c->recv(source, kTag, id_); }
private:
    int id_;
};

struct Plain : ITask
{
    virtual ITaskResult* Perform() const { return new ITaskResult(); }
};

void register_all()
{
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    m.RegisterObject(Task<1>());
    m.RegisterObject(Task<2>());
    m.RegisterObject(Task<3>());
}

struct Totals
{
    std::map<int, int> done; // by worker
    std::string order;
};

void batch(IWorkerPool& pool, const std::vector<int>& kinds, int base, int size, Totals* t)
{
    std::vector<boost::shared_ptr<IMpiTask>> tasks;
    std::vector<const ITask*> p;
    for (size_t i = 0; i < kinds.size(); ++i)
    {
        IMpiTask* k = kinds[i] == 1 ? (IMpiTask*) new Task<1>(base + i) : kinds[i] == 2 ? (IMpiTask*) new Task<2>(base + i) : (IMpiTask*) new Task<3>(base + i);
        tasks.push_back(boost::shared_ptr<IMpiTask>(k));
        p.push_back(k);
    }
    std::vector<ITaskResult::shared_ptr> r = pool.DoTasks(p);
    fmpi::step();
    FMPI_CHECK(performed_here == 0, "the server performed a task");
    FMPI_CHECK(r.size() == kinds.size(), r.size() << " results of " << kinds.size() << " tasks");
    std::set<int> ranks;
    for (size_t i = 0; i < r.size(); ++i)
    {
        Result* x = dynamic_cast<Result*>(r[i].get());
        FMPI_CHECK(x, "result " << i << " is missing");
        x->Unpack();
        FMPI_CHECK(x->complete(base + i + 1000 * kinds[i]), "result " << i << " is not complete or belongs to another task (id " << x->id() << ", expected "
                   << base + i + 1000 * kinds[i] << ")");
        FMPI_CHECK(x->rank() >= 1 && x->rank() < size, "result " << i << " comes from rank " << x->rank());
        t->done[x->rank()]++;
        ranks.insert(x->rank());
        t->order += char('0' + x->rank());
    }
    FMPI_CHECK(ranks.size() == std::min<size_t>(kinds.size(), size - 1), kinds.size() << " tasks were given to " << ranks.size() << " of " << size - 1 << " workers");
    t->order += ' ';
    std::vector<WorkerStatistics> s = pool.GetStatistics();
    FMPI_CHECK(s.size() == t->done.size(), s.size() << " workers have statistics, " << t->done.size() << " performed tasks");
    for (WorkerStatistics& w : s)
        FMPI_CHECK(t->done.count(w.get_id()) && w.get_counted() == t->done[w.get_id()] && w.get_errors() == 0,
                   "worker " << w.get_id() << " counted " << w.get_counted() << " tasks and " << w.get_errors() << " errors, it performed "
                   << (t->done.count(w.get_id()) ? t->done[w.get_id()] : 0));
}

void outcome(const std::string& said)
{
    mc::outcome(mc::hash_string(said));
    mc::state(mc::hash_string(said));
}

// batches of these sizes; what is in them is chosen
void batches(fmpi::Options o, const std::vector<int>& sizes, bool mixed, bool best)
{
    o.synchronous = mc::choose(2, "synchronous sends");
    std::string said = fmpi::run(o, [&](int rank) {
        register_all();
        task_alive = 0;
        IWorkerPool::shared_ptr pool = best ? WorkerPoolFactory::CreateBestWorkerPool()
            : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
        FMPI_CHECK(rank == 0, "rank " << rank << " goes on as if it were the server");
        FMPI_CHECK(pool->IsValid(), "the pool is not valid with " << o.size << " ranks");
        FMPI_CHECK(pool->GetStatistics().empty(), "a new pool has statistics");
        Totals t;
        int base = 0;
        for (int n : sizes)
        {
            std::vector<int> kinds;
            int k = mixed ? fmpi::choose(4, "kinds") : 1;
            for (int i = 0; i < n; ++i) kinds.push_back(k == 0 ? 1 + i % 3 : k);
            batch(*pool, kinds, base, o.size, &t);
            base += n;
        }
        FMPI_CHECK(task_alive == 0 && result_alive == 0, task_alive << " tasks and " << result_alive << " results are never released");
        fmpi::say(t.order);
        pool.reset();
    });
    outcome(said + (o.synchronous ? "s" : "b"));
    MC_TRACE("workers: " << said);
}

// a batch with a task of a wrong kind is refused and has no influence on the next ones
void refused(fmpi::Options o)
{
    o.synchronous = mc::choose(2, "synchronous sends");
    std::string said = fmpi::run(o, [&](int) {
        register_all();
        IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
        Totals t;
        int at = fmpi::choose(3, "place of the wrong task");
        Task<1> a(5), b(6);
        Plain plain;
        std::vector<const ITask*> p;
        p.push_back(&a);
        p.push_back(&b);
        p.insert(p.begin() + at, &plain);
        if (fmpi::choose(2, "a batch before")) batch(*pool, std::vector<int>(2, 2), 10, o.size, &t);
        int thrown = 0;
        try { pool->DoTasks(p); }
        catch (const std::logic_error&) { thrown = 1; }
        FMPI_CHECK(thrown, "a task that can not be sent was accepted");
        Totals before = t;
        // the tasks sent before the batch was refused may have been performed
        std::vector<boost::shared_ptr<IMpiTask>> tasks;
        std::vector<const ITask*> q;
        for (int i = 0; i < 3; ++i) { tasks.push_back(boost::shared_ptr<IMpiTask>(new Task<2>(20 + i))); q.push_back(tasks[i].get()); }
        std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(q);
        for (int i = 0; i < 3; ++i)
        {
            Result* x = dynamic_cast<Result*>(r[i].get());
            x->Unpack();
            FMPI_CHECK(x->complete(2020 + i), "after a refused batch, result " << i << " belongs to another task (" << x->id() << ")");
            fmpi::say(std::to_string(x->rank()));
        }
        fmpi::say(std::to_string(at));
        pool.reset();
    });
    outcome(said);
}

void factory(int size)
{
    fmpi::Options o;
    o.size = size;
    o.synchronous = mc::choose(2, "synchronous sends");
    std::string said = fmpi::run(o, [&](int rank) {
        register_all();
        int order = fmpi::choose(rank == 0 ? 2 : 1, "first the best pool");
        if (rank && size > 1) order = 0;
        FMPI_CHECK(WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool), "no MPI pool can be created");
        IWorkerPool::shared_ptr first = order ? WorkerPoolFactory::CreateBestWorkerPool() : WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool);
        FMPI_CHECK(rank == 0, "rank " << rank << " goes on as if it were the server");
        FMPI_CHECK(!WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool), "a second MPI pool could be created");
        bool thrown = false;
        try { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); }
        catch (const std::runtime_error&) { thrown = true; }
        FMPI_CHECK(thrown, "a second MPI pool was created");
        IWorkerPool::shared_ptr best = WorkerPoolFactory::CreateBestWorkerPool();
        FMPI_CHECK(best && best->IsValid() && best != first, "no valid pool is left");
        Task<1> t(7);
        std::vector<const ITask*> p(2, &t);
        FMPI_CHECK(best->DoTasks(p).size() == 2 && performed_here == 2, "the sequential pool does not work beside the MPI pool");
        if (!order)
        {
            FMPI_CHECK(first->IsValid() == (size > 1), "the MPI pool says valid: " << first->IsValid() << " with " << size << " ranks");
            bool refused = false;
            std::vector<ITaskResult::shared_ptr> r;
            try { r = first->DoTasks(p); } catch (const std::runtime_error&) { refused = true; }
            FMPI_CHECK(refused == (size == 1), "a batch with " << size << " ranks was " << (refused ? "refused" : "accepted"));
            FMPI_CHECK(performed_here == 2, "the server performed a task of the MPI pool");
        }
        else FMPI_CHECK(first->IsValid(), "the best pool is not valid");
        best.reset();
        first.reset();
        fmpi::say(order ? "best" : "mpi");
    });
    outcome(said);
}

// --- optimizers on the pool ---
using namespace k52::optimization;

class Discrete : public DiscreteObjectiveFunction
{
public:
    using DiscreteObjectiveFunction::operator();
    virtual double operator()(const IDiscreteParameters* p) const
    {
        performed_here++;
        int x = dynamic_cast<const IntParameter*>(p)->get_value();
        return (x * 5) % 13 + 1;
    }
    virtual Discrete* Clone() const { return new Discrete(); }
};

std::string reports;
void report(GenerationStatistics s)
{
    std::ostringstream o;
    o << s.get_best_fitness() << "/" << s.get_average_fitness() << "/" << s.get_cache_hits() << " ";
    reports += o.str();
}

std::string genetic(int seed, double cache, int generations)
{
    env::reset(seed);
    env::reset_random();
    reports.clear();
    {
        IdentifyableObjectsManager::Instance().RegisterObject(IntParameter(0, 15));
        IdentifyableObjectsManager::Instance().RegisterObject(Discrete());
    }
    GeneticAlgorithm::shared_ptr a = GeneticAlgorithm::Create(4, 1, generations, IMutator::shared_ptr(new FlipBitMutator(0.3)), cache, 1e9, "");
    a->OnNextGenerationReadyConnect(report);
    std::vector<IDiscreteParameters::shared_ptr> initial;
    for (int k = 0; k < 4; ++k) initial.push_back(IDiscreteParameters::shared_ptr(new IntParameter((3 * k + seed) % 16, 0, 15)));
    a->SetInitialParameters(initial);
    IntParameter p(0, 15);
    a->Optimize(Discrete(), &p, true);
    return reports + "result " + std::to_string(p.get_value());
}

class Continuous : public ContinuousObjectiveFunction
{
public:
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& p) const
    {
        performed_here++;
        double v = 0;
        for (size_t i = 0; i < p.size(); ++i) v += (p[i] - 0.3) * (p[i] - 0.3) * (i + 1) + 0.2 * std::cos(7 * p[i]);
        return v;
    }
    virtual Continuous* Clone() const { return new Continuous(); }
};

std::string search(int seed, int points, bool maximize)
{
    env::reset(seed);
    env::reset_random();
    BoundedNelderMead inner(0.5, 1e-3, -1, 2);
    {
        IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
        m.RegisterObject(ContinuousParametersArray(std::vector<double>(2)));
        m.RegisterObject(Continuous());
    }
    RandomSearch a(points, -1, 1, &inner);
    ContinuousParametersArray p(std::vector<double>(2, 0.5));
    Continuous f;
    a.Optimize(static_cast<const ContinuousObjectiveFunction&>(f), static_cast<IContinuousParameters*>(&p), maximize);
    return mc::show(p.GetValues());
}

// the same program with one rank (a sequential pool) and with several
void optimizer(fmpi::Options o, const std::function<std::string()>& program)
{
    o.synchronous = mc::choose(2, "synchronous sends");
    fmpi::Options single = o;
    single.size = 1;
    auto body = [&](int rank) {
        mkdir("polygon.plot", 0700);
        std::string r = program();
        FMPI_CHECK(rank == 0, "rank " << rank << " goes on as if it were the server");
        fmpi::say(r);
    };
    std::string expected = fmpi::run(single, body);
    std::string said = fmpi::run(o, body);
    mc::step();
    MC_CHECK(said == expected, "on " << o.size << " ranks: " << said << "; on one: " << expected);
    outcome(said);
}
}

int main(int argc, char** argv)
{
    mc::describe("every order in which the results may arrive (each message may be late the stated number of times), with buffered and with "
                 "synchronous sends; server and workers are processes running the real code on a simulated MPI");
    bool t = mc::thorough();
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](int size, std::vector<int> sizes, bool mixed, bool best, int late, int late_workers, int dev) {
        fmpi::Options o;
        o.size = size;
        o.late = late;
        o.late_at_workers = late_workers;
        o.deviations = dev > 0;
        std::ostringstream s, b;
        s << size - 1 << " workers, batches of";
        for (int n : sizes) s << " " << n;
        s << (mixed ? ", results of several messages" : "") << (best ? ", best pool" : "");
        b << "messages late up to " << late << " times" << (late_workers ? ", also at workers" : "");
        if (dev) b << ", at most " << dev << " in all";
        mc::Options mo;
        mo.max_deviations = dev;
        mo.hang_seconds = 120;
        mc::add(s.str(), b.str(), [=] { batches(o, sizes, mixed, best); }, mo);
    };
    add(2, { 0, 1, 2 }, false, true, 1, 1, 0);
    add(2, t ? std::vector<int>{ 2, 3 } : std::vector<int>{ 3 }, true, false, 1, 1, 0);
    add(3, { 3 }, true, false, t ? 2 : 1, 0, 0);
    add(3, { 1, 4 }, false, true, 1, 0, 0);
    add(4, { 4 }, false, false, t ? 2 : 1, 0, 0);
    add(4, { 3, 5 }, true, false, 3, 1, t ? 4 : 2);
    if (t) add(3, { 5, 2, 3 }, true, false, 2, 1, 4);
    // far more tasks and workers
    add(3, { 40, 7 }, true, false, 1, 0, 1);
    add(8, { 30 }, true, true, 1, 0, 1);
    fmpi::Options r3;
    r3.size = 3;
    mc::add("a batch with a task of another kind", "2 workers, any place", [=] { refused(r3); });
    mc::add("factory with workers", "2 workers", [] { factory(3); });
    mc::add("factory without workers", "1 rank", [] { factory(1); });
    for (int size = 2; size <= 3; ++size)
    {
        fmpi::Options o;
        o.size = size;
        o.deviations = true;
        mc::Options mo;
        mo.max_deviations = t ? 4 : 2;
        std::string w = std::to_string(size - 1) + " workers: ";
        std::string b = "at most " + std::to_string(mo.max_deviations) + " late messages";
        mc::add(w + "genetic algorithm", b, [=] { int s = mc::choose(2), c = mc::choose(2); optimizer(o, [=] { return genetic(s + 1, c, 2); }); }, mo);
        mc::add(w + "random search with an optimizer", b, [=] { int s = mc::choose(2), m = mc::choose(2); optimizer(o, [=] { return search(s + 1, 3, m); }); }, mo);
    }
    return mc::run(argc, argv);
}
