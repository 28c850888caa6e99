// P08: optimizers whose evaluations run on the thread pool: same results as on
// the sequential pool, under every schedule within the preemption bound.
#include "mc.h"
#include "mc_sched.h"
#include "env.h"
#include "opt_util.h"
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/parallel/worker_pool_factory.h>

using namespace k52::optimization;

namespace
{
typedef std::vector<double> Point;

// what one run was observed to do; independent of the order of evaluation
struct Observed
{
    std::vector<Point> evaluated;             // sorted at the end
    std::vector<double> reports;              // per generation: best, average, hits
    Point result;
    int failure = -1;
    int in_flight = 0, overlap = 0;
    bool operator==(const Observed& o) const
    {
        return evaluated == o.evaluated && reports == o.reports && result == o.result && failure == o.failure;
    }
    std::string show() const
    {
        std::ostringstream s;
        s << evaluated.size() << " evaluations, result " << mc::show(result);
        if (failure >= 0) s << ", failure " << failure;
        s << ", reports " << mc::show(reports);
        return s.str();
    }
};
Observed* now = 0;

struct Failure { int id; };

double evaluate(const Point& p, double v, bool failing)
{
    {
        sched::Quiet q;
        now->evaluated.push_back(p);
        mc::step();
        if (++now->in_flight > 1) now->overlap = 1;
    }
    sched::point("in the objective function");
    {
        sched::Quiet q;
        now->in_flight--;
    }
    if (failing) throw Failure{ 4 };
    return v;
}

// --- the genetic algorithm ---
class Discrete : public DiscreteObjectiveFunction
{
public:
    explicit Discrete(int fails_at) : fails_at_(fails_at) {}
    using DiscreteObjectiveFunction::operator();
    virtual double operator()(const IDiscreteParameters* p) const
    {
        int x = dynamic_cast<const IntParameter*>(p)->get_value();
        return evaluate(Point(1, x), (x * 5) % 13 + 1, x == fails_at_);
    }
    virtual Discrete* Clone() const { return new Discrete(fails_at_); }
private:
    int fails_at_;
};

void report(GenerationStatistics s)
{
    now->reports.push_back(s.get_best_fitness());
    now->reports.push_back(s.get_average_fitness());
    now->reports.push_back(s.get_cache_hits());
}

struct Genetic { int population, elites, generations; double cache; int seed; int fails_at; int runs; };

void genetic(const Genetic& g)
{
    env::reset(g.seed);
    env::reset_random();
    GeneticAlgorithm::shared_ptr a = GeneticAlgorithm::Create(g.population, g.elites, g.generations,
        IMutator::shared_ptr(new FlipBitMutator(0.3)), g.cache, 1e9, "");
    MC_CHECK(a, "the genetic algorithm was not created");
    a->OnNextGenerationReadyConnect(report);
    for (int i = 0; i < g.runs; ++i)
    {
        std::vector<IDiscreteParameters::shared_ptr> initial;
        for (int k = 0; k < g.population; ++k)
        {
            IntParameter::shared_ptr p(new IntParameter(0, 15));
            p->set_value((3 * k + i) % 16);
            initial.push_back(p);
        }
        a->SetInitialParameters(initial);
        IntParameter::shared_ptr p(new IntParameter(0, 15));
        p->set_value(1);
        Discrete f(i == 0 ? g.fails_at : -1);
        try { a->Optimize(f, p.get(), true); }
        catch (const Failure& x) { now->failure = x.id; }
        now->result.push_back(p->get_value());
    }
}

// --- random search with an optimizer ---
class Continuous : public ContinuousObjectiveFunction
{
public:
    Continuous(int kind, int fails_after) : kind_(kind), fails_after_(fails_after) {}
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const std::vector<double>& p) const
    {
        // called very often by the optimizers: one scheduling point per start, not per evaluation
        last_ = p;                            // a function may use its members; each task has an own clone
        double v = opt::function(kind_)(last_);
        {
            sched::Quiet q;
            now->evaluated.push_back(p);
            mc::step();
        }
        if (fails_after_ && std::fabs(p[0]) > fails_after_) throw Failure{ 4 };
        return v;
    }
    virtual Continuous* Clone() const { return new Continuous(kind_, fails_after_); }
private:
    int kind_, fails_after_;
    mutable Point last_;
};

struct Search { int method, points, dimensions, kind; bool maximize; int runs; };

void search(const Search& s)
{
    env::reset(3);
    env::reset_random();
    boost::shared_ptr<ContinuousOptimizer> inner(opt::make(s.method, 1));
    RandomSearch a(s.points, -1, 1, inner.get());
    Continuous f(s.kind, 0);
    for (int i = 0; i < s.runs; ++i)
    {
        ContinuousParametersArray p(Point(s.dimensions, 0.5));
        a.Optimize(static_cast<const ContinuousObjectiveFunction&>(f), static_cast<IContinuousParameters*>(&p), s.maximize);
        Point r = p.GetValues();
        now->result.insert(now->result.end(), r.begin(), r.end());
    }
}

Observed run(int processors, const std::function<void()>& body)
{
    Observed o;
    now = &o;
    sched::Options so;
    so.processors = processors;
    so.spurious = false;
    so.horizon = 200000;
    sched::run([&] {
        body();
        MC_CHECK(sched::threads_alive() == 0, "the optimizer is gone but " << sched::threads_alive() << " worker(s) are not");
    }, so);
    std::sort(o.evaluated.begin(), o.evaluated.end());
    now = 0;
    return o;
}

void compare(int processors, const std::function<void()>& body, bool all_evaluated)
{
    Observed reference = run(1, body);
    Observed o = run(processors, body);
    uint64_t h = sched::schedule_hash();
    // after a failure the other evaluations of the generation are made by the thread pool only
    if (!all_evaluated) { reference.evaluated.clear(); o.evaluated.clear(); }
    MC_TRACE("sequential: " << reference.show());
    MC_TRACE("threads:    " << o.show());
    MC_CHECK(o.result == reference.result, "the result on the thread pool is " << mc::show(o.result) << ", on the sequential pool " << mc::show(reference.result));
    MC_CHECK(o.failure == reference.failure, "failure " << o.failure << " on the thread pool, " << reference.failure << " on the sequential pool");
    MC_CHECK(o.reports == reference.reports, "the reports differ: threads " << o.show() << "; sequential " << reference.show());
    MC_CHECK(o == reference, "other parameters were evaluated: threads " << o.show() << "; sequential " << reference.show());
    mc::state(h);
    mc::outcome(mc::mix(mc::hash_doubles(o.result, o.overlap), h));
}
}

int main(int argc, char** argv)
{
    mc::describe("the same optimization on the sequential pool and on the thread pool, the latter under every schedule with at most the "
                 "stated number of preemptions, with data race detection");
    bool t = opt::thorough(argc, argv);
    auto add = [&](const std::string& name, int dev, int processors, const std::function<void()>& body, bool all_evaluated = true) {
        mc::Options o;
        o.max_deviations = dev;
        o.warm_up = true;
        mc::add(name, "at most " + std::to_string(dev) + " preemptions", [=] { compare(processors, body, all_evaluated); }, o);
    };
    auto ga = [&](int dev, int processors, Genetic g) {
        std::ostringstream s;
        s << "genetic algorithm, " << processors << " workers, population " << g.population << ", " << g.generations << " generations, cache "
          << g.cache << (g.elites ? ", elites" : "") << (g.fails_at >= 0 ? ", failing evaluation" : "") << (g.runs > 1 ? ", two runs" : "") << ", seed " << g.seed;
        add(s.str(), dev, processors, [=] { genetic(g); }, g.fails_at < 0);
    };
    int d = t ? 2 : 1;
    ga(d, 2, Genetic{ 2, 0, 2, 0, 1, -1, 1 });
    ga(d, 2, Genetic{ 2, 0, 2, 1, 2, -1, 1 });
    ga(1, 2, Genetic{ 4, 1, 2, 0, 1, -1, 1 });
    ga(1, 3, Genetic{ 2, 0, 1, 0, 1, -1, 1 });
    ga(1, 2, Genetic{ 2, 0, 1, 0, 3, 3, 2 });
    ga(1, 2, Genetic{ 2, 0, 1, 1, 3, -1, 2 });
    static const char* names[] = { "steepest descent", "conjugate gradients", "Hooke-Jeeves", "Hleborodov-Rosenbrock", "Nelder-Mead" };
    for (int m = 0; m < opt::kDeterministic; ++m)
        for (int k = 0; k < (t ? 4 : 2); ++k)
        {
            static const int functions[] = { 0, 4, 2, 0 };
            Search s = { m, k == 2 ? 3 : 2, k % 2 ? 2 : 1, functions[k], k == 1, 1 };
            add("random search with " + std::string(names[m]) + ", " + std::to_string(s.points) + " points, function " + std::to_string(s.kind), t && k != 2 ? 2 : 1, 2, [=] { search(s); });
        }
    add("random search with Hooke-Jeeves, two runs", 1, 2, [=] { search(Search{ opt::kHookeJeeves, 2, 1, 0, false, 2 }); });
    opt::no_plot();
    return mc::run(argc, argv);
}
