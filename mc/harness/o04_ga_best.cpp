// O04: the genetic algorithm returns the best individual it evaluated, keeps its
// elite and stops when it is told to.
#include "ga_util.h"
#include <cmath>

using namespace ga;

namespace
{
template <class E, class F> bool refuses(F f)
{
    try { f(); } catch (const E&) { return true; }
    return false;
}

// one-point crossover: a prefix of one parent and the rest of another
bool descends(unsigned c, const std::vector<unsigned>& parents, int bits)
{
    for (int p = 0; p <= bits; ++p)
    {
        unsigned low = (1u << p) - 1;
        bool first = false, second = false;
        for (unsigned a : parents)
        {
            if ((c & low) == (a & low)) first = true;
            if ((c & ~low) == (a & ~low)) second = true;
        }
        if (first && second) return true;
    }
    return false;
}

void check(const Run& r, const Config& c, unsigned result)
{
    double best = -1;
    size_t needed = c.max_generations;
    for (size_t i = 0; i < r.gens.size(); ++i)
    {
        for (unsigned e : r.gens[i].evaluated) best = std::max(best, r.fitness.at(e));
        if (best >= c.stop) { needed = std::min(needed, i + 1); break; }
    }
    MC_CHECK(r.gens.size() == needed, r.gens.size() << " generations were evaluated, expected " << needed
             << " (at most " << c.max_generations << ", stop at " << c.stop << ")");
    MC_CHECK(r.fitness.count(result), "the result " << result << " was never evaluated");
    MC_CHECK(r.fitness.at(result) == r.best(), "the result " << result << " has fitness " << r.fitness.at(result) << ", the best evaluated one is " << r.best());
    for (size_t i = 1; i < r.gens.size(); ++i)
    {
        const Generation& before = r.gens[i - 1];
        const Generation& now = r.gens[i];
        MC_CHECK(now.contexts == 1 && now.context_generation == (long) i - 1 && now.context_max == c.max_generations,
                 "before generation " << i << " the mutator was told " << now.contexts << " times, last about generation " << now.context_generation << " of " << now.context_max);
        std::vector<unsigned> made;
        for (unsigned m : now.mutated) if (r.ok(m)) made.push_back(m);
        MC_CHECK(sorted(made) == sorted(now.evaluated), "generation " << i << " is " << show(now.evaluated) << ", the mutator made " << show(made));
        if (r.mutation) continue;
        // selection alone
        for (unsigned e : now.evaluated)
            MC_CHECK(descends(e, before.evaluated, r.bits), e << " of generation " << i << " does not descend from " << show(before.evaluated));
        std::vector<double> f, g;
        for (unsigned e : before.evaluated) f.push_back(r.fitness.at(e));
        for (unsigned e : now.evaluated) g.push_back(r.fitness.at(e));
        std::sort(f.rbegin(), f.rend());
        std::sort(g.rbegin(), g.rend());
        size_t elite = std::min<size_t>(2 * c.elites, f.size());
        if (!elite) continue;
        double limit = f[elite - 1];
        for (unsigned e : before.evaluated) if (r.fitness.at(e) > limit)
            MC_CHECK(std::count(now.evaluated.begin(), now.evaluated.end(), e) >= std::count(before.evaluated.begin(), before.evaluated.end(), e),
                     e << " is one of the " << elite << " best of " << show(before.evaluated) << " but not in the next generation " << show(now.evaluated));
        for (size_t k = 0; k < elite; ++k)
            MC_CHECK(g[k] >= f[k], "the best " << elite << " of " << show(before.evaluated) << " are not in the next generation " << show(now.evaluated));
    }
}

void best(const std::vector<int>& sizes, const std::vector<double>& menu, int generations, int max_elites)
{
    Run r;
    r.menu = menu;
    Config c;
    c.population = sizes[mc::choose(sizes.size(), "population")];
    c.max_generations = 1 + mc::choose(generations, "generations");
    c.elites = mc::choose(max_elites + 1, "elite pairs");
    c.with_callback = mc::choose(2, "callback");
    static const double stops[] = { 1e7, 3, 0 };
    c.stop = stops[mc::choose(3, "stop")];
    r.mutation = c.with_callback ? mc::choose(3, "mutation") : 0;
    std::vector<unsigned> codes = feasible_codes(r);
    if (c.population == 2) c.initial = choose_population(codes, 2);
    else
    {
        static const unsigned some[][6] = { { 0, 1, 2, 3, 0, 1 }, { 0, 0, 0, 3, 3, 3 }, { 1, 2, 2, 2, 2, 2 }, { 0, 0, 0, 0, 0, 0 } };
        int k = mc::choose(4, "initial population");
        c.initial.assign(some[k], some[k] + c.population);
    }
    explore_random();
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    unsigned result = optimize(*g, &r, c);
    check(r, c, result);
    mc::outcome(mc::mix(hash(r), result));
}

void histories(int bits)
{
    // one object optimizes different functions one after another
    Config c;
    c.population = 2 + 2 * mc::choose(2, "population");
    c.elites = mc::choose(2, "elite pairs");
    c.cache = 0;
    c.stop = mc::choose(2, "stop") ? 4 : 1e7;
    int given = mc::choose(2, "initial population given");
    std::vector<Run> runs(3);
    explore_random();
    GeneticAlgorithm::shared_ptr g;
    Run* current = &runs[0];
    struct Forward : IMutator
    {
        Run** r;
        virtual void ApplyNewMutationContext(const MutationContext& m) { Mutator(*r).ApplyNewMutationContext(m); }
        virtual void MutateChromosome(ChromosomeType* x) { Mutator(*r).MutateChromosome(x); }
    };
    Forward* f = new Forward();
    f->r = &current;
    g = make(current, c, IMutator::shared_ptr(f));
    uint64_t h = 0;
    int n = 2 + mc::choose(2, "runs");
    for (int i = 0; i < n; ++i)
    {
        Run& r = runs[i];
        current = &r;
        // initial parameters given once stay: then the chromosome cannot change
        r.bits = bits + (given ? 0 : i % 2);
        r.choose_fitness = false;
        static const double values[][5] = { { 1, 5, 2, 0, 3 }, { 0.5, 0.25, 0.75, 0.1, 0 }, { 3, 3.5, 2, 6, 1 } };
        int k = mc::choose(3, "function");
        r.menu.assign(values[k], values[k] + 5);
        r.mutation = mc::choose(3, "mutation");
        if (given && (i == 0 || mc::choose(2, "new initial population")))
            for (int j = 0; j < c.population; ++j) c.initial.push_back((j * 3 + i) & ((1u << bits) - 1));
        unsigned result = optimize(*g, &r, c);
        c.initial.clear();
        check(r, c, result);
        h = mc::mix(h, hash(r));
        h = mc::mix(h, result);
    }
    mc::outcome(h);
}

void larger()
{
    Run r;
    Config c;
    choose_larger(r, c);
    explore_random();
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    for (int i = 0; i < 2; ++i)
    {
        unsigned result = optimize(*g, &r, c);
        check(r, c, result);
        mc::outcome(mc::mix(hash(r), result));
        r.restart();
    }
}

// values that are no fitness: they end the run, the parameters stay and the object can be used again
void wrong_values()
{
    Run r;
    Config c;
    r.menu = { 1, 0, 2, -1, -5e-324, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() };
    c.population = 2 + 2 * mc::choose(2, "population");
    c.max_generations = 1 + mc::choose(2, "generations");
    c.elites = mc::choose(2, "elite pairs");
    c.with_callback = mc::choose(2, "callback");
    c.cache = mc::choose(2, "cache") ? 1 : 0;
    r.mutation = c.with_callback ? mc::choose(2, "mutation") : 0;
    if (c.population == 2) c.initial = choose_population(feasible_codes(r), 2);
    else c.initial = { 0, 1, 2, 3 };
    explore_random();
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    bool refused = false;
    unsigned result = 0;
    try { result = optimize(*g, &r, c); } catch (const std::logic_error&) { refused = true; }
    bool wrong = false;
    for (const std::pair<const unsigned, double>& f : r.fitness) if (!(f.second >= 0)) wrong = true;
    if (wrong) MC_CHECK(refused, "a value that is no fitness (negative or not a number) was accepted, the result is " << result);
    else
    {
        MC_CHECK(!refused, "a run with proper values ended in logic_error");
        if (!c.cache) check(r, c, result);
    }
    mc::outcome(mc::mix(hash(r), mc::mix(refused, result)));
    if (!wrong) return;
    r.restart();
    r.fitness.clear();
    r.menu = { 1, 2, 4, 3 };
    r.choose_fitness = false;
    result = optimize(*g, &r, c);
    if (!c.cache) check(r, c, result);
    MC_CHECK(r.fitness.at(result) == r.best(), "after a refused run the result " << result << " is not the best one evaluated");
}

void refused()
{
    int what = mc::choose(12, "use");
    Run r;
    r.menu = { 1, 2 };
    IMutator::shared_ptr m(new Mutator(&r));
    explore_random();
    mc::step();
    if (what < 6)
    {
        std::cerr.setstate(std::ios::badbit);
        static const int sizes[] = { 0, -2, 3, 4, 4, 4 }, gens[] = { 1, 1, 1, 0, -1, 1 };
        IMutator::shared_ptr none;
        MC_CHECK(!GeneticAlgorithm::Create(sizes[what], 0, gens[what], what == 5 ? none : m), "a genetic algorithm was created from wrong settings");
        MC_CHECK(GeneticAlgorithm::Create(4, 0, 1, m), "a genetic algorithm was not created");
        return;
    }
    Config c;
    c.population = 4;
    GeneticAlgorithm::shared_ptr g = make(&r, c, m);
    observed() = &r;
    r.population = 4;
    r.by_count = true;
    Genes p(&r, 2);
    Objective f(&r);
    switch (what)
    {
    case 6:
        MC_CHECK(refuses<std::invalid_argument>([&] { g->Optimize(f, &p, false); }), "minimization was not refused");
        MC_CHECK(r.gens.empty() && p.get() == 2, "a refused minimization did something");
        break;
    case 7: case 8: case 9:
    {
        int n = what == 7 ? 3 : what == 8 ? 5 : 0;
        MC_CHECK(refuses<std::invalid_argument>([&] { g->SetInitialParameters(population(&r, std::vector<unsigned>(n, 1))); g->Optimize(f, &p, true); }),
                 n << " initial parameters were accepted for a population of 4");
        MC_CHECK(p.get() == 2, "a refused optimization changed the parameters");
        break;
    }
    case 10:
    {
        Run other;
        other.bits = 3;
        MC_CHECK(refuses<std::invalid_argument>([&] { g->SetInitialParameters(population(&other, { 1, 2, 3, 4 })); g->Optimize(f, &p, true); }),
                 "initial parameters with another chromosome were accepted");
        break;
    }
    case 11:
    {
        struct Same : Genes { Same(Run* r) : Genes(r, 1), r_(r) {} Run* r_; virtual Genes* Clone() const { return new Same(r_); } };
        std::vector<IDiscreteParameters::shared_ptr> v = population(&r, { 1, 1, 1, 1 });
        v[3].reset(new Same(&r));
        MC_CHECK(refuses<std::invalid_argument>([&] { g->SetInitialParameters(v); g->Optimize(f, &p, true); }), "initial parameters of another type were accepted");
        break;
    }
    }
    mc::outcome(what);
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("all fitness values from a menu for every individual (chosen when it is first evaluated), all initial populations of 2 and some of 4 and 6; "
                 "random draws and mutations deviate from the default at every point, up to the deviation bound");
    std::cout.setstate(std::ios::badbit);
    mc::Options o;
    o.max_deviations = 1;
    mc::add("populations of 2", "10 populations, fitness from 3 values, 1-3 generations, 3 mutations, 3 stop values", [=] { best({ 2 }, { 0, 1, 3 }, 3, 1); }, o);
    mc::Options o0;
    o0.max_deviations = t ? 1 : 0;
    mc::add("populations of 4 and 6", "4 populations, fitness from 3 values, 1-3 generations, 0-2 elite pairs", [=] { best({ 4, 6 }, { 0, 1, 3 }, 3, 2); }, o0);
    if (t)
    {
        mc::Options o2;
        o2.max_deviations = 2;
        mc::add("more deviations", "populations of 2, 2 fitness values, 3 generations", [=] { best({ 2 }, { 1, 3 }, 3, 1); }, o2);
    }
    mc::Options oh;
    oh.max_deviations = t ? 1 : 0;
    mc::add("histories", "2-3 runs of one object, 3 functions", [=] { histories(2); }, oh);
    mc::Options ol;
    ol.max_deviations = 0;
    mc::add("larger", "7-20 genes, populations of 8-50, 4 and 25 generations, 5 sizes of the elite, two runs; fixed draws", larger, ol);
    mc::Options ow;
    ow.max_deviations = t ? 1 : 0;
    mc::add("wrong values", "objective values from 7 of which 4 are negative or not a number, populations of 2 and 4, 1-2 generations, then a second run", wrong_values, ow);
    mc::add("refused", "12 wrong uses", refused, mc::Options());
    return mc::run(argc, argv);
}
