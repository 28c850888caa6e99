// O08: what the genetic algorithm reports about each generation is true.
#include "ga_util.h"
#include <cmath>

using namespace ga;

namespace
{
bool near(double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(a) + std::fabs(b)); }

void check(const Run& r, const Config& c)
{
    double best = -1;
    std::vector<double> before;
    for (size_t i = 0; i < r.gens.size(); ++i)
    {
        const Generation& g = r.gens[i];
        MC_CHECK(g.reported, "generation " << i << " was not reported");
        MC_CHECK(g.number == (long) i, "generation " << i << " was reported with number " << g.number);
        std::vector<double> f;
        double sum = 0;
        for (unsigned e : g.evaluated) { f.push_back(r.fitness.at(e)); best = std::max(best, f.back()); sum += f.back(); }
        std::sort(f.begin(), f.end());
        MC_CHECK(g.best == best, "generation " << i << ": the best fitness so far is " << best << ", reported is " << g.best);
        MC_CHECK(r.fitness.count(g.best_code) && r.fitness.at(g.best_code) == best, "generation " << i << ": the reported best individual "
                 << g.best_code << " does not have the best fitness " << best);
        if (c.cache <= 0)
        {
            MC_CHECK((int) f.size() == c.population, "generation " << i << " has " << f.size() << " individuals");
            MC_CHECK(near(g.average, sum / c.population), "generation " << i << ": the average fitness is " << sum / c.population << ", reported is " << g.average);
            MC_CHECK(g.hits == 0, g.hits << " cache hits without a cache");
        }
        else
        {
            MC_CHECK(g.hits == c.population - (long) f.size(), "generation " << i << ": " << g.hits << " cache hits reported, "
                     << c.population - (long) f.size() << " individuals were not evaluated");
            MC_CHECK(g.average >= 0 && g.average <= best, "generation " << i << ": the reported average " << g.average << " is above the best " << best);
        }
        MC_CHECK(g.invalid >= (g.rejected + 1) / 2 && g.invalid <= g.rejected, "generation " << i << ": " << g.invalid
                 << " invalid chromosomes reported, " << g.rejected << " were found not to satisfy the constraints");
        // the individuals the generation descends from
        MC_CHECK((int) g.statistics.size() == c.population, "generation " << i << ": statistics of " << g.statistics.size() << " individuals");
        std::vector<double> parents;
        long chosen = 0;
        for (size_t k = 0; k < g.statistics.size(); ++k)
        {
            parents.push_back(g.statistics[k].fitness);
            chosen += g.statistics[k].times_chosen_for_crossover;
            MC_CHECK(g.statistics[k].times_chosen_for_crossover >= 0, "chosen " << g.statistics[k].times_chosen_for_crossover << " times");
            if (k) MC_CHECK(g.statistics[k].times_chosen_for_crossover <= g.statistics[k - 1].times_chosen_for_crossover,
                            "generation " << i << ": the statistics are not ordered by the times chosen for crossover");
        }
        std::sort(parents.begin(), parents.end());
        if (i)
        {
            if (c.cache <= 0) MC_CHECK(parents == before, "generation " << i << ": the statistics have fitness " << mc::show(parents) << ", the parents had " << mc::show(before));
            long pairs = c.population / 2 - std::min(c.population / 2, c.elites);
            // a couple of which one or both children are infeasible is rejected
            long lo = 2 * (pairs + (g.rejected_couples + 1) / 2), hi = 2 * (pairs + g.rejected_couples);
            MC_CHECK(chosen % 2 == 0 && chosen >= lo && chosen <= hi, "generation " << i << ": parents were chosen " << chosen << " times for " << pairs
                     << " pairs, children were found infeasible " << g.rejected_couples << " times");
        }
        before = f;
    }
}

void reports(const std::vector<int>& sizes, int generations, bool choose, int bits)
{
    Run r;
    r.bits = bits;
    r.menu = { 0, 1, 3 };
    r.choose_fitness = choose;
    if (!choose)
    {
        static const double m[][7] = { { 1, 2, 0, 2.5, 0.1, 1.5, 2 }, { 3, 1, 2, 0.5, 0, 2, 0.25 } };
        int k = mc::choose(2, "function");
        r.menu.assign(m[k], m[k] + 7);
    }
    Config c;
    c.population = sizes[mc::choose(sizes.size(), "population")];
    c.elites = mc::choose(3, "elite pairs");
    c.cache = mc::choose(2, "cache") ? 1 : 0;
    c.max_generations = generations;
    c.stop = mc::choose(2, "stop") ? 2.5 : 1e7;
    r.mutation = mc::choose(3, "mutation");
    int constraint = mc::choose(choose ? 2 : 4, "constraint");
    if (constraint)
    {
        r.feasible.assign(1u << bits, true);
        r.feasible[constraint == 1 ? 1 : 0] = false;
        if (constraint == 3) for (unsigned i = 0; i < 1u << bits; ++i) r.feasible[i] = i % 3 == 1;
    }
    std::vector<unsigned> f = feasible_codes(r);
    c.start = f[0];
    if (mc::choose(2, "initial population given"))
        for (int i = 0; i < c.population; ++i) c.initial.push_back(f[(i * 2 + 1) % f.size()]);
    explore_random();
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    optimize(*g, &r, c);
    check(r, c);
    uint64_t h = hash(r);
    r.restart();
    optimize(*g, &r, c);
    check(r, c);
    for (const Generation& x : r.gens) h = mc::hash_double(x.average, mc::mix(h, x.invalid));
    mc::outcome(mc::mix(h, hash(r)));
}

void larger()
{
    Run r;
    Config c;
    choose_larger(r, c);
    c.cache = mc::choose(2, "cache") ? 1 : 0;
    explore_random();
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    for (int i = 0; i < 2; ++i)
    {
        optimize(*g, &r, c);
        check(r, c);
        mc::outcome(hash(r));
        r.restart();
    }
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("all reports of two consecutive optimizations are compared with what was seen to be evaluated; random draws and mutations deviate from the "
                 "default at every point up to the deviation bound");
    std::cout.setstate(std::ios::badbit);
    mc::Options o;
    o.max_deviations = t ? 2 : 1;
    mc::add("fixed functions", "populations of 2 and 4 (thorough: 6) with 3 genes, 2 functions, 4 constraints, 3 generations",
            [=] { reports(t ? std::vector<int>{ 2, 4, 6 } : std::vector<int>{ 2, 4 }, 3, false, 3); }, o);
    mc::Options oa;
    oa.max_deviations = t ? 1 : 0;
    mc::add("any function", "populations of 2, 4 and 6 with 2 genes, fitness from 3 values, 3 generations", [=] { reports({ 2, 4, 6 }, 3, true, 2); }, oa);
    mc::Options ol;
    ol.max_deviations = 0;
    mc::add("larger", "7-20 genes, populations of 8-50, 4 and 25 generations, 5 sizes of the elite, two runs; fixed draws", larger, ol);
    return mc::run(argc, argv);
}
