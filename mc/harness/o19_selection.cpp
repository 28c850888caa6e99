// O19: the parents of the next generation are drawn in proportion to their fitness.
#include "ga_util.h"
#include <cmath>

using namespace ga;

namespace
{
// times each fitness value was chosen as a parent while generation 1 was made
std::map<double, long> parents(const std::vector<double>& fitness, int elites, const std::function<int()>& draws)
{
    Run r;
    r.bits = fitness.size() <= 8 ? 3 : 7;
    r.choose_fitness = false;
    Config c;
    c.population = fitness.size();
    c.elites = elites;
    c.max_generations = 2;
    for (size_t i = 0; i < fitness.size(); ++i)
    {
        c.initial.push_back(i);
        r.fitness[i] = fitness[i];
    }
    r.menu.assign(1, 1.0);
    env::reset(mc::seed());
    env::reset_random();
    env::set_rand(draws);
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    optimize(*g, &r, c);
    MC_CHECK(r.gens.size() == 2, r.gens.size() << " generations were made instead of 2");
    std::map<double, long> n;
    long all = 0;
    MC_CHECK(r.gens[1].statistics.size() == fitness.size(), "there are statistics of " << r.gens[1].statistics.size() << " individuals instead of " << fitness.size());
    for (const IndividualStatistics& s : r.gens[1].statistics)
    {
        n[s.fitness] += s.times_chosen_for_crossover;
        all += s.times_chosen_for_crossover;
    }
    long expected = fitness.size() - 2 * elites;
    MC_CHECK(all == expected, all << " parents were chosen for " << expected << " children");
    return n;
}

void proportional(int population, const std::vector<double>& menu, int grid)
{
    std::vector<double> f;
    double total = 0;
    for (int i = 0; i < population; ++i) { f.push_back(menu[mc::choose(menu.size(), "fitness")]); total += f.back(); }
    if (total == 0) mc::discard();
    int elites = mc::choose(population / 2, "elite pairs");
    MC_TRACE("fitness " << mc::show(f) << ", " << elites << " elite pairs");
    std::map<double, double> share;
    for (double x : f) share[x] += x / total;
    std::map<double, long> chosen;
    long all = 0;
    for (int k = 0; k < grid; ++k)
    {
        int v = (int) ((k + 0.5) / grid * RAND_MAX);
        std::map<double, long> n = parents(f, elites, [v] { return v; });
        for (auto& i : n) { chosen[i.first] += i.second; all += i.second; }
        mc::step();
    }
    uint64_t h = population;
    for (auto& s : share)
    {
        long n = chosen[s.first];
        h = mc::mix(mc::hash_double(s.first, h), n);
        MC_TRACE("fitness " << s.first << " chosen " << n << " times of " << all);
        if (s.first == 0)
            MC_CHECK(n == 0, "individuals of fitness 0 were chosen " << n << " times");
        double got = (double) n / all;
        MC_CHECK(std::fabs(got - s.second) <= 2.0 / grid, "over " << grid << " evenly spread draws the individuals of fitness " << s.first << " make up "
                 << got << " of the parents, their share of the fitness " << mc::show(f) << " is " << s.second);
    }
    mc::state(h);
    mc::outcome(h);
}

void large(const std::vector<int>& sizes, int grid)
{
    int n = sizes[mc::choose(sizes.size(), "population")], kind = mc::choose(4, "fitness");
    std::vector<double> f;
    double total = 0;
    for (int i = 0; i < n; ++i)
    {
        f.push_back(kind == 0 ? 1 : kind == 1 ? i % 4 : kind == 2 ? (i == n - 1 ? 1 : 0) : (i < n / 2 ? 1e-3 : 2));
        total += f.back();
    }
    int elites = mc::choose(2, "elite pairs") * (n / 4);
    std::map<double, double> share;
    for (double x : f) share[x] += x / total;
    std::map<double, long> chosen;
    long all = 0;
    for (int k = 0; k < grid; ++k)
    {
        int v = (int) ((k + 0.5) / grid * RAND_MAX);
        for (auto& i : parents(f, elites, [v] { return v; })) { chosen[i.first] += i.second; all += i.second; }
        mc::step();
    }
    for (auto& s : share)
    {
        double got = (double) chosen[s.first] / all;
        MC_CHECK(s.first > 0 || got == 0, "individuals of fitness 0 were chosen");
        // each of the places where the individuals border each other costs at most one draw
        int borders = kind == 1 ? n : 2;
        MC_CHECK(std::fabs(got - s.second) <= (double) borders / grid, "over " << grid << " evenly spread draws the individuals of fitness " << s.first << " make up "
                 << got << " of the parents in a population of " << n << ", their share of the fitness is " << s.second);
    }
    mc::state(mc::mix(n, kind));
    mc::outcome(mc::mix(mc::mix(n, kind), elites));
}

// The two parents of a couple are drawn independently of each other.
void independent(int depth, const std::vector<double>& menu)
{
    double a = menu[mc::choose(menu.size(), "fitness")], b = a * (mc::choose(2, "order") ? 1.0625 : 0.9375);
    bool rare = mc::choose(2, "unequal");
    if (rare) b = a * 3;
    std::vector<double> f = { a, b };
    long seen[3] = { 0, 0, 0 };
    // the first draws take all combinations of quarters, those after them are 0.375
    long combinations = 1L << (2 * depth);
    for (long w = 0; w < combinations; ++w)
    {
        int used = 0;
        std::map<double, long> n = parents(f, 0, [&] {
            int q = used < depth ? (w >> (2 * used)) & 3 : 1;
            ++used;
            return (int) ((q + 0.5) / 4 * RAND_MAX);
        });
        long first = n[a];
        MC_CHECK(first >= 0 && first <= 2, "the first individual was chosen " << first << " times for a couple");
        seen[first]++;
        mc::step();
    }
    // which quarters choose the first individual is decided by its share
    double p = rare ? 0.25 : 0.5;
    double want[3] = { (1 - p) * (1 - p), 2 * p * (1 - p), p * p };
    uint64_t h = mc::hash_double(a, 3);
    for (int i = 0; i < 3; ++i)
    {
        double got = (double) seen[i] / combinations;
        MC_TRACE("chosen " << i << " times: " << got);
        MC_CHECK(std::fabs(got - want[i]) < 0.1, "over all draws the individual of fitness " << a << " (the other has " << b << ") is chosen " << i
                 << " times for the couple in " << got << " of the cases instead of " << want[i]);
        h = mc::mix(h, seen[i]);
    }
    mc::state(h);
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    mc::describe("all tuples of fitness values from the menu, for each of them one genetic algorithm run per value of an even grid of random "
                 "draws (all draws of the run equal), parents counted through the reported statistics; all combinations of quarters "
                 "for the first draws of a couple");
    mc::Options o;
    mc::add("two", "population 2: all pairs of 8 fitness values, 100 draws", [] { proportional(2, { 0, 1e-6, 0.5, 1, 2, 3, 10, 1e6 }, 100); }, o);
    mc::add("four", "population 4: all 4-tuples of 5 fitness values, 0..1 elite pairs, 60 draws", [] { proportional(4, { 0, 0.5, 1, 3, 7 }, 60); }, o);
    mc::add("six", "population 6: all 6-tuples of 3 fitness values, 0..2 elite pairs, 40 draws", [] { proportional(6, { 0, 1, 4 }, 40); }, o);
    mc::add("couple", "population 2: all combinations of 4 quarters for the first 4 draws", [] { independent(4, { 1, 0.001, 50 }); }, o);
    mc::add("large", "populations of 16, 40 and 100, 4 distributions of fitness, with and without elite, 400 draws", [] { large({ 16, 40, 100 }, 400); }, o);
    o.thorough_only = true;
    mc::add("four-fine", "population 4: all 4-tuples of 8 fitness values, 0..1 elite pairs, 200 draws", [] { proportional(4, { 0, 1e-6, 0.5, 1, 2, 3, 10, 1e6 }, 200); }, o);
    mc::add("eight", "population 8: all 8-tuples of 3 fitness values, 0..3 elite pairs, 60 draws", [] { proportional(8, { 0, 1, 4 }, 60); }, o);
    mc::add("couple-6", "population 2: all combinations of 4 quarters for the first 6 draws", [] { independent(6, { 1, 0.001, 50 }); }, o);
    return mc::run(argc, argv);
}
