// O05: caching fitness values does not change what the genetic algorithm does.
#include "ga_util.h"
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/linear_mutator.h>

using namespace ga;

namespace
{
struct Draws
{
    std::vector<int> made;
    size_t next = 0;
    bool replay = false;
};
Draws* g_draws = 0;

// the first run explores the draws, the others repeat them
void record(Draws* d)
{
    g_draws = d;
    explore_random();
    env::set_rand([] {
        static const int menu[] = { 0, 0, RAND_MAX, RAND_MAX / 2, RAND_MAX / 4 + 1, 3 * (RAND_MAX / 4) };
        int v;
        if (g_draws->next < g_draws->made.size()) v = g_draws->made[g_draws->next];
        else
        {
            v = env::next_default();
            if (!g_draws->replay) { int i = mc::deviate(6, "random"); if (i) v = menu[i]; }
            g_draws->made.push_back(v);
        }
        g_draws->next++;
        return v;
    });
}
void again(Draws* d)
{
    env::set_rand(std::function<int()>());
    env::reset(mc::seed());
    env::reset_random();
    d->next = 0;
    d->replay = true;
    size_t before = d->made.size();
    (void) before;
    g_draws = d;
    std::vector<int> made = d->made;
    env::set_rand([] {
        int v = g_draws->next < g_draws->made.size() ? g_draws->made[g_draws->next] : env::next_default();
        g_draws->next++;
        return v;
    });
}

IMutator::shared_ptr mutator(int kind, Run* r)
{
    IMutator::shared_ptr m;
    if (kind == 0) m.reset(new Mutator(r));
    else if (kind == 1) { r->mutation = 1; m.reset(new Mutator(r)); }
    else if (kind == 2) m.reset(new FlipBitMutator(0.3));
    else m.reset(new LinearMutator(0.4, 0.1));
    return m;
}

void same(const Run& a, const Run& b, bool to_the_end)
{
    if (to_the_end) MC_CHECK(a.gens.size() == b.gens.size(), b.gens.size() << " generations with a cache, " << a.gens.size() << " without");
    MC_CHECK(b.gens.size() <= a.gens.size(), b.gens.size() << " generations with a cache, " << a.gens.size() << " without");
    for (size_t i = 0; i < b.gens.size(); ++i)
    {
        const Generation& x = a.gens[i];
        const Generation& y = b.gens[i];
        if (!y.reported) continue;
        MC_CHECK(x.best == y.best && x.best_code == y.best_code, "generation " << i << ": the best is " << y.best_code << " (" << y.best << ") with a cache, "
                 << x.best_code << " (" << x.best << ") without");
        MC_CHECK(x.average == y.average, "generation " << i << ": the average fitness is " << y.average << " with a cache, " << x.average << " without");
        MC_CHECK(x.invalid == y.invalid, "generation " << i << ": " << y.invalid << " invalid chromosomes with a cache, " << x.invalid << " without");
        std::vector<unsigned> all = sorted(x.evaluated);
        for (unsigned e : y.evaluated)
            MC_CHECK(std::count(y.evaluated.begin(), y.evaluated.end(), e) <= std::count(all.begin(), all.end(), e),
                     "generation " << i << " is " << show(x.evaluated) << ", with a cache " << show(y.evaluated) << " was evaluated");
    }
}

void economical(const Run& a, const Run& b, int population)
{
    std::set<unsigned> known;
    for (size_t i = 0; i < b.gens.size(); ++i)
    {
        const Generation& y = b.gens[i];
        for (unsigned e : y.evaluated)
            MC_CHECK(!known.count(e), "generation " << i << ": " << e << " was evaluated again although its fitness is known");
        known.insert(y.evaluated.begin(), y.evaluated.end());
        for (unsigned e : a.gens[i].evaluated)
            MC_CHECK(known.count(e), "generation " << i << " contains " << e << ", which was never evaluated");
        MC_CHECK(y.hits == population - (long) y.evaluated.size(), "generation " << i << ": " << y.hits << " cache hits, but "
                 << y.evaluated.size() << " of " << population << " individuals were evaluated");
        MC_CHECK(a.gens[i].hits == 0, "generation " << i << ": " << a.gens[i].hits << " cache hits without a cache");
    }
}

void transparent(const std::vector<int>& sizes, int bits, bool choose, bool small)
{
    Config c;
    c.population = sizes[mc::choose(sizes.size(), "population")];
    c.elites = mc::choose(2, "elite pairs");
    c.max_generations = 4;
    c.stop = mc::choose(2, "stop") ? 3 : 1e7;
    int kind = mc::choose(4, "mutator");
    static const double limits[] = { 1, 1e-7, 1e-4, 3e-4, 100 };
    double limit = small ? limits[mc::choose(4, "cache limit")] : 1;
    bool given = mc::choose(2, "initial population given");
    Run a;
    a.bits = bits;
    a.choose_fitness = choose;
    a.menu = { 0, 1, 3 };
    if (!choose)
    {
        static const double m[][7] = { { 1, 2, 0, 2.5, 0.1, 1.5, 2 }, { 3, 1, 2, 0.5, 0, 2, 0.25 } };
        int k = mc::choose(2, "function");
        a.menu.assign(m[k], m[k] + 7);
    }
    if (mc::choose(2, "constraints"))
    {
        a.feasible.assign(1u << bits, true);
        a.feasible[1] = false;
    }
    std::vector<unsigned> f = feasible_codes(a);
    if (given) for (int i = 0; i < c.population; ++i) c.initial.push_back(f[(i * 2 + 1) % f.size()]);
    Run b(a);
    Draws d;
    record(&d);
    GeneticAlgorithm::shared_ptr ga = make(&a, c, mutator(kind, &a));
    unsigned ra = optimize(*ga, &a, c);
    again(&d);
    b.fitness = a.fitness;
    Config cc = c;
    cc.cache = limit;
    GeneticAlgorithm::shared_ptr gb = make(&b, cc, mutator(kind, &b));
    bool full = false;
    unsigned rb = 0;
    try { rb = optimize(*gb, &b, cc); }
    catch (const std::runtime_error&)
    {
        MC_CHECK(limit < 1, "an exception with a cache of " << limit << " megabytes");
        full = true;
    }
    MC_TRACE((full ? "the cache is full" : "done"));
    same(a, b, !full);
    if (!full) MC_CHECK(ra == rb, "the result is " << rb << " with a cache, " << ra << " without");
    if (limit >= 1) economical(a, b, c.population);
    mc::outcome(mc::mix(mc::mix(hash(a), ra), full));
}

void larger()
{
    Run a;
    Config c;
    choose_larger(a, c);
    static const double limits[] = { 10, 2e-3, 2e-2 };
    double limit = limits[mc::choose(3, "cache limit")];
    Run b(a);
    Draws d;
    record(&d);
    GeneticAlgorithm::shared_ptr ga = make(&a, c);
    unsigned ra = optimize(*ga, &a, c);
    again(&d);
    b.fitness = a.fitness;
    Config cc = c;
    cc.cache = limit;
    GeneticAlgorithm::shared_ptr gb = make(&b, cc);
    bool full = false;
    unsigned rb = 0;
    try { rb = optimize(*gb, &b, cc); }
    catch (const std::runtime_error&)
    {
        MC_CHECK(limit < 10, "an exception with a cache of " << limit << " megabytes");
        full = true;
    }
    MC_TRACE((full ? "the cache is full" : "done"));
    same(a, b, !full);
    if (!full) MC_CHECK(ra == rb, "the result is " << rb << " with a cache, " << ra << " without");
    if (limit >= 10) economical(a, b, c.population);
    mc::outcome(mc::mix(mc::mix(hash(a), ra), full));
}

// one object with a cache optimizes different functions, each like a new object without
void histories(int runs)
{
    Config c;
    c.population = 4;
    c.max_generations = 2;
    c.cache = 1;
    c.elites = mc::choose(2, "elite pairs");
    int kind = mc::choose(2, "mutator");
    Run first;
    Run* current = &first;
    struct Forward : IMutator
    {
        Run** r;
        virtual void ApplyNewMutationContext(const MutationContext& m) { Mutator(*r).ApplyNewMutationContext(m); }
        virtual void MutateChromosome(ChromosomeType* x) { Mutator(*r).MutateChromosome(x); }
    };
    Forward* fw = new Forward();
    fw->r = &current;
    GeneticAlgorithm::shared_ptr g = make(current, c, IMutator::shared_ptr(fw));
    uint64_t h = kind;
    for (int i = 0; i < runs; ++i)
    {
        Run a;
        a.bits = 2 + mc::choose(2, "genes");
        a.choose_fitness = false;
        static const double m[][3] = { { 1, 2, 0 }, { 2, 0.5, 5 }, { 0, 0, 1 } };
        int k = mc::choose(3, "function");
        a.menu.assign(m[k], m[k] + 3);
        a.mutation = kind;
        Run b(a);
        Draws d;
        record(&d);
        Config cu = c;
        cu.cache = 0;
        GeneticAlgorithm::shared_ptr u = make(&a, cu);
        unsigned ra = optimize(*u, &a, cu);
        again(&d);
        b.fitness = a.fitness;
        current = &b;
        unsigned rb = optimize(*g, &b, c);
        current = &first;
        same(a, b, true);
        MC_CHECK(ra == rb, "run " << i << ": the result is " << rb << " with a cache, " << ra << " without");
        economical(a, b, c.population);
        h = mc::mix(h, mc::mix(hash(a), ra));
    }
    mc::outcome(h);
}
// Two chromosomes of 64 genes with the same boost::hash (found by a search for collisions).
const uint64_t twin_a = 0x0023ede9c3516163ull, twin_b = 0xda233dddf8a079c2ull;

uint64_t wide(const ChromosomeType& c)
{
    uint64_t r = 0;
    for (size_t i = 0; i < c.size(); ++i) r |= (uint64_t) c[i] << i;
    return r;
}
ChromosomeType genes_of(uint64_t w)
{
    ChromosomeType c(64);
    for (size_t i = 0; i < 64; ++i) c[i] = (w >> i) & 1;
    return c;
}
class Wide : public DiscreteParameters
{
public:
    explicit Wide(uint64_t w) : w_(w) {}
    uint64_t get() const { return w_; }
    virtual Wide* Clone() const { return new Wide(w_); }
    virtual bool CheckConstraints() const { return true; }
    virtual size_t GetChromosomeSize() const { return 64; }
    virtual void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator) const
    {
        ChromosomeType c = genes_of(w_);
        std::copy(c.begin(), c.end(), from);
    }
    virtual void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to) { w_ = wide(ChromosomeType(from, to)); }
    virtual bool HasSameMetaParameters(const IDiscreteParameters*) const { return true; }
private:
    uint64_t w_;
};
struct WideRun
{
    std::map<uint64_t, double> fitness;
    std::vector<double> menu;
    std::vector<std::pair<double, double> > reported;      // best, average
    std::vector<uint64_t> best;
    std::set<uint64_t> evaluated;
    double value(uint64_t c)
    {
        if (!fitness.count(c)) fitness[c] = menu[(c * 0x9e3779b97f4a7c15ull >> 40) % menu.size()];
        return fitness[c];
    }
};
WideRun* g_wide = 0;
class WideObjective : public DiscreteObjectiveFunction
{
public:
    explicit WideObjective(WideRun* r) : r_(r) {}
    using DiscreteObjectiveFunction::operator();
    virtual double operator()(const IDiscreteParameters* p) const
    {
        uint64_t c = dynamic_cast<const Wide&>(*p).get();
        double v = r_->value(c);
        MC_TRACE("evaluate " << (c == twin_a ? "a" : c == twin_b ? "b" : "another") << " -> " << v);
        mc::step();
        r_->evaluated.insert(c);
        return v;
    }
    virtual WideObjective* Clone() const { return new WideObjective(r_); }
private:
    WideRun* r_;
};
// turns every individual into a, b or one made by the crossover, in a given pattern
class WideMutator : public IMutator
{
public:
    explicit WideMutator(std::vector<int> pattern) : pattern_(pattern), next_(0) {}
    virtual void ApplyNewMutationContext(const MutationContext&) {}
    virtual void MutateChromosome(ChromosomeType* c)
    {
        int k = pattern_[next_++ % pattern_.size()];
        if (k == 1) *c = genes_of(twin_a);
        if (k == 2) *c = genes_of(twin_b);
    }
private:
    std::vector<int> pattern_;
    size_t next_;
};
void wide_callback(GenerationStatistics s)
{
    g_wide->reported.push_back(std::make_pair(s.get_best_fitness(), s.get_average_fitness()));
    g_wide->best.push_back(dynamic_cast<const Wide&>(*s.get_best_parameters()).get());
}
uint64_t wide_optimize(WideRun* r, int population, int elites, double cache, const std::vector<uint64_t>& initial, const std::vector<int>& pattern)
{
    env::set_rand(std::function<int()>());
    env::reset(mc::seed());
    env::reset_random();
    g_wide = r;
    GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(population, elites, 4, IMutator::shared_ptr(new WideMutator(pattern)), cache, 1e7, "");
    g->OnNextGenerationReadyConnect(wide_callback);
    std::vector<IDiscreteParameters::shared_ptr> p;
    for (uint64_t w : initial) p.push_back(IDiscreteParameters::shared_ptr(new Wide(w)));
    g->SetInitialParameters(p);
    Wide result(0);
    g->Optimize(WideObjective(r), &result, true);
    return result.get();
}
void twins(int length)
{
    int population = mc::choose(2, "population") ? 4 : 2;
    int elites = mc::choose(2, "elite pairs");
    static const double values[] = { 1, 2, 0.25 };
    double fa = values[mc::choose(3, "fitness of a")], fb = values[mc::choose(3, "fitness of b")];
    std::vector<uint64_t> initial;
    static const uint64_t some[] = { twin_a, twin_b, 0x123456789abcdef0ull };
    for (int i = 0; i < population; ++i) initial.push_back(some[mc::choose(3, "initial individual")]);
    std::vector<int> pattern;
    for (int i = 0; i < length; ++i) pattern.push_back(mc::choose(3, "mutation"));
    WideRun a;
    a.menu = { 0.5, 1.5, 0 };
    a.fitness[twin_a] = fa;
    a.fitness[twin_b] = fb;
    WideRun b(a);
    uint64_t ra = wide_optimize(&a, population, elites, 0, initial, pattern);
    uint64_t rb = wide_optimize(&b, population, elites, 1, initial, pattern);
    MC_CHECK(a.reported.size() == b.reported.size(), b.reported.size() << " generations with a cache, " << a.reported.size() << " without");
    for (size_t i = 0; i < a.reported.size(); ++i)
        MC_CHECK(a.reported[i] == b.reported[i] && a.best[i] == b.best[i], "generation " << i << ": best " << b.reported[i].first << " and average "
                 << b.reported[i].second << " with a cache, " << a.reported[i].first << " and " << a.reported[i].second << " without");
    MC_CHECK(ra == rb, "the results with and without a cache differ");
    uint64_t h = mc::hash_double(a.reported.back().second, ra);
    for (size_t i = 0; i < a.reported.size(); ++i) h = mc::hash_double(a.reported[i].second, mc::mix(h, a.best[i]));
    mc::state(h);
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("each optimization without a cache is repeated with one, on the same random draws, which deviate from the default at every point up to the deviation bound");
    std::cout.setstate(std::ios::badbit);
    mc::Options o;
    o.max_deviations = t ? 2 : 1;
    mc::add("fixed functions", "populations 2, 4 (thorough: 6) of 3 genes, 4 generations, 4 mutators, 2 functions, 4 cache limits",
            [=] { transparent(t ? std::vector<int>{ 2, 4, 6 } : std::vector<int>{ 2, 4 }, 3, false, true); }, o);
    mc::Options oa;
    oa.max_deviations = t ? 1 : 0;
    mc::add("any function", "populations 2 and 4 of 2 genes, fitness from 3 values", [=] { transparent({ 2, 4 }, 2, true, false); }, oa);
    mc::Options oh;
    oh.max_deviations = t ? 1 : 0;
    mc::add("histories", "3 runs of one object, 3 functions, 2 sizes", [=] { histories(3); }, oh);
    mc::add("chromosomes with the same hash", "2 chromosomes of 64 genes with the same hash, all populations of 2 and 4 made of them and another, all mutation patterns of length 3 (thorough: 4)",
            [=] { twins(t ? 4 : 3); }, oh);
    mc::Options ol;
    ol.max_deviations = 0;
    mc::add("larger", "7-20 genes, populations of 8-50, 4 and 25 generations, 5 sizes of the elite, 3 cache limits; fixed draws", larger, ol);
    return mc::run(argc, argv);
}
