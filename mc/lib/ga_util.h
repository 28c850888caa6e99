// A genetic algorithm under observation: plain gene parameters with an arbitrary
// feasible set, an objective function whose answers are chosen by the explorer
// and a mutator whose mutations are chosen by the explorer.
#pragma once
#include "mc.h"
#include "env.h"
#include "params_util.h"
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/params/discrete_parameters.h>
#include <k52/optimization/discrete_objective_function.h>
#include <algorithm>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <stdexcept>

namespace ga
{
using namespace k52::optimization;

inline unsigned number(const ChromosomeType& c)
{
    unsigned r = 0;
    for (size_t i = 0; i < c.size(); ++i) r |= (unsigned) c[i] << i;
    return r;
}

struct Generation
{
    std::vector<unsigned> evaluated;          // codes given to the objective function
    std::vector<unsigned> mutated;            // what the mutator left behind
    long rejected = 0;                        // constraint checks answered with "no" while it was made
    long rejected_couples = 0;                // and before the first mutation
    long context_generation = -1, context_max = -1; // what the mutator was told before making it
    int contexts = 0;
    // from the callback
    bool reported = false;
    double average = 0, best = 0;
    unsigned best_code = 0;
    long number = -1, hits = 0, invalid = 0;
    std::vector<IndividualStatistics> statistics;
};

struct Run
{
    size_t bits = 2;
    std::vector<bool> feasible;               // by code; empty: all
    std::vector<double> menu;                 // fitness values
    std::map<unsigned, double> fitness;       // chosen lazily
    bool choose_fitness = true;
    std::vector<Generation> gens;
    bool closed = false;                      // the last generation was reported
    long checks = 0;
    int mutation = 0;                         // 0 none, 1 all genes, 2 explored, 3 some genes of some individuals
    int population = 0;
    bool by_count = false;                    // no callback: a generation ends after `population` evaluations
    bool save = false;
    std::vector<std::string> files;
    bool infeasible_evaluated = false;

    bool ok(unsigned c) const { return feasible.empty() || feasible[c]; }
    double value(unsigned c)
    {
        std::map<unsigned, double>::iterator it = fitness.find(c);
        if (it != fitness.end()) return it->second;
        double v = choose_fitness ? menu[mc::choose(menu.size(), "fitness")] : menu[(c * 7 + 3) % menu.size()];
        MC_TRACE("fitness of " << c << " is " << v);
        return fitness[c] = v;
    }
    Generation& current()
    {
        if (gens.empty() || closed) { gens.push_back(Generation()); closed = false; }
        return gens.back();
    }
    double best() const
    {
        double b = -1;
        for (const Generation& g : gens) for (unsigned c : g.evaluated) b = std::max(b, fitness.at(c));
        return b;
    }
    // forget a run but keep the fitness function
    void restart() { gens.clear(); closed = false; checks = 0; infeasible_evaluated = false; }
};

class Genes : public DiscreteParameters
{
public:
    Genes(Run* run, unsigned c) : run_(run), genes_(util::code(c, run->bits)) {}
    unsigned get() const { return number(genes_); }
    virtual Genes* Clone() const { return new Genes(run_, get()); }
    virtual bool CheckConstraints() const
    {
        bool ok = run_->ok(get());
        run_->checks++;
        if (!ok) run_->current().rejected++;
        return ok;
    }
    virtual size_t GetChromosomeSize() const { return genes_.size(); }
    virtual void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const
    {
        MC_CHECK((size_t) (to - from) == genes_.size(), "a chromosome of " << to - from << " genes was asked for, there are " << genes_.size());
        std::copy(genes_.begin(), genes_.end(), from);
    }
    virtual void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to)
    {
        MC_CHECK((size_t) (to - from) == genes_.size(), "a chromosome of " << to - from << " genes was set, there are " << genes_.size());
        std::copy(from, to, genes_.begin());
    }
    virtual bool HasSameMetaParameters(const IDiscreteParameters* p) const
    {
        return dynamic_cast<const Genes&>(*p).genes_.size() == genes_.size();
    }
private:
    Run* run_;
    ChromosomeType genes_;
};

class Objective : public DiscreteObjectiveFunction
{
public:
    explicit Objective(Run* run, double factor = 1) : run_(run), factor_(factor) {}
    using DiscreteObjectiveFunction::operator();
    virtual double operator()(const IDiscreteParameters* p) const
    {
        unsigned c = dynamic_cast<const Genes&>(*p).get();
        if (run_->by_count && !run_->gens.empty() && (int) run_->current().evaluated.size() == run_->population) run_->closed = true;
        run_->current().evaluated.push_back(c);
        if (!run_->ok(c)) run_->infeasible_evaluated = true;
        mc::step();
        double v = run_->value(c);
        MC_TRACE("evaluate " << c << " -> " << v * factor_);
        return v * factor_;
    }
    virtual Objective* Clone() const { return new Objective(run_, factor_); }
private:
    Run* run_;
    double factor_;
};

class Mutator : public IMutator
{
public:
    explicit Mutator(Run* run) : run_(run) {}
    virtual void ApplyNewMutationContext(const MutationContext& c)
    {
        Generation& g = run_->current();
        if (run_->by_count && (int) g.evaluated.size() == run_->population) { run_->closed = true; }
        Generation& n = run_->current();
        n.contexts++;
        n.context_generation = c.current_generation;
        n.context_max = c.max_number_of_generations;
    }
    virtual void MutateChromosome(ChromosomeType* c)
    {
        if (run_->current().mutated.empty()) run_->current().rejected_couples = run_->current().rejected;
        unsigned before = number(*c), all = run_->bits < 32 ? (1u << run_->bits) - 1 : ~0u, after = before;
        MC_CHECK(c->size() == run_->bits, "a chromosome of " << c->size() << " genes was given to the mutator, there are " << run_->bits);
        if (run_->mutation == 1) after = before ^ all;
        if (run_->mutation == 2)
        {
            int m = mc::deviate(all + 1, "mutate");
            after = before ^ (unsigned) m;
        }
        if (run_->mutation == 3)
        {
            uint64_t h = mc::mix(mc::mix(before, run_->gens.size()), run_->current().mutated.size());
            if (h % 5 == 0) after = before ^ (1u << h / 5 % run_->bits);
        }
        // whatever the mutation, going on from an infeasible individual comes to an end
        if (!run_->ok(before)) after = (before + 1) & all;
        for (size_t i = 0; i < c->size(); ++i) (*c)[i] = (after >> i) & 1;
        MC_TRACE("mutate " << before << " -> " << after);
        run_->current().mutated.push_back(after);
    }
private:
    Run* run_;
};

inline Run*& observed() { static Run* r = 0; return r; }

inline void callback(GenerationStatistics s)
{
    Run& r = *observed();
    Generation& g = r.current();
    MC_CHECK(!g.reported, "a generation was reported twice");
    g.reported = true;
    g.average = s.get_average_fitness();
    g.best = s.get_best_fitness();
    g.best_code = dynamic_cast<const Genes&>(*s.get_best_parameters()).get();
    g.number = s.get_number_of_generation();
    g.hits = s.get_cache_hits();
    g.invalid = s.get_invalid_chromosomes();
    std::list<IndividualStatistics> l = s.get_all_individuals_statistics();
    g.statistics.assign(l.begin(), l.end());
    for (const std::string& f : r.files) if (r.save) s.SaveCurrentPopulationToFile(f);
    MC_TRACE("generation " << g.number << " reported: best " << g.best << " (" << g.best_code << "), average " << g.average
             << ", cache hits " << g.hits << ", invalid " << g.invalid);
    r.closed = true;
    mc::step();
}

inline std::vector<IDiscreteParameters::shared_ptr> population(Run* run, const std::vector<unsigned>& codes)
{
    std::vector<IDiscreteParameters::shared_ptr> r;
    for (unsigned c : codes) r.push_back(IDiscreteParameters::shared_ptr(new Genes(run, c)));
    return r;
}

// all multisets of n codes out of `codes`, one of which is chosen
inline std::vector<unsigned> choose_population(const std::vector<unsigned>& codes, int n)
{
    std::vector<unsigned> r;
    int from = 0;
    for (int i = 0; i < n; ++i)
    {
        from += mc::choose((int) codes.size() - from, "initial individual");
        r.push_back(codes[from]);
    }
    return r;
}

inline std::vector<unsigned> feasible_codes(const Run& r)
{
    std::vector<unsigned> c;
    for (unsigned i = 0; i < 1u << r.bits; ++i) if (r.ok(i)) c.push_back(i);
    return c;
}

// random draws: the default stream with deviations to its ends and middle
inline void explore_random()
{
    env::reset(mc::seed());
    env::reset_random();
    env::set_rand([] {
        static const int menu[] = { 0, 0, RAND_MAX, RAND_MAX / 2, RAND_MAX / 4 + 1, 3 * (RAND_MAX / 4) };
        int d = env::next_default();
        int i = mc::deviate(6, "random");
        return i ? menu[i] : d;
    });
}

inline std::string show(const std::vector<unsigned>& v)
{
    std::ostringstream o;
    for (unsigned c : v) o << (o.tellp() ? " " : "") << c;
    return "{" + o.str() + "}";
}

inline uint64_t hash(const Run& r)
{
    uint64_t h = r.gens.size();
    for (const Generation& g : r.gens)
    {
        std::vector<unsigned> s(g.evaluated);
        std::sort(s.begin(), s.end());
        for (unsigned c : s) h = mc::mix(h, c);
        h = mc::mix(h, 99);
        mc::state(h);
    }
    for (auto& f : r.fitness) h = mc::hash_double(f.second, mc::mix(h, f.first));
    return h;
}
} // namespace ga

namespace ga
{
struct Config
{
    int population = 2, elites = 0, max_generations = 3;
    double cache = 0, stop = 1e7;
    std::string file;
    std::vector<unsigned> initial;           // empty: random
    bool with_callback = true;
    unsigned start = 0;
};

inline GeneticAlgorithm::shared_ptr make(Run* run, const Config& c, IMutator::shared_ptr m = IMutator::shared_ptr())
{
    if (!m) m.reset(new Mutator(run));
    GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(c.population, c.elites, c.max_generations, m, c.cache, c.stop, c.file);
    MC_CHECK(g, "the genetic algorithm was not created");
    return g;
}

// one optimization; returns the code it left in the parameters
inline unsigned optimize(GeneticAlgorithm& g, Run* run, const Config& c, double factor = 1)
{
    observed() = run;
    run->population = c.population;
    run->by_count = !c.with_callback;
    if (c.with_callback) g.OnNextGenerationReadyConnect(callback);
    if (!c.initial.empty()) g.SetInitialParameters(population(run, c.initial));
    Genes p(run, c.start);
    Objective f(run, factor);
    MC_TRACE("optimize: population " << c.population << ", " << c.elites << " elite pairs, " << c.max_generations << " generations, cache " << c.cache
             << ", stop at " << c.stop << (c.initial.empty() ? "" : ", initial " + show(c.initial)));
    g.Optimize(f, &p, true);
    while (!run->gens.empty() && run->gens.back().evaluated.empty() && !run->gens.back().reported) run->gens.pop_back();
    MC_TRACE("result " << p.get());
    return p.get();
}

inline std::vector<unsigned> sorted(std::vector<unsigned> v) { std::sort(v.begin(), v.end()); return v; }

// Runs beyond the sizes that are explored completely: every combination of these, with fixed draws.
inline void choose_larger(Run& r, Config& c)
{
    static const int bits[] = { 7, 12, 20 }, sizes[] = { 8, 20, 50 }, generations[] = { 4, 25 };
    r.bits = bits[mc::choose(3, "genes")];
    c.population = sizes[mc::choose(3, "population")];
    c.max_generations = generations[mc::choose(2, "generations")];
    int e = mc::choose(5, "elite pairs");
    c.elites = e < 2 ? e : e == 2 ? c.population / 4 : e == 3 ? c.population / 2 - 1 : c.population / 2;
    r.choose_fitness = false;
    r.menu.clear();
    for (int i = 0; i < 61; ++i) r.menu.push_back(i % 9 ? (i % 3 ? 0.25 * i : 1.0 / i) : i);
    c.stop = mc::choose(2, "stop") ? 54 : 1e7;
    r.mutation = mc::choose(2, "mutation") ? 3 : 0;
    if (r.bits < 20 && mc::choose(2, "constraint"))
    {
        r.feasible.assign(1u << r.bits, true);
        for (unsigned i = 0; i < r.feasible.size(); ++i) r.feasible[i] = i % 5 != 2;
    }
    c.start = 1;
    if (mc::choose(2, "initial population given"))
        for (unsigned i = 0; (int) c.initial.size() < c.population; ++i)
        {
            unsigned code = i * 2654435761u >> (32 - r.bits);
            if (r.ok(code)) c.initial.push_back(code);
        }
}
} // namespace ga
