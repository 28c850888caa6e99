// O07: crossover, random chromosomes, mutation and text of individuals.
#include "ga_util.h"
#include <k52/optimization/params/int_parameter.h>
#include <cmath>
#include <cstdlib>

using namespace ga;

namespace
{
unsigned code_of(const Individual& i) { return number(i.GetChromosome()); }
unsigned parameters_of(const Individual& i) { return dynamic_cast<const Genes&>(*i.GetParametersAccordingToChromosome()).get(); }
void synchronized(const Individual& i, const char* what)
{
    MC_CHECK(code_of(i) == parameters_of(i), what << ": the chromosome is " << code_of(i) << ", the parameters are " << parameters_of(i));
}
// Values of rand() that are spread over its range and, for any divisor of 60, over all remainders.
const int kDraws = 60;
int draw(int k) { return (int) ((long long) k * 35791393 % 2147483647); }

std::vector<unsigned> cuts(unsigned a, unsigned b, size_t bits)
{
    std::vector<unsigned> r; // first child for each cut point 0..bits
    for (size_t cut = 0; cut <= bits; ++cut)
    {
        unsigned low = (1u << cut) - 1;
        r.push_back((a & low) | (b & ~low & ((1u << bits) - 1)));
    }
    return r;
}

void crossover(size_t max_bits)
{
    Run run;
    run.bits = 1 + mc::choose(max_bits, "genes");
    unsigned n = 1u << run.bits;
    unsigned a = mc::choose(n, "first"), b = mc::choose(n, "second");
    int constraint = mc::choose(4, "constraint");
    if (constraint)
    {
        run.feasible.assign(n, true);
        for (unsigned i = 0; i < n; ++i) run.feasible[i] = constraint == 1 ? i % 2 == 0 : constraint == 2 ? i % 3 != 1 : i == a;
    }
    std::vector<unsigned> expected = cuts(a, b, run.bits), other = cuts(b, a, run.bits);
    std::set<unsigned> seen;
    for (int k = 0; k < kDraws; ++k)
    {
        Genes pa(&run, a), pb(&run, b);
        Individual x(&pa), y(&pb);
        x.set_fitness(3);
        y.set_fitness(5);
        env::reset_random();
        int calls = 0;
        env::set_rand([=, &calls]() { return draw((k + 7 * calls++) % kDraws); });
        bool valid = x.Crossover(&y);
        env::set_rand(std::function<int()>());
        mc::step();
        synchronized(x, "first child");
        synchronized(y, "second child");
        bool found = false;
        for (size_t i = 0; i < expected.size(); ++i) if (expected[i] == code_of(x) && other[i] == code_of(y)) found = true;
        MC_CHECK(found, "the children of " << a << " and " << b << " with " << run.bits << " genes are " << code_of(x) << " and " << code_of(y));
        MC_CHECK(valid == (run.ok(code_of(x)) && run.ok(code_of(y))), "Crossover says " << valid << " about children that are "
                 << run.ok(code_of(x)) << " and " << run.ok(code_of(y)) << " by the constraints");
        MC_CHECK(valid == (x.IsValid() && y.IsValid()), "IsValid differs from what Crossover said");
        MC_CHECK(code_of(x) == a || !x.HasFitness(), "a changed child kept the fitness of its parent");
        MC_CHECK(code_of(y) == b || !y.HasFitness(), "a changed child kept the fitness of its parent");
        seen.insert(code_of(x));
        mc::state(mc::mix(mc::mix(run.bits, a), mc::mix(b, code_of(x))));
    }
    for (size_t i = 0; i + 1 < expected.size(); ++i)
        MC_CHECK(seen.count(expected[i]), "no draw leads to the children of " << a << " and " << b << " cut before gene " << i);
    mc::outcome(mc::mix(a * 64 + b, run.bits * 8 + seen.size()));
}

void different_sizes()
{
    Run ra, rb;
    ra.bits = 1 + mc::choose(4, "genes");
    rb.bits = 1 + mc::choose(4, "genes of the other");
    if (ra.bits == rb.bits) mc::discard();
    unsigned a = mc::choose(1 << ra.bits, "first"), b = mc::choose(1 << rb.bits, "second");
    Genes pa(&ra, a), pb(&rb, b);
    Individual x(&pa), y(&pb);
    bool refused = false;
    try { x.Crossover(&y); } catch (std::invalid_argument&) { refused = true; }
    mc::step();
    MC_CHECK(refused, "crossover of " << ra.bits << " and " << rb.bits << " genes was not refused");
    MC_CHECK(code_of(x) == a && code_of(y) == b, "a refused crossover changed the individuals");
    synchronized(x, "first");
    synchronized(y, "second");
    mc::outcome(a * 100 + b);
}

void random_chromosome(size_t max_bits)
{
    Run run;
    run.bits = 1 + mc::choose(max_bits, "genes");
    unsigned n = 1u << run.bits;
    unsigned mask = 1 + mc::choose((1 << n) - 1, "feasible set");
    run.feasible.assign(n, false);
    for (unsigned i = 0; i < n; ++i) run.feasible[i] = mask >> i & 1;
    std::set<unsigned> seen;
    unsigned start = mc::choose(n, "before");
    for (int way = 0; way < 2; ++way)
        for (int k = 0; k < 64; ++k)
        {
            Genes p(&run, start);
            Individual x(&p);
            x.set_fitness(2);
            run.restart();
            env::reset(k + 1);
            env::reset_random();
            int calls = 0;
            env::set_rand([=, &calls]() {
                int i = calls++;
                int rest = env::next_default();
                if (way == 0) return i ? rest : (rest & ~63) | k;         // bits of one draw
                return i < 6 ? (k >> i & 1 ? 2147483647 : 0) : rest;      // one draw per bit
            });
            int rejected = x.SetRandomChromosome();
            env::set_rand(std::function<int()>());
            mc::step();
            synchronized(x, "random individual");
            MC_CHECK(run.ok(code_of(x)), "the random chromosome " << code_of(x) << " does not satisfy the constraints");
            MC_CHECK(rejected == run.current().rejected, rejected << " invalid chromosomes returned, " << run.current().rejected << " were found invalid");
            MC_CHECK(code_of(x) == start || !x.HasFitness(), "a random individual has the fitness of another one");
            seen.insert(code_of(x));
            mc::state(mc::mix(mask, code_of(x)));
        }
    for (unsigned i = 0; i < n; ++i)
        if (run.ok(i)) MC_CHECK(seen.count(i), "no draw leads to the random chromosome " << i << " of " << run.bits << " genes");
    mc::outcome(mc::mix(mask, run.bits));
}

// a mutator whose results are chosen by the explorer
class Scripted : public IMutator
{
public:
    Scripted(Run* run, int depth) : run_(run), depth_(depth), calls(0), last(0), expected(0) {}
    virtual void ApplyNewMutationContext(const MutationContext&) {}
    virtual void MutateChromosome(ChromosomeType* c)
    {
        MC_CHECK(c->size() == run_->bits, "a chromosome of " << c->size() << " genes is mutated instead of " << run_->bits);
        MC_CHECK(number(*c) == expected, "the mutator is given " << number(*c) << ", the individual is " << expected);
        unsigned n = 1u << run_->bits;
        MC_CHECK(calls == 0 || !run_->ok(last), "a feasible individual was mutated again");
        last = mc::choose(n, "mutant");
        if (++calls >= depth_) for (unsigned i = 0; i < n && !run_->ok(last); ++i) last = (last + 1) % n;
        for (size_t i = 0; i < c->size(); ++i) (*c)[i] = last >> i & 1;
        expected = last;
    }
private:
    Run* run_;
    int depth_;
public:
    int calls;
    unsigned last, expected;
};

void mutation(size_t max_bits, int depth)
{
    Run run;
    run.bits = 1 + mc::choose(max_bits, "genes");
    unsigned n = 1u << run.bits;
    unsigned mask = 1 + mc::choose((1 << n) - 1, "feasible set");
    run.feasible.assign(n, false);
    for (unsigned i = 0; i < n; ++i) run.feasible[i] = mask >> i & 1;
    unsigned start = mc::choose(n, "before");
    Genes p(&run, start);
    Individual x(&p);
    x.set_fitness(2);
    Scripted* m = new Scripted(&run, depth);
    IMutator::shared_ptr keep(m);
    m->expected = start;
    int rejected = x.Mutate(keep);
    mc::step();
    synchronized(x, "mutant");
    MC_CHECK(m->calls >= 1, "the individual was not mutated");
    MC_CHECK(code_of(x) == m->last, "the mutant is " << code_of(x) << ", the mutator made " << m->last);
    MC_CHECK(run.ok(code_of(x)), "the mutant " << code_of(x) << " does not satisfy the constraints");
    MC_CHECK(rejected == m->calls - 1, rejected << " invalid chromosomes returned after " << m->calls << " mutations");
    MC_CHECK(code_of(x) == start || !x.HasFitness(), "a mutant kept its fitness");
    MC_CHECK(parameters_of(x) == code_of(x) && dynamic_cast<const Genes&>(p).get() == start, "the original parameters were changed");
    mc::state(mc::mix(mc::mix(mask, start), code_of(x)));
    mc::outcome(mc::mix(mc::mix(mask, start), mc::mix(code_of(x), rejected)));
}

void text(size_t max_bits)
{
    Run run;
    run.bits = 1 + mc::choose(max_bits, "genes");
    unsigned n = 1u << run.bits;
    unsigned a = mc::choose(n, "written"), b = mc::choose(n, "before");
    static const double values[] = { 0, 1, 0.25, 1234.5, 1e-7, 3e20 };
    double fitness = values[mc::choose(6, "fitness")];
    int damage = mc::choose(5, "damage"); // 0 none, 1 longer, 2 shorter, 3 another character, 4 negative fitness
    Genes pa(&run, a), pb(&run, b);
    Individual x(&pa), y(&pb);
    x.set_fitness(fitness);
    std::stringstream s;
    s << x;
    std::string t = s.str();
    size_t at = t.find_first_of("01");
    if (damage == 1) t.insert(at, "1");
    if (damage == 2) t.erase(at, 1);
    if (damage == 3) t[at + mc::choose(run.bits, "place")] = 'x';
    if (damage == 4 && fitness == 0) mc::discard();
    if (damage == 4) t.insert(t.find("Fitness:") + 9, "-");
    std::istringstream in(t);
    bool refused = false;
    try { in >> y; } catch (std::logic_error&) { refused = true; }
    mc::step();
    synchronized(y, "individual read");
    if (damage == 2 && run.bits == 1) mc::discard(); // an empty word
    if (damage)
    {
        MC_CHECK(refused, "the individual " << t << " was not refused for " << run.bits << " genes");
        MC_CHECK(code_of(y) == b && !y.HasFitness(), "a refused individual was read in part");
    }
    else
    {
        MC_CHECK(!refused && code_of(y) == a, "the individual " << a << " was read as " << code_of(y) << " from " << t);
        MC_CHECK(std::fabs(y.get_fitness() - fitness) <= 1e-5 * fitness, "the fitness " << fitness << " was read as " << y.get_fitness());
    }
    mc::outcome(mc::hash_double(fitness, a * 64 + damage));
}

// chromosomes of any length, without constraints
class Long : public DiscreteParameters
{
public:
    explicit Long(const ChromosomeType& c) : genes(c) {}
    virtual Long* Clone() const { return new Long(genes); }
    virtual bool CheckConstraints() const { return true; }
    virtual size_t GetChromosomeSize() const { return genes.size(); }
    virtual void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator) const { std::copy(genes.begin(), genes.end(), from); }
    virtual void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to) { genes.assign(from, to); }
    virtual bool HasSameMetaParameters(const IDiscreteParameters* p) const { return dynamic_cast<const Long&>(*p).genes.size() == genes.size(); }
    ChromosomeType genes;
};
const ChromosomeType& long_parameters(const Individual& i) { return dynamic_cast<const Long&>(*i.GetParametersAccordingToChromosome()).genes; }
ChromosomeType pattern(size_t n, int kind)
{
    ChromosomeType c(n);
    for (size_t i = 0; i < n; ++i) c[i] = kind == 0 ? false : kind == 1 ? true : kind == 2 ? i % 2 : (i * i + i / 7) % 3 == 1;
    return c;
}
std::string show(const ChromosomeType& c)
{
    std::string s;
    for (size_t i = 0; i < c.size(); ++i) s += c[i] ? '1' : '0';
    return s;
}
size_t common_prefix(const ChromosomeType& a, const ChromosomeType& b)
{
    size_t i = 0;
    while (i < a.size() && a[i] == b[i]) ++i;
    return i;
}

void long_chromosomes()
{
    static const size_t lengths[] = { 8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 257 };
    size_t n = lengths[mc::choose(sizeof lengths / sizeof *lengths, "genes")];
    ChromosomeType a = pattern(n, mc::choose(4, "first")), b = pattern(n, mc::choose(4, "second"));
    Long pa(a), pb(b);
    std::set<size_t> seen;
    for (size_t k = 0; k < 2 * n; ++k)
    {
        Individual x(&pa), y(&pb);
        x.set_fitness(3);
        env::reset_random();
        // both the remainders and the quotients of the draws reach all genes
        env::set_rand([=]() { return (int) (k < n ? k : (2147483647 / n) * (k - n) + 2147483647 / n / 2); });
        MC_CHECK(x.Crossover(&y), "valid children were rejected");
        env::set_rand(std::function<int()>());
        mc::step();
        const ChromosomeType& c = x.GetChromosome();
        const ChromosomeType& d = y.GetChromosome();
        MC_CHECK(c.size() == n && d.size() == n, "children of parents of " << n << " genes have " << c.size() << " and " << d.size());
        // the first child follows its first parent up to a place, then the second
        size_t first = common_prefix(c, a);
        bool found = true;
        for (size_t i = 0; i < n; ++i) found = found && (i < first ? c[i] == a[i] && d[i] == b[i] : c[i] == b[i] && d[i] == a[i]);
        MC_CHECK(found, "the children of " << show(a) << " and " << show(b) << " are " << show(c) << " and " << show(d));
        MC_CHECK(long_parameters(x) == c && long_parameters(y) == d, "parameters and chromosome of a child differ");
        seen.insert(first);
    }
    for (size_t i = 0; i < n; ++i)
        if (a[i] != b[i]) MC_CHECK(seen.count(i), "no draw leads to the children of " << show(a) << " and " << show(b) << " cut before gene " << i);
    // random chromosomes: each gene takes both values
    std::vector<int> ones(n);
    const int kTries = 64;
    env::reset(mc::seed());
    env::reset_random();
    for (int k = 0; k < kTries; ++k)
    {
        Individual x(&pa);
        MC_CHECK(x.SetRandomChromosome() == 0, "a valid chromosome was rejected");
        mc::step();
        MC_CHECK(x.GetChromosome().size() == n && long_parameters(x) == x.GetChromosome(), "a random chromosome is " << show(x.GetChromosome()));
        for (size_t i = 0; i < n; ++i) ones[i] += x.GetChromosome()[i];
    }
    for (size_t i = 0; i < n; ++i) MC_CHECK(ones[i] > 0 && ones[i] < kTries, "gene " << i << " was the same in " << kTries << " random chromosomes");
    // mutants and text
    struct FlipAll : IMutator
    {
        virtual void ApplyNewMutationContext(const MutationContext&) {}
        virtual void MutateChromosome(ChromosomeType* c) { c->flip(); }
    };
    Individual x(&pa), y(&pb);
    x.Mutate(IMutator::shared_ptr(new FlipAll()));
    ChromosomeType flipped(a);
    flipped.flip();
    MC_CHECK(x.GetChromosome() == flipped && long_parameters(x) == flipped, "the mutant of " << show(a) << " is " << show(x.GetChromosome()));
    x.set_fitness(1.5);
    std::stringstream text;
    text << x;
    text >> y;
    MC_CHECK(y.GetChromosome() == flipped && long_parameters(y) == flipped && y.get_fitness() == 1.5, show(flipped) << " was read as " << show(y.GetChromosome()));
    mc::outcome(n * 16 + seen.size());
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("all individuals of a small number of genes, all feasible sets, all draws of the random generator from a set that is spread over its range and "
                 "over all remainders; results are compared with the definition of the operators, and every result the definition allows must be reachable");
    mc::add("crossover", "all pairs of individuals of 1-5 (thorough: 6) genes, 4 constraints, 60 draws", [=] { crossover(t ? 6 : 5); });
    mc::add("different sizes", "all pairs of individuals of 1-4 genes with different numbers", different_sizes);
    mc::add("random chromosome", "1-3 genes, all feasible sets and previous values, 128 sequences of draws", [=] { random_chromosome(3); });
    mc::add("mutation", "1-2 (thorough: 3) genes, all feasible sets, all sequences of up to 3 mutants", [=] { mutation(t ? 3 : 2, 3); });
    mc::add("text", "all pairs of individuals of 1-3 genes, 6 fitness values, 4 damages", [=] { text(3); });
    mc::add("long chromosomes", "14 lengths of 8-257 genes, pairs of 4 patterns, all cuts", long_chromosomes);
    return mc::run(argc, argv);
}
