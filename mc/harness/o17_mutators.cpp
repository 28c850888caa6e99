// O17: the flip bit mutator and the linear mutator.
#include "ga_util.h"
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/linear_mutator.h>
#include <cmath>
#include <cstdlib>

using namespace ga;

namespace
{
struct Rate { double p; int gap; };
const Rate kRates[] = { { 0.5, 1 }, { 0.4, 1 }, { 0.34, 1 }, { 1 / 3., 2 }, { 0.3, 2 }, { 0.25, 3 }, { 0.2, 4 }, { 0.18, 4 }, { 0.125, 7 }, { 0.11, 8 } };

// positions of the genes that were flipped in a stream of chromosomes of these lengths
std::vector<int> flips(IMutator& m, const std::vector<int>& lengths)
{
    std::vector<int> r;
    int base = 0;
    for (int l : lengths)
    {
        ChromosomeType c(l), before;
        for (int i = 0; i < l; ++i) c[i] = (base + i) % 3 == 1;
        before = c;
        m.MutateChromosome(&c);
        MC_CHECK((int) c.size() == l, "mutation changed the number of genes");
        for (int i = 0; i < l; ++i) if (c[i] != before[i]) r.push_back(base + i);
        base += l;
        mc::step();
    }
    return r;
}

void flip_bit_gaps(int genes)
{
    const Rate& rate = kRates[mc::choose(sizeof kRates / sizeof *kRates, "rate")];
    int cut = mc::choose(4, "chromosomes");
    std::vector<int> lengths;
    for (int left = genes, i = 0; left > 0; ++i)
    {
        int l = cut == 0 ? genes : cut == 1 ? 1 : cut == 2 ? 2 : 1 + i % 3;
        lengths.push_back(std::min(l, left));
        left -= l;
    }
    env::reset_random();
    int modulus = rate.gap + 1;
    env::set_rand([=]() { int k = mc::choose(modulus, "draw"); return modulus * (2147483647 / modulus / modulus) * k + k; });
    FlipBitMutator m(rate.p);
    std::vector<int> f = flips(m, lengths);
    env::set_rand(std::function<int()>());
    int last = -1;
    uint64_t h = 0;
    for (size_t i = 0; i <= f.size(); ++i)
    {
        int at = i < f.size() ? f[i] : genes;
        MC_CHECK(at - last - 1 <= rate.gap, at - last - 1 << " genes in a row were not mutated with probability " << rate.p
                 << ", at most " << rate.gap << " may be");
        h = mc::mix(h, at - last);
        last = at;
    }
    mc::state(h);
    mc::outcome(mc::mix(h, rate.gap));
}

void flip_bit_reach()
{
    const Rate& rate = kRates[mc::choose(sizeof kRates / sizeof *kRates, "rate")];
    int length = 1 + mc::choose(4, "genes");
    std::set<int> first, second;
    for (int way = 0; way < 2; ++way)
    for (int k = 0; k < 2520; ++k)
    {
        env::reset_random();
        int calls = 0;
        env::set_rand([=, &calls]() { int i = calls++; return (int) ((k * 852179LL + (way ? i * 852179LL * 11 : 0)) % 2147483647); });
        FlipBitMutator m(rate.p);
        std::vector<int> f = flips(m, std::vector<int>(24 / length, length));
        env::set_rand(std::function<int()>());
        MC_CHECK(f.size() >= 2, "24 genes were mutated " << f.size() << " times with probability " << rate.p);
        first.insert(f[0]);
        second.insert(f[1] - f[0] - 1);
    }
    for (int g = 0; g <= rate.gap; ++g)
    {
        MC_CHECK(first.count(g), "the first mutation never comes after " << g << " genes with probability " << rate.p);
        MC_CHECK(second.count(g), "there are never " << g << " genes between mutations with probability " << rate.p);
    }
    mc::outcome(mc::mix(rate.gap, length));
}

// long chromosomes, fixed draws
void larger()
{
    static const double rates[] = { 0.5, 0.2, 0.05, 0.01, 1e-3 };
    static const int gaps[] = { 1, 4, 19, 99, 999 };
    int k = mc::choose(5, "rate"), way = mc::choose(4, "lengths"), stream = mc::choose(3, "stream");
    static const int lengths[][3] = { { 64, 64, 64 }, { 1, 33, 200 }, { 129, 3, 31 }, { 1000, 1000, 1000 } };
    std::vector<int> l;
    for (int i = 0; i < 30; ++i) l.push_back(lengths[way][i % 3]);
    int genes = 0;
    for (int i : l) genes += i;
    env::reset(stream + 1);
    env::reset_random();
    FlipBitMutator m(rates[k]);
    std::vector<int> f = flips(m, l);
    int last = -1;
    uint64_t h = k;
    for (size_t i = 0; i <= f.size(); ++i)
    {
        int at = i < f.size() ? f[i] : genes;
        MC_CHECK(at - last - 1 <= gaps[k], at - last - 1 << " genes in a row were not mutated with probability " << rates[k] << ", at most " << gaps[k] << " may be");
        h = mc::mix(h, at - last);
        last = at;
    }
    // the linear mutator: all genes with probability 1, none with 0, about half with 0.5
    static const double p[] = { 0, 0.5, 1 };
    for (double x : p)
    {
        LinearMutator linear(x, x);
        MutationContext c;
        c.current_generation = 0;
        c.max_number_of_generations = 2;
        linear.ApplyNewMutationContext(c);
        int n = flips(linear, l).size();
        MC_CHECK(x == 0 ? n == 0 : x == 1 ? n == genes : std::abs(n - genes / 2) <= 5 * std::sqrt((double) genes), n << " of " << genes << " genes were mutated with probability " << x);
        h = mc::mix(h, n);
    }
    mc::state(h);
    mc::outcome(h);
}

void linear_rates()
{
    static const double p[] = { 0, 0.05, 0.3, 0.5, 0.9, 1 };
    double start = p[mc::choose(6, "start")], end = p[mc::choose(6, "end")];
    int max = 1 + mc::choose(6, "generations");
    LinearMutator m(start, end);
    for (int round = 0; round < 2; ++round)
        for (int g = 0; g < max; ++g)
        {
            MutationContext c;
            c.current_generation = g;
            c.max_number_of_generations = max;
            m.ApplyNewMutationContext(c);
            double expected = max == 1 ? start : start + (end - start) * g / (max - 1);
            int flipped = 0, grid = 1000;
            for (int k = 0; k < grid; ++k)
            {
                int value = (int) (2147483647.0 * (k + 0.5) / grid);
                env::reset_random();
                env::set_rand([=]() { return value; });
                flipped += flips(m, std::vector<int>(1, 1)).size();
                env::set_rand(std::function<int()>());
            }
            MC_CHECK(std::fabs(flipped / (double) grid - expected) <= 0.0025, "generation " << g << " of " << max << ": " << flipped << " of " << grid
                     << " equally likely draws mutate a gene, expected is the probability " << expected << " (from " << start << " to " << end << ")");
            if (expected == 0) MC_CHECK(flipped == 0, "a gene was mutated with probability 0");
            if (expected == 1) MC_CHECK(flipped == grid, "a gene was not mutated with probability 1");
            mc::state(mc::mix(flipped, max));
        }
    mc::outcome(mc::hash_double(start, mc::hash_double(end, max)));
}

void linear_genes()
{
    static const double p[] = { 0, 0.05, 0.5, 0.9, 1 };
    double probability = p[mc::choose(5, "probability")];
    int genes = 1 + mc::choose(5, "genes");
    std::set<unsigned> seen;
    LinearMutator m(probability, probability);
    MutationContext c;
    c.current_generation = 1;
    c.max_number_of_generations = 3;
    m.ApplyNewMutationContext(c);
    for (unsigned k = 0; k < 1u << genes; ++k)
    {
        env::reset_random();
        int calls = 0;
        env::set_rand([=, &calls]() { int i = calls++; return k >> (i % genes) & 1 ? 2147483647 : 1; });
        unsigned f = 0;
        for (int at : flips(m, std::vector<int>(1, genes))) f |= 1u << at;
        env::set_rand(std::function<int()>());
        seen.insert(f);
        if (probability == 0) MC_CHECK(f == 0, "genes were mutated with probability 0");
        if (probability == 1) MC_CHECK(f == (1u << genes) - 1, "a gene was not mutated with probability 1");
    }
    if (probability > 0 && probability < 1)
        MC_CHECK(seen.size() == 1u << genes, "only " << seen.size() << " of " << (1 << genes) << " sets of genes can be mutated: genes are not mutated independently");
    mc::outcome(mc::hash_double(probability, genes));
}

void refusals()
{
    static const double bad_linear[] = { -0.001, -1, 1.001, 2, 1e300 };
    static const double bad_flip[] = { -0.1, -1, -0.5, 0.51, 0.6, 0.75, 0.9, 1, 1.5, 100 };
    static const double good[] = { 0, 0.3, 1 };
    int k = mc::choose(3, "what");
    bool refused = false;
    double p, q = 0.5;
    try
    {
        if (k == 0) { p = bad_flip[mc::choose(10, "p")]; FlipBitMutator m(p); }
        else
        {
            p = bad_linear[mc::choose(5, "p")];
            q = good[mc::choose(3, "q")];
            if (k == 1) LinearMutator m(p, q); else LinearMutator m(q, p);
        }
    }
    catch (std::invalid_argument&) { refused = true; }
    mc::step();
    MC_CHECK(refused, "the probability " << p << " was not refused");
    mc::outcome(mc::hash_double(p, k * 16 + (int) (q * 10)));
}
}
int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("all draws of the random generator from a set that is spread over its range and over all remainders; the genes that are mutated are compared "
                 "with the definition of the mutators, and every result the definition allows must be reachable");
    mc::add("flip bit gaps", "10 probabilities, 4 divisions of 7 (thorough: 9) genes into chromosomes, all sequences of draws", [=] { flip_bit_gaps(t ? 9 : 7); });
    mc::add("flip bit reach", "10 probabilities, chromosomes of 1-4 genes, 2520 draws", flip_bit_reach);
    mc::add("linear rates", "6 x 6 probabilities, 1-6 generations, 1000 equally likely draws", linear_rates);
    mc::add("linear genes", "5 probabilities, 1-5 genes, all combinations of high and low draws", linear_genes);
    mc::add("refusals", "probabilities outside of the range", refusals);
    mc::add("larger", "5 probabilities, 30 chromosomes of up to 1000 genes in 4 arrangements, 3 streams of draws", larger);
    return mc::run(argc, argv);
}
