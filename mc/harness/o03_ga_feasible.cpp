// O03: the genetic algorithm evaluates feasible individuals only, as many as it was asked to.
#include "ga_util.h"
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/linear_mutator.h>

using namespace ga;

namespace
{
void check(const Run& r, const Config& c, unsigned result)
{
    MC_CHECK(!r.gens.empty(), "nothing was evaluated");
    for (size_t i = 0; i < r.gens.size(); ++i)
    {
        const Generation& g = r.gens[i];
        MC_CHECK((int) g.evaluated.size() == c.population, "generation " << i << " has " << g.evaluated.size() << " individuals instead of " << c.population);
        for (unsigned e : g.evaluated)
            MC_CHECK(r.ok(e), "generation " << i << " contains the individual " << e << " which does not satisfy the constraints");
    }
    if (!c.initial.empty())
        MC_CHECK(sorted(r.gens[0].evaluated) == sorted(c.initial), "generation 0 is " << show(r.gens[0].evaluated) << " instead of the initial parameters " << show(c.initial));
    MC_CHECK(r.ok(result), "the result " << result << " does not satisfy the constraints");
}

void constraints(int bits, const std::vector<int>& sizes, int generations)
{
    Run r;
    r.bits = bits;
    r.choose_fitness = false;
    static const double menus[][3] = { { 1, 2, 5 }, { 0, 0, 0 }, { 0, 1e-9, 1e6 } };
    int m = mc::choose(3, "fitness menu");
    r.menu.assign(menus[m], menus[m] + 3);
    Config c;
    c.population = sizes[mc::choose(sizes.size(), "population")];
    c.elites = mc::choose(2, "elite pairs");
    c.max_generations = generations;
    int codes = 1 << bits;
    unsigned mask = 1 + mc::choose((1 << codes) - 1, "feasible set");
    r.feasible.resize(codes);
    for (int i = 0; i < codes; ++i) r.feasible[i] = (mask >> i) & 1;
    r.mutation = mc::choose(3, "mutation");
    std::vector<unsigned> f = feasible_codes(r);
    if (mc::choose(2, "initial population given"))
        for (int i = 0; i < c.population; ++i) c.initial.push_back(f[i % f.size()]);
    c.start = f[0];
    explore_random();
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    check(r, c, (optimize(*g, &r, c)));
    unsigned second = 0;
    // the same object once more
    r.restart();
    second = optimize(*g, &r, c);
    check(r, c, second);
    mc::outcome(mc::mix(hash(r), second));
}

void larger()
{
    Run r;
    Config c;
    choose_larger(r, c);
    explore_random();
    GeneticAlgorithm::shared_ptr g = make(&r, c);
    for (int i = 0; i < 2; ++i)
    {
        unsigned result = optimize(*g, &r, c);
        check(r, c, result);
        mc::outcome(mc::mix(hash(r), result));
        r.restart();
    }
}

// the parameters of the library
struct Box
{
    std::vector<std::vector<double> > seen;
    int infeasible = 0;
};
Box* g_box = 0;

std::vector<double> values(const IParameters* p)
{
    std::vector<double> v;
    if (const IntParameter* i = dynamic_cast<const IntParameter*>(p)) v.push_back(i->get_value());
    else if (const DoubleParameter* d = dynamic_cast<const DoubleParameter*>(p)) v.push_back(d->GetValue());
    else
    {
        const CompositeDiscreteParameters& c = dynamic_cast<const CompositeDiscreteParameters&>(*p);
        for (size_t i = 0; i < c.GetNumberOfParameters(); ++i)
        {
            std::vector<double> w = values(c.GetParameter(i).get());
            v.insert(v.end(), w.begin(), w.end());
        }
    }
    return v;
}

class Sum : public DiscreteObjectiveFunction
{
public:
    using DiscreteObjectiveFunction::operator();
    virtual double operator()(const IDiscreteParameters* p) const
    {
        std::vector<double> v = values(p);
        g_box->seen.push_back(v);
        if (!p->CheckConstraints()) g_box->infeasible++;
        mc::step();
        double s = 10;
        for (double x : v) s += x;
        return s;
    }
    virtual Sum* Clone() const { return new Sum(); }
};

void library(int kinds)
{
    int kind = mc::choose(kinds, "parameters"), mutator = mc::choose(3, "mutator");
    int size = 2 + 2 * mc::choose(2, "population"), elites = mc::choose(2, "elite pairs");
    std::vector<double> lo, hi;
    std::unique_ptr<IDiscreteParameters> p;
    if (kind == 0) { p.reset(new IntParameter(-2, 2)); lo = { -2 }; hi = { 2 }; }
    else if (kind == 1) { p.reset(new IntParameter(0, 8)); lo = { 0 }; hi = { 8 }; }
    else
    {
        std::vector<IDiscreteParameters::shared_ptr> parts;
        parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter(1, 3)));
        parts.push_back(IDiscreteParameters::shared_ptr(new DoubleParameter(0.5, 0.5, 1, 0.1)));
        parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter(-1, 3)));
        lo = { 1, 0.5, -1 }; hi = { 3, 1, 3 };
        if (kind == 2) parts.pop_back(), lo.pop_back(), hi.pop_back();
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        p.reset(c);
        c->Initialize(parts);
    }
    IMutator::shared_ptr m;
    explore_random();
    if (mutator == 0) m.reset(new FlipBitMutator(0.5));
    else if (mutator == 1) m.reset(new LinearMutator(0.9, 0.1));
    else m.reset(new FlipBitMutator(0.2));
    Box box;
    g_box = &box;
    GeneticAlgorithm::shared_ptr g = GeneticAlgorithm::Create(size, elites, 3, m, 0, 1e9);
    MC_CHECK(g, "the genetic algorithm was not created");
    Sum f;
    g->Optimize(f, p.get(), true);
    MC_CHECK((int) box.seen.size() == 3 * size, box.seen.size() << " evaluations in 3 generations of " << size);
    MC_CHECK(box.infeasible == 0, "an individual which does not satisfy its constraints was evaluated");
    uint64_t h = kind;
    for (const std::vector<double>& v : box.seen)
    {
        MC_CHECK(v.size() == lo.size(), "an individual has " << v.size() << " parameters");
        for (size_t i = 0; i < v.size(); ++i)
            MC_CHECK(v[i] >= lo[i] && v[i] <= hi[i], "parameter " << i << " was evaluated at " << v[i] << ", its range is [" << lo[i] << ", " << hi[i] << "]");
        h = mc::hash_doubles(v, h);
        mc::state(h);
    }
    MC_CHECK(p->CheckConstraints(), "the result does not satisfy the constraints");
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::describe("every set of feasible individuals; random draws and mutations deviate from the default at every point, up to the deviation bound; "
                 "two consecutive optimizations by the same object");
    std::cout.setstate(std::ios::badbit);
    mc::Options o;
    o.max_deviations = t ? 2 : 1;
    mc::add("2 genes", "15 feasible sets, populations 2 and 4, 3 mutations, 3 fitness menus, 3 generations, twice", [=] { constraints(2, { 2, 4 }, 3); }, o);
    mc::Options o3;
    o3.max_deviations = t ? 1 : 0;
    mc::add("3 genes", "255 feasible sets, populations 2, 4 and 6, 3 mutations, 3 fitness menus", [=] { constraints(3, { 2, 4, 6 }, t ? 4 : 3); }, o3);
    mc::Options ol;
    ol.max_deviations = t ? 2 : 1;
    mc::add("library parameters", "2 integer and 2 composite parameters, 3 mutators, populations 2 and 4", [=] { library(4); }, ol);
    mc::Options ola;
    ola.max_deviations = 0;
    mc::add("larger", "7-20 genes, populations of 8-50, 4 and 25 generations, 5 sizes of the elite, two runs; fixed draws", larger, ola);
    return mc::run(argc, argv);
}
