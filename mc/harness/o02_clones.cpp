// O02: clones and copies are equal and independent; objects not initialized are refused.
#include "mc.h"
#include "params_util.h"
#include <k52/optimization/individual.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <memory>

using namespace k52::optimization;
using namespace util;

namespace
{
typedef std::unique_ptr<IDiscreteParameters> Owned;
typedef IDiscreteParameters::shared_ptr Part;
const int kKinds = 6;

IDiscreteParameters* make(int kind)
{
    switch (kind)
    {
    case 0: return new IntParameter(1, -2, 5);
    case 1: return new DoubleParameter(0.25, -1, 1, 0.3);
    case 2: { DoubleParametersArray* a = new DoubleParametersArray(0, 1, 0.4, 2); a->SetValues(std::vector<double>(2, 0)); return a; }
    case 3:
    {
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        std::vector<Part> parts;
        parts.push_back(Part(make(0)));
        parts.push_back(Part(make(1)));
        c->Initialize(parts);
        return c;
    }
    case 4:
    {
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        c->Initialize(Part(make(2)), 2);
        return c;
    }
    default:
    {
        CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
        std::vector<Part> parts;
        parts.push_back(Part(make(3)));
        parts.push_back(Part(make(0)));
        c->Initialize(parts);
        return c;
    }
    }
}
const char* kName[] = { "IntParameter", "DoubleParameter", "DoubleParametersArray", "composite", "composite of arrays", "nested composite" };

// a direct modification that does not go through a chromosome; keeps codes on the grid
void modify(int kind, IDiscreteParameters& p)
{
    switch (kind)
    {
    case 0: static_cast<IntParameter&>(p).set_value(5); break;
    case 1: static_cast<DoubleParameter&>(p).SetValue(1); break;
    case 2: static_cast<DoubleParametersArray&>(p).SetValues({ 1, 0 }); break;
    case 3: modify(1, *static_cast<CompositeDiscreteParameters&>(p).GetParameter(1)); break;
    case 4: modify(2, *static_cast<CompositeDiscreteParameters&>(p).GetParameter(1)); break;
    default: modify(3, *static_cast<CompositeDiscreteParameters&>(p).GetParameter(0)); break;
    }
}

void clones(int slots, int depth)
{
    int kind = mc::choose(kKinds, "kind");
    MC_TRACE(kName[kind]);
    std::vector<Owned> p(slots);
    std::vector<ChromosomeType> model(slots);
    std::vector<bool> there(slots, false);
    p[0].reset(make(kind));
    model[0] = encode(*p[0]);
    there[0] = true;
    size_t bits = p[0]->GetChromosomeSize();
    // the direct modification's effect, seen on objects that are never cloned
    ChromosomeType direct_mask(bits), direct_value(bits);
    {
        Owned a(make(kind)), b(make(kind));
        ChromosomeType zeros(bits), ones(bits, true);
        decode(*a, zeros); decode(*b, ones);
        modify(kind, *a); modify(kind, *b);
        ChromosomeType ca = encode(*a), cb = encode(*b);
        for (size_t i = 0; i < bits; ++i) { direct_mask[i] = ca[i] == cb[i]; direct_value[i] = ca[i]; }
    }
    uint64_t h = kind;
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(6, "operation");
        if (op == 5) break;
        int i = mc::choose(slots, "slot");
        mc::step();
        switch (op)
        {
        case 0: case 1: case 2:
            if (!there[i]) mc::discard();
            model[i] = op == 0 ? ChromosomeType(bits) : op == 1 ? ChromosomeType(bits, true) : code(0x5a3, bits);
            MC_TRACE("slot " << i << " = " << mc::show(model[i]));
            decode(*p[i], model[i]);
            break;
        case 3:
        {
            if (!there[i]) mc::discard();
            int j = mc::choose(slots, "to");
            MC_TRACE("slot " << j << " = clone of " << i);
            p[j].reset(p[i]->Clone());
            MC_CHECK(p[j], "Clone() returned nothing");
            there[j] = true;
            if (j == i) mc::discard();
            model[j] = model[i];
            break;
        }
        case 4:
        {
            int what = mc::choose(2, "modify or destroy");
            if (!there[i]) mc::discard();
            if (what)
            {
                MC_TRACE("destroy " << i);
                p[i].reset();
                there[i] = false;
            }
            else
            {
                MC_TRACE("modify " << i << " directly");
                modify(kind, *p[i]);
                for (size_t b = 0; b < bits; ++b) if (direct_mask[b]) model[i][b] = direct_value[b];
            }
            break;
        }
        }
        h = mc::mix(h, op * 16 + i);
        for (int k = 0; k < slots; ++k) if (there[k])
        {
            MC_CHECK(p[k]->GetChromosomeSize() == bits, "a clone has " << p[k]->GetChromosomeSize() << " genes instead of " << bits);
            MC_CHECK(encode(*p[k]) == model[k], "object " << k << " is " << mc::show(encode(*p[k])) << ", expected " << mc::show(model[k]));
            MC_CHECK(p[k]->CheckConstraints(), "object " << k << " does not satisfy its constraints");
            h = mc::hash_string(mc::show(model[k]), h);
        }
        mc::state(h);
    }
    mc::outcome(h);
}

void composite_sources()
{
    // parts given to a composite may be changed afterwards, and the composite's parts changed without effect on them
    int kind = mc::choose(3, "kind"), clone = mc::choose(2, "clone"), side = mc::choose(3, "who changes"), way = mc::choose(2, "initialized with");
    Part source(make(kind));
    std::unique_ptr<CompositeDiscreteParameters> c(new CompositeDiscreteParameters()), original;
    std::vector<Part> parts(2, source);
    if (way) c->Initialize(source, 2); else c->Initialize(parts);
    if (clone) { original.swap(c); c.reset(original->Clone()); }
    ChromosomeType s = encode(*source), all = encode(*c);
    size_t n = s.size();
    MC_CHECK(all.size() == 2 * n, "size");
    if (side == 0)
    {
        modify(kind, *source);
        MC_CHECK(encode(*c) == all, "changing the object given to Initialize changed the composite");
    }
    else
    {
        ChromosomeType zeros(n), ones(n, true);
        decode(*c->GetParameter(side - 1), ones);
        ChromosomeType expected = all;
        for (size_t i = 0; i < n; ++i) expected[(side - 1) * n + i] = true;
        MC_CHECK(encode(*c) == expected, "setting part " << side - 1 << " to ones made " << mc::show(encode(*c)));
        MC_CHECK(encode(*source) == s, "changing a part of a composite changed the object given to Initialize");
        if (original) MC_CHECK(encode(*original) == all, "changing a part of a clone changed the original");
    }
    mc::step();
    mc::state(mc::mix(kind, mc::mix(clone, side)));
    mc::outcome(mc::mix(kind, mc::mix(clone, side)));
}

void meta()
{
    static const double mins[] = { 0, -1 }, widths[] = { 1, 2 }, precisions[] = { 0.5, 0.25, 0.001 };
    int kind = mc::choose(3, "kind");
    double v[2][4];
    IDiscreteParameters::shared_ptr p[2];
    for (int i = 0; i < 2; ++i)
    {
        v[i][0] = mins[mc::choose(2, "minimum")];
        v[i][1] = v[i][0] + widths[mc::choose(2, "width")];
        v[i][2] = kind ? precisions[mc::choose(3, "precision")] : 0;
        v[i][3] = mc::choose(2, "size or value");
        switch (kind)
        {
        case 0: p[i].reset(new IntParameter((int) (v[i][0] + v[i][3]), (int) v[i][0], (int) v[i][1])); break;
        case 1: p[i].reset(new DoubleParameter(v[i][0] + v[i][3], v[i][0], v[i][1], v[i][2])); break;
        default: p[i].reset(new DoubleParametersArray(v[i][0], v[i][1], v[i][2], 1 + (int) v[i][3]));
        }
        if (mc::choose(2, "clone")) p[i].reset(p[i]->Clone());
    }
    bool same = v[0][0] == v[1][0] && v[0][1] == v[1][1] && (kind != 2 || v[0][3] == v[1][3]) && v[0][2] == v[1][2];
    // different precisions asked for may become the same actual one
    bool free = kind && v[0][2] != v[1][2];
    bool got = p[0]->HasSameMetaParameters(p[1].get()), back = p[1]->HasSameMetaParameters(p[0].get());
    MC_CHECK(got == back, "HasSameMetaParameters is not symmetric");
    MC_CHECK(p[0]->HasSameMetaParameters(p[0].get()), "parameters do not have the same meta-parameters as themselves");
    if (!free) MC_CHECK(got == same, "HasSameMetaParameters is " << got << " for [" << v[0][0] << ", " << v[0][1] << "] and [" << v[1][0] << ", " << v[1][1] << "]");
    if (got) MC_CHECK(p[0]->GetChromosomeSize() == p[1]->GetChromosomeSize(), "the same meta-parameters but chromosomes of different sizes");
    if (got)
    {
        // "same chromosome representations"
        for (unsigned c = 0; c < (1u << p[0]->GetChromosomeSize()) && c < 64; ++c)
        {
            decode(*p[0], code(c, p[0]->GetChromosomeSize()));
            decode(*p[1], code(c, p[0]->GetChromosomeSize()));
            double a = 0, b = 0;
            if (kind == 0) { a = static_cast<IntParameter&>(*p[0]).get_value(); b = static_cast<IntParameter&>(*p[1]).get_value(); }
            if (kind == 1) { a = static_cast<DoubleParameter&>(*p[0]).GetValue(); b = static_cast<DoubleParameter&>(*p[1]).GetValue(); }
            if (kind == 2) { a = static_cast<DoubleParametersArray&>(*p[0]).get_values()[0]; b = static_cast<DoubleParametersArray&>(*p[1]).get_values()[0]; }
            MC_CHECK(a == b, "the same meta-parameters but the same chromosome means " << a << " and " << b);
        }
    }
    IntParameter other(0, 1);
    if (kind)
    {
        bool refused = false;
        try { p[0]->HasSameMetaParameters(&other); } catch (const std::runtime_error&) { refused = true; }
        MC_CHECK(refused, "meta-parameters of different types were compared");
    }
    mc::step();
    uint64_t h = kind;
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 4; ++k) h = mc::hash_double(v[i][k], h);
    mc::state(h);
    mc::outcome(mc::mix(h, got));
}

template <class F> bool logic_error(F f) { try { f(); } catch (const std::logic_error&) { return true; } return false; }

void uninitialized()
{
    CompositeDiscreteParameters c;
    Individual ind;
    int op = mc::choose(12, "operation");
    int after = mc::choose(2, "initialized");
    Part part(make(0));
    if (after) { c.Initialize(part, 2); ind.Initialize(part.get()); }
    ChromosomeType six(6);
    Individual second(part.get());
    bool threw = logic_error([&] {
        switch (op)
        {
        case 0: c.CheckConstraints(); break;
        case 1: delete c.Clone(); break;
        case 2: c.GetChromosomeSize(); break;
        case 3: c.SetChromosome(six.begin(), six.end()); break;
        case 4: c.SetFromChromosome(six.begin(), six.end()); break;
        case 5: c.GetNumberOfParameters(); break;
        case 6: c.GetParameter(0); break;
        case 7: ind.GetChromosome(); break;
        case 8: ind.IsValid(); break;
        case 9: ind.GetParametersAccordingToChromosome(); break;
        case 10: ind.SetRandomChromosome(); break;
        default: ind.Crossover(&second); break;
        }
    });
    MC_CHECK(threw == !after, "operation " << op << (after ? " is refused" : " is accepted before initialization"));
    MC_CHECK(logic_error([&] { ind.get_fitness(); }), "the fitness of a new individual is known");
    if (after)
    {
        // the refusal has no effect, also if the sizes differ
        ind.set_fitness(3);
        ChromosomeType parts = encode(c), genes = ind.GetChromosome();
        Part longer(new IntParameter(5, 0, 4095));
        std::vector<Part> list(3, longer);
        MC_CHECK(logic_error([&] { c.Initialize(part, 2); }), "a second initialization was accepted");
        MC_CHECK(logic_error([&] { c.Initialize(longer, 4); }), "a second initialization was accepted");
        MC_CHECK(logic_error([&] { c.Initialize(list); }), "a second initialization was accepted");
        MC_CHECK(logic_error([&] { ind.Initialize(part.get()); }), "a second initialization was accepted");
        MC_CHECK(logic_error([&] { ind.Initialize(longer.get()); }), "a second initialization was accepted");
        MC_CHECK(c.GetNumberOfParameters() == 2 && c.GetChromosomeSize() == parts.size() && encode(c) == parts, "a refused initialization changed the composite");
        MC_CHECK(ind.GetChromosome() == genes && encode(*ind.GetParametersAccordingToChromosome()) == genes && ind.HasFitness() && ind.get_fitness() == 3,
                 "a refused initialization changed the individual");
    }
    mc::step(3);
    mc::state(op * 2 + after);
    mc::outcome(op * 2 + after);
}

// copies of individuals
void individuals(int depth)
{
    const int slots = 3;
    struct Model { ChromosomeType c; bool has; double fitness; int chosen; };
    std::unique_ptr<Individual> p[slots];
    Model m[slots];
    IntParameter start(2, 0, 7);
    p[0].reset(new Individual(&start));
    m[0].c = encode(start); m[0].has = false; m[0].fitness = 0; m[0].chosen = 0;
    uint64_t h = 1;
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(7, "operation");
        if (op == 6) break;
        int i = mc::choose(slots, "slot");
        if (!p[i]) mc::discard();
        mc::step();
        int j = op < 2 || op == 5 ? mc::choose(slots, "other") : 0;
        switch (op)
        {
        case 0: MC_TRACE("copy " << i << " to a new " << j); { Individual* n = new Individual(*p[i]); p[j].reset(n); Model t = m[i]; m[j] = t; } break;
        case 1: if (!p[j]) mc::discard(); MC_TRACE("assign " << i << " to " << j); *p[j] = *p[i]; { Model t = m[i]; m[j] = t; } break;
        case 2: MC_TRACE("fitness of " << i); p[i]->set_fitness(d + 1); m[i].has = true; m[i].fitness = d + 1; break;
        case 3: p[i]->IncreaseTimesChosenForCrossover(); m[i].chosen++; break;
        case 4: p[i]->ResetTimesChosenForCrossover(); m[i].chosen = 0; break;
        default:
        {
            if (!p[j] || i == j) mc::discard();
            MC_TRACE("crossover of " << i << " and " << j);
            // the first gene is exchanged at least at one position or all of them are: the sets of genes per position stay
            ChromosomeType a = m[i].c, b = m[j].c;
            p[i]->Crossover(p[j].get());
            ChromosomeType na = p[i]->GetChromosome(), nb = p[j]->GetChromosome();
            for (size_t g = 0; g < a.size(); ++g)
                MC_CHECK((na[g] == a[g] && nb[g] == b[g]) || (na[g] == b[g] && nb[g] == a[g]), "crossover made " << mc::show(na) << ", " << mc::show(nb)
                         << " from " << mc::show(a) << ", " << mc::show(b));
            m[i].c = na; m[j].c = nb;
            m[i].has = m[j].has = false;
            break;
        }
        }
        for (int k = 0; k < slots; ++k) if (p[k])
        {
            MC_CHECK(p[k]->GetChromosome() == m[k].c, "the chromosome of individual " << k << " is " << mc::show(p[k]->GetChromosome()) << ", expected " << mc::show(m[k].c));
            MC_CHECK(encode(*p[k]->GetParametersAccordingToChromosome()) == m[k].c, "the parameters of individual " << k << " are not those of its chromosome");
            MC_CHECK(p[k]->HasFitness() == m[k].has && (!m[k].has || p[k]->get_fitness() == m[k].fitness), "fitness of individual " << k);
            MC_CHECK(p[k]->get_times_chosen_for_crossover() == m[k].chosen, "times chosen of individual " << k);
            for (int l = 0; l < k; ++l) if (p[l])
                MC_CHECK(p[l]->GetParametersAccordingToChromosome() != p[k]->GetParametersAccordingToChromosome(), "individuals share their parameters");
            h = mc::hash_string(mc::show(m[k].c), h);
        }
        h = mc::mix(h, op * 16 + i * 4 + j);
        mc::state(h);
    }
    mc::outcome(h);
}

void continuous(int depth)
{
    const int slots = 3;
    std::unique_ptr<ContinuousParametersArray> p[slots];
    std::vector<double> m[slots];
    int n = mc::choose(3, "size");
    if (mc::choose(2, "constructor")) { p[0].reset(new ContinuousParametersArray(std::vector<double>(n, 0.5))); m[0].assign(n, 0.5); }
    else { p[0].reset(new ContinuousParametersArray((size_t) n)); p[0]->SetValues(std::vector<double>(n, 0)); m[0].assign(n, 0); }
    uint64_t h = n;
    for (int d = 0; d < depth; ++d)
    {
        int op = mc::choose(5, "operation");
        if (op == 4) break;
        int i = mc::choose(slots, "slot");
        if (!p[i]) mc::discard();
        mc::step();
        if (op < 2) { m[i] = std::vector<double>(n, d + op); if (n) m[i][n - 1] = -d - 1e100; p[i]->SetValues(m[i]); }
        else if (op == 2) { int j = mc::choose(slots, "to"); if (i == j) mc::discard(); p[j].reset(p[i]->Clone()); m[j] = m[i]; }
        else
        {
            bool threw = false;
            try { p[i]->SetValues(std::vector<double>(mc::choose(2, "size") ? n + 1 : n ? n - 1 : 3, 9)); } catch (const std::invalid_argument&) { threw = true; }
            MC_CHECK(threw, "values of a wrong number were accepted");
        }
        for (int k = 0; k < slots; ++k) if (p[k])
        {
            MC_CHECK(p[k]->GetValues() == m[k], "values of object " << k << " are " << mc::show(p[k]->GetValues()) << ", expected " << mc::show(m[k]));
            MC_CHECK(p[k]->CheckConstraints(), "constraints");
            h = mc::hash_doubles(m[k], h);
        }
        mc::state(mc::mix(h, d));
    }
    mc::outcome(h);
}
}

int main(int argc, char** argv)
{
    mc::describe("all operation histories up to a depth on objects and their clones or copies, all pairs of definitions, all uses before and after initialization");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    mc::Options o;
    int d = t ? 5 : 4;
    mc::add("clones", "6 kinds of parameters, 3 objects, 6 operations, depth " + std::to_string(d), [=] { clones(3, d); }, o);
    mc::add("parts of composites", "3 kinds, original or clone, 3 changes, 2 ways", composite_sources, o);
    mc::add("meta-parameters", "all pairs of definitions of 3 kinds", meta, o);
    mc::add("initialization", "12 operations before and after", uninitialized, o);
    int di = t ? 6 : 5;
    mc::add("individuals", "3 individuals, 7 operations, depth " + std::to_string(di), [=] { individuals(di); }, o);
    int dc = t ? 6 : 5;
    mc::add("continuous parameters", "sizes 0-2, 3 objects, 5 operations, depth " + std::to_string(dc), [=] { continuous(dc); }, o);
    return mc::run(argc, argv);
}
