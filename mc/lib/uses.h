// Uses of the library for the harnesses that let something fail in the middle
// of them (see failures.h).  A use has objects that outlive the failure; its
// operation can be repeated on them.
#pragma once
#include <unistd.h>
#include "failures.h"
#include "opt_util.h"
#include "params_util.h"
#include <k52/common/cache.h>
#include <k52/common/helpers.h>
#include <k52/dsp/akima_spline.h>
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/cwt.h>
#include <k52/dsp/spline_based_wavelet_function.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/optimization/discrete_objective_function.h>
#include <k52/optimization/flip_bit_mutator.h>
#include <k52/optimization/genetic_algorithm.h>
#include <k52/optimization/grid_search.h>
#include <k52/optimization/individual.h>
#include <k52/optimization/linear_mutator.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/parallel/worker_pool_factory.h>

namespace uses
{
using namespace k52::dsp;
using namespace k52::common;
using namespace k52::optimization;
using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;
using failures::user_point;
typedef std::complex<double> C;
typedef std::vector<C> Seq;
typedef std::vector<double> V;

struct Use
{
    virtual ~Use() {}
    /// The operation in which something fails.  What it returns is compared.
    virtual void perform(V& out) = 0;
    /// What can be asked of the objects without changing them: as before or as
    /// after the operation, also if it failed.
    virtual void observe(V&) {}
};

inline void keep(V& out, C c) { out.push_back(c.real()); out.push_back(c.imag()); }
inline void keep(V& out, const Seq& s) { for (C c : s) keep(out, c); }
inline void keep(V& out, const V& s) { out.insert(out.end(), s.begin(), s.end()); }
inline void keep(V& out, const std::vector<bool>& s) { for (bool b : s) out.push_back(b); }
inline V signal(int n, int k) { V v(n); for (int i = 0; i < n; ++i) v[i] = std::cos(1.7 * i + k) + k; return v; }
inline Seq sequence(int n, int k) { Seq v(n); for (int i = 0; i < n; ++i) v[i] = C(std::cos(1.7 * i + k), i - k); return v; }

// ---- the user's objects ---------------------------------------------------

struct Wave : IWavelet
{
    C GetValue(double t) { user_point("wavelet"); return C(std::exp(-t * t), t); }
};
struct Steps : IScale
{
    V GetScales() const { user_point("scales"); return V({ 1, 2.5 }); }
};
struct Fourier : IFourierTransform
{
    FourierTransform inner;
    Seq Transform(const Seq& s) const { user_point("transform"); return inner.Transform(s); }
};
struct Convolution : ICircularConvolution
{
    Seq EvaluateConvolution(const Seq& a, const Seq& b) const { user_point("convolution"); return CircularConvolution().EvaluateConvolution(a, b); }
};
struct Numbers : ContinuousParametersArray
{
    bool feasible_everywhere;
    explicit Numbers(const V& v) : ContinuousParametersArray(v), feasible_everywhere(true) {}
    void SetValues(const V& v) { user_point("SetValues"); ContinuousParametersArray::SetValues(v); }
    V GetValues() const { user_point("GetValues"); return ContinuousParametersArray::GetValues(); }
    bool CheckConstraints() const { user_point("CheckConstraints"); return true; }
    Numbers* Clone() const { user_point("Clone of parameters"); return new Numbers(ContinuousParametersArray::GetValues()); }
    V plain() const { return ContinuousParametersArray::GetValues(); }
};
struct Function : ContinuousObjectiveFunction
{
    using ContinuousObjectiveFunction::operator();
    double operator()(const V& p) const
    {
        user_point("objective function");
        double s = 0;
        for (size_t i = 0; i < p.size(); ++i) s += (i + 1) * (p[i] - 0.75 * i) * (p[i] - 0.75 * i);
        return s;
    }
    Function* Clone() const { user_point("Clone of the function"); return new Function(); }
};
// grid search maximizes and asks for the general interface
struct NegatedFunction : Function
{
    using ContinuousObjectiveFunction::operator();
    double operator()(const V& p) const { return -Function::operator()(p); }
    NegatedFunction* Clone() const { user_point("Clone of the function"); return new NegatedFunction(); }
};
const size_t kBits = 4;
struct Genes : DiscreteParameters
{
    ChromosomeType genes;
    explicit Genes(unsigned c) : genes(util::code(c, kBits)) {}
    explicit Genes(const ChromosomeType& c) : genes(c) {}
    unsigned get() const { unsigned r = 0; for (size_t i = 0; i < kBits; ++i) r |= (unsigned) genes[i] << i; return r; }
    Genes* Clone() const { user_point("Clone of parameters"); return new Genes(genes); }
    bool CheckConstraints() const { user_point("CheckConstraints"); return get() != 5; }
    size_t GetChromosomeSize() const { user_point("GetChromosomeSize"); return kBits; }
    void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator) const { user_point("SetChromosome"); std::copy(genes.begin(), genes.end(), from); }
    void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to) { user_point("SetFromChromosome"); std::copy(from, to, genes.begin()); }
    bool HasSameMetaParameters(const IDiscreteParameters*) const { user_point("HasSameMetaParameters"); return true; }
};
struct Fitness : DiscreteObjectiveFunction
{
    int factor;
    explicit Fitness(int f) : factor(f) {}
    using DiscreteObjectiveFunction::operator();
    double operator()(const IDiscreteParameters* p) const
    {
        user_point("objective function");
        return 1 + (dynamic_cast<const Genes&>(*p).get() * factor) % 16;
    }
    Fitness* Clone() const { user_point("Clone of the function"); return new Fitness(factor); }
};
struct Flip : IMutator
{
    void ApplyNewMutationContext(const MutationContext&) { user_point("ApplyNewMutationContext"); }
    void MutateChromosome(ChromosomeType* c) { user_point("MutateChromosome"); (*c)[0] = !(*c)[0]; (*c)[2] = !(*c)[2]; }
};
struct Number : ITaskResult { int value; explicit Number(int v) : value(v) {} };
struct Square : ITask
{
    int x;
    explicit Square(int v) : x(v) {}
    ITaskResult* Perform() const { user_point("task"); return new Number(x * x); }
};
// an optimizer of the user inside of random search
struct Half : ContinuousOptimizer
{
    Half* Clone() const { user_point("Clone of the optimizer"); return new Half(); }
    std::string get_name() const { return "half"; }
protected:
    V FindOptimalParameters(const V& p) { user_point("optimizer"); V r(p); for (double& x : r) x /= 2; return r; }
};

// ---- signal processing ----------------------------------------------------

struct SplineUse : Use
{
    AkimaSpline::shared_ptr s;
    int n;
    SplineUse(int before, int n) : s(AkimaSpline::Create()), n(n) { if (before) train(before, 2); }
    void train(int m, int k) { V x(m); for (int i = 0; i < m; ++i) x[i] = i + 0.1 * (i % 2); s->Initialize(x, signal(m, k)); }
    void perform(V& out) { train(n, 1); observe(out); }
    void observe(V& out)
    {
        for (double at : { 0.0, 0.5, 1.1, 3.25, 4.0, 4.75, 5.0, 6.5 })
        {
            try { out.push_back(s->Value(at)); }
            catch (std::out_of_range&) { out.push_back(-1e9); }
        }
    }
};
struct SampledWaveletUse : Use
{
    AkimaWavelet::shared_ptr w;
    int n;
    SampledWaveletUse(int before, int n) : n(n) { if (before) w = AkimaWavelet::CreateAkimaWavelet(signal(before, 0), signal(before, 3)); }
    void perform(V& out)
    {
        if (w) w->Init(signal(n, 1), signal(n, 1));
        else w = AkimaWavelet::CreateAkimaWavelet(signal(n, 1), signal(n, 1));
        observe(out);
    }
    void observe(V& out) { if (w) for (double at : { -3.9, 0.0, 1.3 }) out.push_back(w->GetValue(at).real()); }
};
struct ScaleUse : Use
{
    void perform(V& out) { keep(out, LinearScale(1, 4, 3).GetScales()); keep(out, LogarithmicScale(0, 3).GetScales()); }
};
struct FourierUse : Use
{
    IFourierTransform::shared_ptr forward;
    InverseFourierTransform inverse;
    FourierBasedCircularConvolution convolution;
    explicit FourierUse(IFourierTransform* t) : forward(t), inverse(forward), convolution(forward) {}
    void perform(V& out)
    {
        keep(out, forward->Transform(sequence(4, 1)));
        keep(out, inverse.Transform(sequence(4, 2)));
        keep(out, convolution.EvaluateConvolution(sequence(4, 3), sequence(4, 1)));
        keep(out, CircularConvolution().EvaluateConvolution(sequence(4, 3), sequence(4, 1)));
        keep(out, Helpers::Conjugate(sequence(3, 1)));
    }
};
struct MakeFourierUse : Use
{
    void perform(V& out)
    {
        FastFourierTransform one(4);
        FastFourierTransform other(6);
        keep(out, one.Transform(sequence(4, 1)));
        keep(out, other.Transform(sequence(6, 2)));
    }
};
struct FastWaveletUse : Use
{
    boost::shared_ptr<FastWaveletTransform> t;
    IWavelet::shared_ptr w;
    explicit FastWaveletUse(double cache) : t(new FastWaveletTransform(IScale::shared_ptr(new Steps()), 4, cache)), w(new Wave()) {}
    void perform(V& out)
    {
        for (int i = 0; i < 2; ++i)
        {
            std::vector<Seq> r = t->Transform(sequence(4, i), w);
            for (const Seq& s : r) keep(out, s);
        }
    }
};
struct MakeFastWaveletUse : Use
{
    void perform(V& out) { FastWaveletUse(1).perform(out); }
};
inline void progress(double) { user_point("progress"); }
struct ContinuousWaveletUse : Use
{
    IWavelet::shared_ptr f;
    Wavelet::shared_ptr w;
    ContinuousWaveletUse() : f(new Wave()), w(Wavelet::BuildWavelet(f, 2, 4, 2, Wavelet::Linear)) {}
    void perform(V& out)
    {
        // the same wavelet is built again
        w->createWavelet(Wavelet::Linear);
        std::vector<V> r = ContiniousWaveletTransformation(signal(4, 1), w, 1, progress);
        for (const V& s : r) keep(out, s);
        Wavelet::shared_ptr other = Wavelet::BuildWavelet(f, 2, 6, 2, Wavelet::Log);
        r = ContiniousWaveletTransformation(signal(4, 1), other, 2);
        for (const V& s : r) keep(out, s);
    }
};

// what is made of a wavelet before is kept until the new samples are complete
struct RebuildWaveletUse : Use
{
    Wavelet::shared_ptr w;
    RebuildWaveletUse() : w(Wavelet::BuildWavelet(IWavelet::shared_ptr(new Wave()), 2, 6, 3, Wavelet::Log)) {}
    void perform(V& out) { w->createWavelet(Wavelet::Linear); observe(out); }
    void observe(V& out) { V data = signal(8, 1); keep(out, w->transform<double>(data.begin() + 1)); }
};
// a spline of the user
struct Broken : Spline
{
    V x, y;
    void Initialize(const V& a, const V& b) { user_point("Initialize of the spline"); V p(a), q(b); x.swap(p); y.swap(q); }
    double Value(double t) { user_point("Value of the spline"); for (size_t i = 1; i < x.size(); ++i) if (t < x[i]) return y[i - 1]; return 0; }
};
struct BrokenWavelet : SplineBased { BrokenWavelet() { spline(Spline::shared_ptr(new Broken())); } };
struct UserSplineUse : Use
{
    BrokenWavelet w;
    UserSplineUse() { w.Init(signal(5, 1), signal(5, 1)); }
    void perform(V& out) { w.Init(signal(7, 2), signal(7, 2)); observe(out); }
    void observe(V& out) { for (double at : { -3.9, 0.0, 1.3, 5.0 }) out.push_back(w.GetValue(at).real()); }
};

// ---- common ---------------------------------------------------------------

struct CacheUse : Use
{
    typedef Cache<std::vector<bool>, V> Numbers;
    Numbers::shared_ptr c;
    bool batch;
    CacheUse(int before, bool batch) : c(Numbers::Create(1)), batch(batch) { for (int i = 0; i < before; ++i) c->AddValue(util::code(i, 3), signal(2, i)); }
    void perform(V& out)
    {
        if (batch)
        {
            std::vector<Numbers::CacheRecord> r;
            for (int i = 1; i < 4; ++i) r.push_back(Numbers::CacheRecord(util::code(i, 3), signal(3, 7 + i)));
            c->AddValues(r);
        }
        else c->AddValue(util::code(1, 3), signal(3, 8));
        ask(out);
    }
    // every key has its old value, its new one, or none
    void ask(V& out)
    {
        for (int i = 0; i < 5; ++i)
        {
            std::vector<bool> k = util::code(i, 3);
            out.push_back(c->IsCached(k));
            if (c->IsCached(k)) keep(out, c->GetCachedValue(k));
        }
    }
};

// ---- parameters -----------------------------------------------------------

struct ParameterUse : Use
{
    IntParameter i;
    DoubleParameter d;
    DoubleParametersArray a;
    ContinuousParametersArray c;
    ParameterUse() : i(3, 0, 7), d(0.5, 0, 2, 0.25), a(0, 1, 0.25, 3), c(V(2, 0.5)) {}
    void perform(V& out)
    {
        boost::shared_ptr<IntParameter> ic(i.Clone());
        boost::shared_ptr<DoubleParameter> dc(d.Clone());
        boost::shared_ptr<DoubleParametersArray> ac(a.Clone());
        boost::shared_ptr<ContinuousParametersArray> cc(c.Clone());
        out.push_back(ic->get_value());
        out.push_back(dc->GetValue());
        keep(out, ac->get_values());
        keep(out, cc->GetValues());
        IntParameter i2(1, 4);
        DoubleParameter d2(0.5, 0, 1, 0.01);
        DoubleParametersArray a2(0, 1, 0.125, 2);
        ContinuousParametersArray c2(V(3, 1));
        keep(out, util::encode(i2));
        keep(out, util::encode(d2));
        keep(out, util::encode(a2));
    }
    void observe(V& out) { out.push_back(i.get_value()); out.push_back(d.GetValue()); keep(out, a.get_values()); keep(out, c.GetValues()); }
};
struct SetUse : Use
{
    DoubleParametersArray a;
    SetUse() : a(0, 1, 0.25, 20) {}
    void perform(V& out)
    {
        a.SetValues(V(20, 0.75));
        observe(out);
    }
    void observe(V& out) { keep(out, a.get_values()); }
};
struct CompositeUse : Use
{
    std::vector<IDiscreteParameters::shared_ptr> parts;
    boost::shared_ptr<CompositeDiscreteParameters> p;
    bool sample;
    explicit CompositeUse(bool sample) : p(new CompositeDiscreteParameters()), sample(sample)
    {
        parts.push_back(IDiscreteParameters::shared_ptr(new Genes(6)));
        parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter(2, 0, 7)));
        parts.push_back(IDiscreteParameters::shared_ptr(new Genes(9)));
    }
    // a composite which could not be initialized is not, one that was is left
    void perform(V& out)
    {
        boost::shared_ptr<CompositeDiscreteParameters> made(new CompositeDiscreteParameters());
        if (sample) made->Initialize(parts[0], 2);
        else made->Initialize(parts);
        p = made;
        boost::shared_ptr<CompositeDiscreteParameters> q(p->Clone());
        util::decode(*q, util::encode(*p));
        keep(out, util::encode(*q));
        out.push_back(q->CheckConstraints());
    }
};
// the composite that could not be initialized is initialized again
struct CompositeAgainUse : Use
{
    std::vector<IDiscreteParameters::shared_ptr> parts;
    CompositeDiscreteParameters p;
    bool sample, done;
    explicit CompositeAgainUse(bool sample) : sample(sample), done(false)
    {
        parts.push_back(IDiscreteParameters::shared_ptr(new Genes(6)));
        parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter(2, 0, 7)));
    }
    void perform(V& out)
    {
        if (!done)
        {
            if (sample) p.Initialize(parts[0], 3);
            else p.Initialize(parts);
            done = true;
        }
        out.push_back(p.GetNumberOfParameters());
        keep(out, util::encode(p));
    }
};
// a composite that is initialized refuses to be initialized again
struct CompositeRefusesUse : Use
{
    std::vector<IDiscreteParameters::shared_ptr> parts;
    CompositeDiscreteParameters p;
    bool sample;
    explicit CompositeRefusesUse(bool sample) : sample(sample)
    {
        parts.push_back(IDiscreteParameters::shared_ptr(new Genes(6)));
        parts.push_back(IDiscreteParameters::shared_ptr(new IntParameter(2, 0, 7)));
        p.Initialize(parts);
        parts.push_back(IDiscreteParameters::shared_ptr(new Genes(9)));
    }
    void perform(V& out)
    {
        bool refused = false;
        try
        {
            if (sample) p.Initialize(parts[2], 3);
            else p.Initialize(parts);
        }
        catch (std::logic_error&) { refused = true; }
        out.push_back(refused);
        observe(out);
    }
    void observe(V& out) { out.push_back(p.GetNumberOfParameters()); keep(out, util::encode(p)); }
};
struct IndividualUse : Use
{
    Genes g;
    Individual a, b;
    boost::shared_ptr<Flip> flip;
    IndividualUse() : g(3), a(&g), b(&g), flip(new Flip()) { }
    void perform(V& out)
    {
        env::reset(1);
        env::reset_random();
        Individual c(a), d;
        d = b;
        d.SetRandomChromosome();
        c.Crossover(&d);
        c.Mutate(flip);
        a.set_fitness(4);
        c = a;
        keep(out, c.GetChromosome());
        keep(out, d.GetChromosome());
        // an individual is overwritten by another
        b = Individual(&g);
        keep(out, b.GetChromosome());
    }
    void observe(V& out)
    {
        keep(out, a.GetChromosome());
        keep(out, b.GetChromosome());
        out.push_back(dynamic_cast<const Genes&>(*a.GetParametersAccordingToChromosome()).get());
        out.push_back(dynamic_cast<const Genes&>(*b.GetParametersAccordingToChromosome()).get());
    }
};

// ---- optimization ---------------------------------------------------------

struct OptimizerUse : Use
{
    Half half;
    boost::shared_ptr<ContinuousOptimizer> o;
    bool maximize;
    OptimizerUse(int method, bool maximize) : maximize(maximize)
    {
        if (method == opt::kMethods) o.reset(new RandomSearch(3, -1, 1, &half));
        else o.reset(opt::make(method, 1));
    }
    void perform(V& out)
    {
        env::reset(1);
        env::reset_random();
        Numbers p(V({ 0.5, 0.25 }));
        Function f;
        NegatedFunction g;
        o->Optimize(maximize ? static_cast<const ContinuousObjectiveFunction&>(g) : f, static_cast<IContinuousParameters*>(&p), maximize);
        keep(out, p.plain());
    }
};
struct Grid : GridSearch
{
    Grid() : GridSearch(0.5, 0, 1) {}
    using GridSearch::Optimize;
    void Optimize(const IObjectiveFunction& f, IParameters* p, bool) { Optimize(f, p); }
};
struct GridUse : Use
{
    Grid g;
    void perform(V& out)
    {
        Numbers p(V(2, 0.5));
        NegatedFunction f;
        g.Optimize(f, &p);
        keep(out, p.plain());
    }
};
inline std::string& population_file() { static std::string f; return f; }
inline void generation(GenerationStatistics s)
{
    user_point("callback");
    if (!population_file().empty()) s.SaveCurrentPopulationToFile(population_file());
}
inline const std::string& own_file() { static std::string f = "population." + std::to_string(getpid()); return f; }
struct GeneticUse : Use
{
    GeneticAlgorithm::shared_ptr g;
    enum Initial { kRandomInitial, kGiven, kFile } initial;
    int runs;
    GeneticUse(double cache, int elites, Initial initial, bool own_mutator = true) : initial(initial), runs(0)
    {
        IMutator::shared_ptr m;
        if (own_mutator) m.reset(new Flip());
        else m.reset(new LinearMutator(0.5, 0));
        g = GeneticAlgorithm::Create(4, elites, 3, m, cache, 1e7, initial == kFile ? own_file() : "");
        g->OnNextGenerationReadyConnect(generation);
        if (initial == kFile) write();
    }
    void write()
    {
        failures::Pause pause;
        FILE* f = fopen(own_file().c_str(), "w");
        fputs("Population_size: \n4\nChromosome_size: \n4\nChromosome:\t0001\tFitness:\t3\nChromosome:\t1001\tFitness:\t2\nChromosome:\t0110\tFitness:\t1\nChromosome:\t1111\tFitness:\t5\n", f);
        fclose(f);
    }
    void perform(V& out)
    {
        env::reset(1);
        env::reset_random();
        if (initial == kGiven)
        {
            std::vector<IDiscreteParameters::shared_ptr> p;
            for (unsigned c : { 1u, 2u, 7u, 12u }) p.push_back(IDiscreteParameters::shared_ptr(new Genes(c)));
            g->SetInitialParameters(p);
        }
        Genes p(4);
        g->Optimize(Fitness(5), &p, true);
        out.push_back(p.get());
        out.push_back(1 + (p.get() * 5) % 16);
    }
};

// initial parameters that could not be set do not replace the previous ones
struct InitialParametersUse : Use
{
    GeneticAlgorithm::shared_ptr g;
    InitialParametersUse(bool before) : g(GeneticAlgorithm::Create(4, 1, 2, IMutator::shared_ptr(new Flip()), 0)) { if (before) set({ 3, 4, 6, 8 }); }
    void set(const std::vector<unsigned>& codes)
    {
        std::vector<IDiscreteParameters::shared_ptr> p;
        for (unsigned c : codes) p.push_back(IDiscreteParameters::shared_ptr(new Genes(c)));
        g->SetInitialParameters(p);
    }
    void perform(V& out) { set({ 1, 2, 7, 12 }); observe(out); }
    void observe(V& out)
    {
        env::reset(1);
        env::reset_random();
        Genes p(4);
        g->Optimize(Fitness(5), &p, true);
        out.push_back(p.get());
    }
};

// an individual with few genes becomes one with many
struct AssignIndividualUse : Use
{
    Genes few;
    CompositeDiscreteParameters many;
    Individual a, b;
    static IDiscreteParameters::shared_ptr whole(int value) { return IDiscreteParameters::shared_ptr(new IntParameter(value, 0, INT_MAX)); }
    static CompositeDiscreteParameters& composed(CompositeDiscreteParameters& c) { c.Initialize(whole(77), 9); return c; }
    AssignIndividualUse() : few(3), a(&composed(many)), b(&few) {}
    void perform(V& out) { b = a; observe(out); }
    void observe(V& out) { keep(out, b.GetChromosome()); keep(out, util::encode(*b.GetParametersAccordingToChromosome())); }
};
// an individual that is initialized refuses to be initialized again
struct IndividualRefusesUse : Use
{
    Genes g, other;
    Individual a;
    IndividualRefusesUse() : g(3), other(9), a(&g) { a.set_fitness(2); }
    void perform(V& out)
    {
        bool refused = false;
        try { a.Initialize(&other); }
        catch (std::logic_error&) { refused = true; }
        out.push_back(refused);
        observe(out);
    }
    void observe(V& out) { keep(out, a.GetChromosome()); out.push_back(a.HasFitness()); keep(out, util::encode(*a.GetParametersAccordingToChromosome())); }
};

// ---- pools ----------------------------------------------------------------

struct PoolUse : Use
{
    IWorkerPool::shared_ptr pool;
    explicit PoolUse() : pool(WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool)) {}
    void perform(V& out)
    {
        Square a(3), b(5);
        std::vector<const ITask*> tasks = { &a, &b, &a };
        std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(tasks);
        for (size_t i = 0; i < r.size(); ++i) out.push_back(dynamic_cast<Number&>(*r[i]).value);
    }
};

struct Entry
{
    const char* name;
    std::function<Use*()> make;
    bool reads_a_file = false, makes_plans = false;
};
inline std::vector<Entry> all()
{
    std::vector<Entry> r;
    r.push_back({ "training a new spline", [] { return new SplineUse(0, 6); } });
    r.push_back({ "training a spline again with more points", [] { return new SplineUse(5, 7); } });
    r.push_back({ "training a spline again with fewer points", [] { return new SplineUse(7, 5); } });
    r.push_back({ "creating a wavelet of samples", [] { return new SampledWaveletUse(0, 9); } });
    r.push_back({ "giving a wavelet other samples", [] { return new SampledWaveletUse(12, 9); } });
    r.push_back({ "scales", [] { return new ScaleUse(); } });
    r.push_back({ "direct Fourier transform and convolution", [] { return new FourierUse(new FourierTransform()); } });
    r.push_back({ "fast Fourier transform and convolution", [] { return new FourierUse(new FastFourierTransform(4)); } });
    r.push_back({ "inverse transform and convolution over the user's transform", [] { return new FourierUse(new Fourier()); } });
    r.push_back({ "creating fast Fourier transforms", [] { return new MakeFourierUse(); }, false, true });
    r.push_back({ "fast wavelet transform", [] { return new FastWaveletUse(-1); } });
    r.push_back({ "fast wavelet transform with a cache", [] { return new FastWaveletUse(1); } });
    r.push_back({ "creating a fast wavelet transform", [] { return new MakeFastWaveletUse(); }, false, true });
    r.push_back({ "building wavelets and the continuous transform", [] { return new ContinuousWaveletUse(); } });
    r.push_back({ "building a wavelet again with other scales", [] { return new RebuildWaveletUse(); } });
    r.push_back({ "wavelet of the user's spline", [] { return new UserSplineUse(); } });
    r.push_back({ "adding a value to an empty cache", [] { return new CacheUse(0, false); } });
    r.push_back({ "replacing a cached value", [] { return new CacheUse(3, false); } });
    r.push_back({ "adding and replacing values of a cache", [] { return new CacheUse(2, true); } });
    r.push_back({ "making and cloning parameters", [] { return new ParameterUse(); } });
    r.push_back({ "setting an array", [] { return new SetUse(); } });
    r.push_back({ "composite of parts", [] { return new CompositeUse(false); } });
    r.push_back({ "composite of a sample", [] { return new CompositeUse(true); } });
    r.push_back({ "the same composite of parts again", [] { return new CompositeAgainUse(false); } });
    r.push_back({ "the same composite of a sample again", [] { return new CompositeAgainUse(true); } });
    r.push_back({ "a composite of parts that is already initialized", [] { return new CompositeRefusesUse(false); } });
    r.push_back({ "a composite of a sample that is already initialized", [] { return new CompositeRefusesUse(true); } });
    r.push_back({ "individuals", [] { return new IndividualUse(); } });
    r.push_back({ "assigning an individual", [] { return new AssignIndividualUse(); } });
    r.push_back({ "an individual that is already initialized", [] { return new IndividualRefusesUse(); } });
    static const char* names[] = { "steepest descent", "conjugate gradients", "Hooke-Jeeves", "Hleborodov-Rosenbrock", "Nelder-Mead", "simulated annealing",
                                   "random search", "random search with Hooke-Jeeves", "random search with the user's optimizer" };
    for (int m = 0; m <= opt::kMethods; ++m) r.push_back({ names[m], [m] { return new OptimizerUse(m, m % 2); } });
    r.push_back({ "grid search", [] { return new GridUse(); } });
    r.push_back({ "genetic algorithm", [] { return new GeneticUse(0, 1, GeneticUse::kRandomInitial); } });
    r.push_back({ "genetic algorithm with a cache", [] { return new GeneticUse(1, 1, GeneticUse::kRandomInitial); } });
    r.push_back({ "genetic algorithm with initial parameters", [] { return new GeneticUse(1, 0, GeneticUse::kGiven, false); } });
    r.push_back({ "genetic algorithm that reads a file", [] { return new GeneticUse(0, 2, GeneticUse::kFile); }, true });
    r.push_back({ "first initial parameters of a genetic algorithm", [] { return new InitialParametersUse(false); } });
    r.push_back({ "other initial parameters of a genetic algorithm", [] { return new InitialParametersUse(true); } });
    r.push_back({ "sequential pool", [] { return new PoolUse(); } });
    return r;
}

inline bool& exact() { static bool e = true; return e; }

// One use, in which the failure `at` happens (none: at the end of the count).
// `thrown(f)` calls f and tells whether the expected exception left it.
inline void explore(const Entry& e, failures::Kind kind, int failures_in_a_row, const std::function<bool(const std::function<void()>&)>& thrown)
{
    failures::State& s = failures::state();
    s = failures::State();
    s.kind = kind;
    // without a failure: what is expected, and how many points there are
    V before, expected, after, again;
    long points;
    {
        std::unique_ptr<Use> u(e.make());
        u->observe(before);
        s.armed = true;
        u->perform(expected);
        s.armed = false;
        points = s.seen;
        u->observe(after);
        u->perform(again);
        MC_CHECK(again == expected, e.name << ": the harness expects the same again: " << mc::show(expected) << " and " << mc::show(again));
    }
    MC_CHECK(points || kind == failures::kUserCode, "the operation does not allocate anything");
    {
        s.counting = true;
        std::unique_ptr<Use> u(e.make());
        s.counting = false;
        uint64_t h = mc::hash_doubles(expected);
        for (int i = 0; i < failures_in_a_row; ++i)
        {
            int at = mc::choose(points + 1, "what fails");
            if (at == points) break;
            h = mc::mix(h, at);
            MC_TRACE(e.name << ": failure " << at << " of " << points);
            V out;
            s.seen = 0;
            s.at = at;
            s.fired = false;
            std::function<void()> operation = [&] { u->perform(out); };
            s.counting = s.armed = true;
            bool failed = thrown(operation);
            s.counting = s.armed = false;
            s.at = -1;
            mc::step();
            // (an operation that is repeated may need less)
            MC_CHECK(s.fired || i, e.name << ": the harness expected failure " << at);
            if (s.fired && kind == failures::kUserCode) MC_CHECK(failed, "the exception of the user's code did not reach the caller");
            if (!failed) MC_CHECK(out == expected, "without an exception it gives " << mc::show(out) << " instead of " << mc::show(expected));
            V now;
            u->observe(now);
            MC_CHECK(now == before || now == after, "after the failure the objects are " << mc::show(now) << ", not " << mc::show(before) << " as before or " << mc::show(after) << " as afterwards");
            mc::state(mc::mix(h, mc::hash_doubles(now)));
        }
        V out;
        s.counting = true;
        u->perform(out);
        s.counting = false;
        mc::step();
        MC_CHECK(out == expected, "after the failure it gives " << mc::show(out) << " instead of " << mc::show(expected));
        mc::outcome(mc::hash_doubles(out, h));
    }
    MC_CHECK(s.live == 0, s.live << " blocks of memory were not given back");
}
}
