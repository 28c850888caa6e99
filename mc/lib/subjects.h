// Objects of each kind, operations on them, which of these are refused and how.
#pragma once
#include "uses.h"
#include <k52/common/random.h>
#include <k52/common/settings_manager.h>
#include <k52/parallel/worker_statistics.h>
#include <sstream>


namespace subjects
{
using namespace uses;

template <class E> bool caught_as(std::exception_ptr p)
{
    try { std::rethrow_exception(p); }
    catch (const E&) { return true; }
    catch (...) { return false; }
}
typedef std::function<bool(std::exception_ptr)> Kind;
const Kind kInvalid = caught_as<std::invalid_argument>, kLogic = caught_as<std::logic_error>, kRuntime = caught_as<std::runtime_error>,
           kRange = caught_as<std::out_of_range>, kCast = caught_as<std::bad_cast>, kText = caught_as<const char*>;

template <class S> struct Operation
{
    const char* name;
    std::function<void(S&, V&)> perform;
    Kind refused;       // how it is refused, if it can be
    bool always;        // it always is
};
template <class S> struct Subject
{
    std::vector<Operation<S> > operations;
    Subject& good(const char* n, std::function<void(S&, V&)> f) { operations.push_back({ n, f, Kind(), false }); return *this; }
    // refused in some states
    Subject& cond(const char* n, Kind k, std::function<void(S&, V&)> f) { operations.push_back({ n, f, k, false }); return *this; }
    Subject& bad(const char* n, Kind k, std::function<void(S&)> f) { operations.push_back({ n, [f](S& s, V&) { f(s); }, k, true }); return *this; }
};

inline void fresh() { env::reset(1); env::reset_random(); }

// ---- signal processing ----------------------------------------------------

struct SplineS
{
    AkimaSpline::shared_ptr s;
    SplineS() : s(AkimaSpline::Create()) {}
    static V knots(int n) { V x(n); for (int i = 0; i < n; ++i) x[i] = i + 0.1 * (i % 2); return x; }
    void observe(V& out)
    {
        for (double at : { 0.0, 0.5, 3.25, 4.0, 4.75, 5.0, 6.0 })
        {
            try { out.push_back(s->Value(at)); }
            catch (std::out_of_range&) { out.push_back(-1e9); }
        }
    }
};
struct SampledS
{
    BrokenWavelet broken;
    AkimaWavelet::shared_ptr w;
    SampledS() : w(AkimaWavelet::CreateAkimaWavelet(signal(6, 0), signal(6, 0))) {}
    void observe(V& out) { for (double at : { -3.9, 0.0, 1.3, 4.5 }) out.push_back(w->GetValue(at).real()); }
};
struct BareWavelet : Wavelet { BareWavelet() { count(2); max_lenght(6); min_lenght(3); } };
struct WaveletS
{
    BareWavelet w;
    void observe(V& out)
    {
        V data = signal(8, 1);
        try { keep(out, w.transform<double>(data.begin() + 1)); }
        catch (const char*) { out.push_back(-1e9); }
    }
};
template <class T> struct TransformS
{
    IFourierTransform::shared_ptr t;
    InverseFourierTransform inverse;
    FourierBasedCircularConvolution c;
    TransformS() : t(new T(4)), inverse(t), c(t) {}
    void observe(V& out)
    {
        keep(out, t->Transform(sequence(4, 3)));
        keep(out, inverse.Transform(sequence(4, 4)));
        keep(out, c.EvaluateConvolution(sequence(4, 1), sequence(4, 2)));
    }
};
struct AnyScale : IScale
{
    static V& scales() { static V v = { 1, 2.5 }; return v; }
    V GetScales() const { return scales(); }
};
struct FastWaveletS
{
    IWavelet::shared_ptr a, b;
    FastWaveletTransform cached, plain;
    FastWaveletS() : a(new Wave()), b(AkimaWavelet::CreateAkimaWavelet(signal(6, 0), signal(6, 0))),
                     cached(IScale::shared_ptr(new AnyScale()), 4, 1), plain(IScale::shared_ptr(new AnyScale()), 4, 0) {}
    void run(FastWaveletTransform& f, IWavelet::shared_ptr w, const Seq& s, const V& scales, V& out)
    {
        { failures::Pause p; AnyScale::scales() = scales; }
        for (const Seq& r : f.Transform(s, w)) keep(out, r);
    }
    void observe(V& out) { run(plain, b, sequence(4, 5), V({ 1, 2.5 }), out); run(cached, a, sequence(4, 5), V({ 1, 2.5 }), out); }
};

// ---- common ---------------------------------------------------------------

struct CacheS
{
    typedef Cache<std::vector<bool>, V> Numbers;
    Numbers::shared_ptr c;
    CacheS() : c(Numbers::Create(1)) {}
    static std::vector<bool> key(int i) { return util::code(i, 3); }
    void observe(V& out) { for (int i = 0; i < 4; ++i) { out.push_back(c->IsCached(key(i))); if (c->IsCached(key(i))) keep(out, c->GetCachedValue(key(i))); } }
};
struct RandomS
{
    Random& r;
    RandomS() : r(Random::Instance()) {}
    void observe(V&) {}
};
struct SettingsS
{
    k52::SettingsManager m;
    SettingsS() : m(0, 0) {}
    void observe(V& out) { for (const char* n : { "a", "a.b", "c" }) out.push_back(m.get<double>(n, -7)); }
};

// ---- parameters -----------------------------------------------------------

// every kind of parameters is told codes that are too long or too short
template <class P> struct ParametersS
{
    P p;
    IntParameter other;
    ParametersS() : other(1, 0, 3) {}
    void set(int code, int surplus)
    {
        ChromosomeType c = util::code(code, p->GetChromosomeSize() + surplus);
        p->SetFromChromosome(c.begin(), c.end());
    }
    void get(int surplus)
    {
        ChromosomeType c(p->GetChromosomeSize() + surplus);
        p->SetChromosome(c.begin(), c.end());
    }
    void observe(V& out) { keep(out, util::encode(*p)); out.push_back(p->CheckConstraints()); out.push_back(p->GetChromosomeSize()); }
};
struct IntP { IntParameter p; IntP() : p(3, 0, 6) {} IntParameter* operator->() { return &p; } IntParameter& operator*() { return p; } };
struct DoubleP { DoubleParameter p; DoubleP() : p(0.5, 0, 1, 0.1) {} DoubleParameter* operator->() { return &p; } DoubleParameter& operator*() { return p; } };
struct ArrayP { DoubleParametersArray p; ArrayP() : p(0, 1, 0.3, 2) {} DoubleParametersArray* operator->() { return &p; } DoubleParametersArray& operator*() { return p; } };
struct CompositeP
{
    CompositeDiscreteParameters p;
    CompositeP() { p.Initialize(IDiscreteParameters::shared_ptr(new IntParameter(3, 0, 6)), 2); }
    CompositeDiscreteParameters* operator->() { return &p; } CompositeDiscreteParameters& operator*() { return p; }
};
template <class P> Subject<ParametersS<P> > parameters()
{
    typedef ParametersS<P> S;
    Subject<S> r;
    r.good("code 1", [](S& s, V&) { s.set(1, 0); }).good("code 2", [](S& s, V&) { s.set(2, 0); })
        .bad("a code of one more gene", kInvalid, [](S& s) { s.set(2, 1); })
        .bad("a code of one gene less", kInvalid, [](S& s) { s.set(0, -1); })
        .bad("asking for one more gene", kInvalid, [](S& s) { s.get(1); })
        .bad("asking for one gene less", kInvalid, [](S& s) { s.get(-1); });
    return r;
}
struct ContinuousS
{
    ContinuousParametersArray p;
    ContinuousS() : p(V({ 1, 2 })) {}
    void observe(V& out) { keep(out, p.GetValues()); }
};
// the user's parameters with a fixed size of the chromosome, from the beginning
struct FixedSize : ConstChromosomeSizeParemeters
{
    ChromosomeType genes;
    void size(size_t n) { SetConstChromosomeSize(n); genes.resize(n); }
    void check(size_t n) const { CheckForConstChromosomeSize(n); }
    void SetChromosome(ChromosomeType::iterator from, ChromosomeType::iterator to) const { CheckForConstChromosomeSize(to - from); std::copy(genes.begin(), genes.end(), from); }
    void SetFromChromosome(ChromosomeType::const_iterator from, ChromosomeType::const_iterator to) { CheckForConstChromosomeSize(to - from); std::copy(from, to, genes.begin()); }
    bool CheckConstraints() const { return true; }
    FixedSize* Clone() const { FixedSize* r = new FixedSize(); r->CopyState(this); r->genes = genes; return r; }
    bool HasSameMetaParameters(const IDiscreteParameters*) const { return true; }
};
struct FixedSizeS
{
    boost::shared_ptr<FixedSize> p;
    int given;      // the size, if it was set
    FixedSizeS() : p(new FixedSize()), given(-1) {}
    void set(int n) { p->size(n); MC_CHECK(given < 0, "the size is set again"); given = n; }
    void observe(V& out)
    {
        int size = -1;
        try { size = p->GetChromosomeSize(); } catch (std::logic_error&) {}
        MC_CHECK(size == given, "the size is " << size << " instead of " << given);
        for (int n = 0; n < 4; ++n)
        {
            bool fits = false;
            try { p->check(n); fits = true; } catch (std::logic_error&) {}
            MC_CHECK(fits == (n == given), "a chromosome of " << n << " genes is " << (fits ? "accepted" : "refused") << ", the size is " << given);
        }
        out.push_back(size);
    }
};
// a composite from the beginning
struct NewCompositeS
{
    CompositeDiscreteParameters p;
    static IDiscreteParameters::shared_ptr part(int bits) { return IDiscreteParameters::shared_ptr(new IntParameter(1, 0, (1 << bits) - 1)); }
    void observe(V& out)
    {
        try { out.push_back(p.GetNumberOfParameters()); out.push_back(p.GetChromosomeSize()); keep(out, util::encode(p)); }
        catch (std::logic_error&) { out.push_back(-1); }
    }
};
struct IndividualS
{
    IntParameter three, five;
    Individual a, b, longer, none;
    IndividualS() : three(3, 0, 6), five(9, 0, 31), a(&three), b(&three), longer(&five) { b.SetRandomChromosome(); }
    void read(const char* text) { std::istringstream in(text); in >> a; }
    void observe(V& out)
    {
        for (Individual* i : { &a, &b, &longer })
        {
            keep(out, i->GetChromosome());
            keep(out, util::encode(*i->GetParametersAccordingToChromosome()));
            out.push_back(i->HasFitness());
            if (i->HasFitness()) out.push_back(i->get_fitness());
            out.push_back(i->get_times_chosen_for_crossover());
        }
        out.push_back(none.HasFitness());
        out.push_back(none.get_times_chosen_for_crossover());
    }
};

// ---- optimization ---------------------------------------------------------

struct OnlyContinuous : Function {};
struct GeneticS
{
    GeneticAlgorithm::shared_ptr g;
    GeneticS() : g(GeneticAlgorithm::Create(4, 1, 2, IMutator::shared_ptr(new Flip()), 1)) {}
    void initial(const std::vector<unsigned>& codes)
    {
        std::vector<IDiscreteParameters::shared_ptr> p;
        for (unsigned c : codes) p.push_back(IDiscreteParameters::shared_ptr(new Genes(c)));
        g->SetInitialParameters(p);
    }
    void run(V& out, int factor) { Genes p(4); g->Optimize(Fitness(factor), &p, true); out.push_back(p.get()); }
    void observe(V& out)
    {
        // (initial parameters of the wrong number are refused by the run)
        try { run(out, 5); } catch (std::invalid_argument&) { out.push_back(-1); }
    }
};
struct NoParameters : ContinuousParametersArray { NoParameters() : ContinuousParametersArray(2) {} bool CheckConstraints() const { return false; } };
template <int M> struct OptimizerS
{
    boost::shared_ptr<ContinuousOptimizer> o;
    OptimizerS() : o(opt::make(M, 1)) {}
    IOptimizer& any() { return *o; }
    void run(V& out, bool maximize)
    {
        Numbers p(V({ 0.5, 0.25 }));
        Function f;
        NegatedFunction g;
        o->Optimize(maximize ? static_cast<const ContinuousObjectiveFunction&>(g) : f, static_cast<IContinuousParameters*>(&p), maximize);
        keep(out, p.plain());
    }
    void observe(V& out) { run(out, false); }
};
template <int M> Subject<OptimizerS<M> > optimizer()
{
    typedef OptimizerS<M> S;
    Subject<S> r;
    r.good("minimize", [](S& s, V& out) { s.run(out, false); }).good("maximize", [](S& s, V& out) { s.run(out, true); })
        .bad("discrete parameters", kLogic, [](S& s) { Genes p(4); try { s.any().Optimize(Function(), &p, false); } catch (...) { MC_CHECK(p.get() == 4, "refused parameters were changed"); throw; } })
        .bad("discrete function", kCast, [](S& s) { Numbers p(V({ 1, 2 })); try { s.any().Optimize(Fitness(3), &p, false); } catch (...) { MC_CHECK(p.plain() == V({ 1, 2 }), "refused parameters were changed"); throw; } });
    if (M < opt::kAnnealing) r.bad("a start that violates the constraints", kLogic, [](S& s) { NoParameters p; s.o->Optimize(Function(), static_cast<IContinuousParameters*>(&p), false); });
    return r;
}
struct NoPointsS { RandomSearch r; NoPointsS() : r(0, -1, 1) {} void observe(V&) {} };
struct GridS
{
    Grid g;
    void observe(V& out) { Numbers p(V(2, 0.5)); g.Optimize(NegatedFunction(), &p); keep(out, p.plain()); }
};

// ---- objects that cannot be made, and pools -------------------------------

struct Nothing { void observe(V&) {} };
struct PoolS
{
    IWorkerPool::shared_ptr pool;
    PoolS() : pool(WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool)) {}
    void run(int n, V& out)
    {
        Square a(3), b(5);
        std::vector<const ITask*> tasks;
        for (int i = 0; i < n; ++i) tasks.push_back(i % 2 ? &a : &b);
        std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(tasks);
        for (size_t i = 0; i < r.size(); ++i) out.push_back(dynamic_cast<Number&>(*r[i]).value);
    }
    void observe(V& out) { for (const k52::parallel::WorkerStatistics& s : pool->GetStatistics()) out.push_back(s.get_counted()); }
};
// Calls add(name, length of histories, subject) for each kind.
template <class F> void all(bool t, F add)
{
    {
        typedef SplineS S;
        Subject<S> r;
        r.good("train 5", [](S& s, V&) { s.s->Initialize(S::knots(5), signal(5, 1)); })
            .good("train 7", [](S& s, V&) { s.s->Initialize(S::knots(7), signal(7, 2)); })
            .bad("4 points", kInvalid, [](S& s) { s.s->Initialize(S::knots(4), signal(4, 3)); })
            .bad("no points", kInvalid, [](S& s) { s.s->Initialize(V(), V()); })
            .bad("more knots than values", kInvalid, [](S& s) { s.s->Initialize(S::knots(7), signal(6, 3)); })
            .bad("more values than knots", kInvalid, [](S& s) { s.s->Initialize(S::knots(5), signal(6, 3)); })
            .bad("a value left of the knots", kRange, [](S& s) { s.s->Value(-0.5); })
            .bad("a value right of the knots", kRange, [](S& s) { s.s->Value(9.5); })
            .cond("a value", kRange, [](S& s, V& out) { out.push_back(s.s->Value(4.5)); });
        int d = t ? 5 : 4;
        add("spline", d, r);
    }
    {
        typedef SampledS S;
        Subject<S> r;
        r.good("5 samples", [](S& s, V&) { s.w->Init(signal(5, 1), signal(5, 1)); })
            .good("8 samples", [](S& s, V&) { s.w->Init(signal(8, 2), signal(8, 2)); })
            .bad("no samples", kInvalid, [](S& s) { s.w->Init(V(), V()); })
            .bad("no samples for the user's spline", kInvalid, [](S& s) { s.broken.Init(V(), V()); })
            .bad("2 samples", kInvalid, [](S& s) { s.w->Init(signal(2, 2), signal(2, 2)); })
            .bad("a wavelet of no samples", kInvalid, [](S& s) { AkimaWavelet::CreateAkimaWavelet(V(), V()); })
            .bad("a wavelet of 2 samples", kInvalid, [](S& s) { AkimaWavelet::CreateAkimaWavelet(signal(2, 2), signal(2, 2)); });
        int d = t ? 5 : 4;
        add("wavelet of samples", d, r);
    }
    {
        typedef WaveletS S;
        Subject<S> r;
        r.good("function", [](S& s, V&) { s.w.base_function(IWavelet::shared_ptr(new Wave())); })
            .good("no function", [](S& s, V&) { s.w.base_function(IWavelet::shared_ptr()); })
            .cond("linear", kText, [](S& s, V&) { s.w.createWavelet(Wavelet::Linear); })
            .cond("logarithmic", kText, [](S& s, V&) { s.w.createWavelet(Wavelet::Log); })
            .bad("unknown scale", kText, [](S& s) { s.w.createWavelet(static_cast<Wavelet::ScaleType>(2)); })
            .cond("transform", kText, [](S& s, V& out) { V data = signal(8, 1); keep(out, s.w.transform<double>(data.begin())); })
            .bad("a wavelet without function", kText, [](S&) { Wavelet::BuildWavelet(IWavelet::shared_ptr(), 3, 6, 2); });
        int d = t ? 6 : 5;
        add("wavelet", d, r);
    }
    {
        typedef TransformS<FastFourierTransform> S;
        Subject<S> r;
        r.good("transform", [](S& s, V& out) { keep(out, s.t->Transform(sequence(4, 1))); })
            .good("inverse", [](S& s, V& out) { keep(out, s.inverse.Transform(sequence(4, 2))); })
            .good("convolution", [](S& s, V& out) { keep(out, s.c.EvaluateConvolution(sequence(4, 6), sequence(4, 2))); })
            .bad("transform of 3", kInvalid, [](S& s) { s.t->Transform(sequence(3, 1)); })
            .bad("transform of 5", kInvalid, [](S& s) { s.t->Transform(sequence(5, 1)); })
            .bad("transform of nothing", kInvalid, [](S& s) { s.t->Transform(Seq()); })
            .bad("inverse of 5", kInvalid, [](S& s) { s.inverse.Transform(sequence(5, 1)); })
            .bad("convolution of 4 and 3", kRuntime, [](S& s) { s.c.EvaluateConvolution(sequence(4, 1), sequence(3, 1)); })
            .bad("convolution of 5", kInvalid, [](S& s) { s.c.EvaluateConvolution(sequence(5, 1), sequence(5, 1)); })
            .bad("direct convolution of 4 and 3", kRuntime, [](S&) { CircularConvolution().EvaluateConvolution(sequence(4, 1), sequence(3, 1)); })
            .bad("direct convolution of 3 and 4", kRuntime, [](S&) { CircularConvolution().EvaluateConvolution(sequence(3, 1), sequence(4, 1)); })
            .bad("fast transform of size 0", kInvalid, [](S&) { FastFourierTransform f(0); });
        int d = t ? 5 : 4;
        add("fast Fourier transform and convolution", d, r);
    }
    {
        typedef FastWaveletS S;
        Subject<S> r;
        static const V fine = { 1, 2.5 }, zero = { 3, 0 }, negative = { -1, 3 };
        r.good("transform with a cache", [](S& s, V& out) { s.run(s.cached, s.a, sequence(4, 1), fine, out); })
            .good("transform by another wavelet", [](S& s, V& out) { s.run(s.cached, s.b, sequence(4, 2), V({ 2.5, 3 }), out); })
            .good("transform without cache", [](S& s, V& out) { s.run(s.plain, s.b, sequence(4, 2), fine, out); })
            .bad("scale 0", kInvalid, [](S& s) { V v; s.run(s.cached, s.b, sequence(4, 2), zero, v); })
            .bad("scale 0 without cache", kInvalid, [](S& s) { V v; s.run(s.plain, s.b, sequence(4, 2), zero, v); })
            .bad("scale -1", kInvalid, [](S& s) { V v; s.run(s.cached, s.a, sequence(4, 2), negative, v); })
            .bad("5 elements", kInvalid, [](S& s) { V v; s.run(s.cached, s.a, sequence(5, 2), fine, v); })
            .bad("3 elements without cache", kInvalid, [](S& s) { V v; s.run(s.plain, s.a, sequence(3, 2), fine, v); })
            .bad("fast wavelet transform of size 0", kInvalid, [](S&) { FastWaveletTransform f(IScale::shared_ptr(new AnyScale()), 0, 1); });
        int d = t ? 5 : 4;
        add("fast wavelet transform", d, r);
    }
    {
        typedef CacheS S;
        Subject<S> r;
        r.good("add 1", [](S& s, V&) { s.c->AddValue(S::key(1), signal(2, 1)); })
            .good("add 1 again", [](S& s, V&) { s.c->AddValue(S::key(1), signal(3, 4)); })
            .good("add 2", [](S& s, V&) { s.c->AddValue(S::key(2), signal(2, 2)); })
            .good("add 0 and 2", [](S& s, V&) { std::vector<S::Numbers::CacheRecord> v(1, S::Numbers::CacheRecord(S::key(0), signal(2, 7))); v.push_back(S::Numbers::CacheRecord(S::key(2), signal(4, 7))); s.c->AddValues(v); })
            .cond("ask for 1", kRuntime, [](S& s, V& out) { keep(out, s.c->GetCachedValue(S::key(1))); })
            .cond("ask for 2", kRuntime, [](S& s, V& out) { keep(out, s.c->GetCachedValue(S::key(2))); })
            .bad("ask for 3", kRuntime, [](S& s) { s.c->GetCachedValue(S::key(3)); });
        int d = t ? 6 : 5;
        add("cache", d, r);
    }
    {
        typedef RandomS S;
        Subject<S> r;
        auto drawless = [](S& s, const std::function<void()>& f) {
            uint64_t before = env::rand_calls();
            try { f(); } catch (...) { MC_CHECK(env::rand_calls() == before, "a refused draw was drawn"); throw; }
        };
        r.good("draws", [](S& s, V& out) { out.push_back(s.r.GetUniformlyDistributedDiscreteRandomQuantity(2, 9)); out.push_back(s.r.GetContinuousRandomQuantity(0, 1)); })
            .bad("negative probability", kInvalid, [=](S& s) { drawless(s, [&] { s.r.CheckEventOutcome(-0.25); }); })
            .bad("probability above 1", kInvalid, [=](S& s) { drawless(s, [&] { s.r.CheckEventOutcome(1.25); }); });
        add("random", 4, r);
    }
    {
        typedef SettingsS S;
        Subject<S> r;
        r.good("a = 1", [](S& s, V& out) { out.push_back(s.m.put("a", 1)); })
            .good("a.b = 2.5", [](S& s, V& out) { out.push_back(s.m.put("a.b", 2.5)); })
            .good("c = x", [](S& s, V& out) { out.push_back(s.m.put("c", std::string("x"))); })
            .cond("a", kRuntime, [](S& s, V& out) { out.push_back(s.m.get<int>("a")); })
            .cond("a.b", kRuntime, [](S& s, V& out) { out.push_back(s.m.get<double>("a.b")); })
            .bad("c as a number", kRuntime, [](S& s) { s.m.get<int>("c"); })
            .bad("d", kRuntime, [](S& s) { s.m.get<std::string>("d"); })
            .bad("a.d", kRuntime, [](S& s) { s.m.get<std::string>("a.d"); })
            .bad("a file which does not exist", kRuntime, [](S&) { k52::SettingsManager m("there is no such file.xml"); });
        int d = t ? 5 : 4;
        add("settings", d, r);
    }
    {
        int d = t ? 5 : 4;
        auto i = parameters<IntP>();
        i.bad("comparison with other parameters", kRuntime, [](ParametersS<IntP>& s) { DoubleP q; s.p->HasSameMetaParameters(&*q); });
        add("integer parameter", d, i);
        auto x = parameters<DoubleP>();
        x.bad("comparison with other parameters", kRuntime, [](ParametersS<DoubleP>& s) { s.p->HasSameMetaParameters(&s.other); });
        add("real parameter", d, x);
        typedef ParametersS<ArrayP> A;
        auto a = parameters<ArrayP>();
        a.good("values", [](A& s, V&) { s.p->SetValues(V({ 0.25, 1 })); })
            .bad("first value out of bounds", kInvalid, [](A& s) { s.p->SetValues(V({ 1.5, 0.5 })); })
            .bad("last value out of bounds", kInvalid, [](A& s) { s.p->SetValues(V({ 0.75, -0.5 })); })
            .bad("not a number", kInvalid, [](A& s) { s.p->SetValues(V({ 0.75, std::nan("") })); })
            .bad("one value", kInvalid, [](A& s) { s.p->SetValues(V({ 0.75 })); })
            .bad("three values", kInvalid, [](A& s) { s.p->SetValues(V({ 0.75, 0.5, 0.5 })); })
            .bad("comparison with other parameters", kRuntime, [](A& s) { s.p->HasSameMetaParameters(&s.other); });
        add("array of reals", d - 1, a);
        typedef ParametersS<CompositeP> C;
        auto c = parameters<CompositeP>();
        c.bad("part 2 of 2", kRange, [](C& s) { s.p->GetParameter(2); })
            .bad("part -1", kRange, [](C& s) { s.p->GetParameter(-2); })
            .bad("initialization", kLogic, [](C& s) { s.p->Initialize(NewCompositeS::part(3), 2); })
            .bad("initialization with other parts", kLogic, [](C& s) { std::vector<IDiscreteParameters::shared_ptr> v(3, NewCompositeS::part(4)); s.p->Initialize(v); });
        add("composite", d - 1, c);
        typedef NewCompositeS N;
        Subject<N> n;
        n.cond("two parts of 2 genes", kLogic, [](N& s, V&) { s.p.Initialize(N::part(2), 2); })
            .cond("parts of 1 and 5 genes", kLogic, [](N& s, V&) { std::vector<IDiscreteParameters::shared_ptr> v(1, N::part(1)); v.push_back(N::part(5)); s.p.Initialize(v); })
            .cond("number of parts", kLogic, [](N& s, V& out) { out.push_back(s.p.GetNumberOfParameters()); })
            .cond("constraints", kLogic, [](N& s, V& out) { out.push_back(s.p.CheckConstraints()); })
            .cond("clone", kLogic, [](N& s, V& out) { boost::shared_ptr<CompositeDiscreteParameters> q(s.p.Clone()); keep(out, util::encode(*q)); })
            .cond("part 1", [](std::exception_ptr e) { return kLogic(e); }, [](N& s, V& out) { keep(out, util::encode(*s.p.GetParameter(1))); });
        add("new composite", d, n);
        n.cond("a code of no genes", kLogic, [](N& s, V&) { ChromosomeType c; s.p.SetFromChromosome(c.begin(), c.end()); })
            .cond("asking for no genes", kLogic, [](N& s, V&) { ChromosomeType c; s.p.SetChromosome(c.begin(), c.end()); });
        add("codes of a new composite", 2, n);
        typedef FixedSizeS X;
        Subject<X> f;
        f.cond("size 2", kLogic, [](X& s, V&) { s.set(2); }).cond("size 0", kLogic, [](X& s, V&) { s.set(0); })
            .cond("a code of 2", kLogic, [](X& s, V&) { util::decode(*s.p, util::code(2, 2)); }).cond("a code of 3", kLogic, [](X& s, V&) { util::decode(*s.p, util::code(2, 3)); })
            .cond("a code of 0", kLogic, [](X& s, V&) { util::decode(*s.p, ChromosomeType()); }).cond("size", kLogic, [](X& s, V& out) { out.push_back(s.p->GetChromosomeSize()); })
            .good("clone", [](X& s, V&) { s.p.reset(s.p->Clone()); });
        add("the user's parameters of fixed size", d, f);
        typedef ContinuousS K;
        Subject<K> k;
        k.good("values", [](K& s, V&) { s.p.SetValues(V({ 5, 6 })); }).good("other values", [](K& s, V&) { s.p.SetValues(V({ 7, 1 })); })
            .bad("one value", kInvalid, [](K& s) { s.p.SetValues(V({ 3 })); }).bad("three values", kInvalid, [](K& s) { s.p.SetValues(V({ 3, 4, 5 })); });
        add("continuous parameters", d, k);
    }
    {
        typedef IndividualS S;
        Subject<S> r;
        r.good("fitness 2", [](S& s, V&) { s.a.set_fitness(2); }).good("fitness 3 of the second", [](S& s, V&) { s.b.set_fitness(3); })
            .good("read 5", [](S& s, V&) { s.read("Chromosome:\t101\tFitness:\t4\n"); })
            .good("crossover", [](S& s, V& out) { out.push_back(s.a.Crossover(&s.b)); })
            .cond("fitness", kLogic, [](S& s, V& out) { out.push_back(s.a.get_fitness()); })
            .bad("negative fitness", kLogic, [](S& s) { s.a.set_fitness(-1); })
            .bad("crossover with a longer one", kInvalid, [](S& s) { s.a.Crossover(&s.longer); })
            .bad("crossover with a shorter one", kInvalid, [](S& s) { s.longer.Crossover(&s.b); })
            .bad("initialization", kLogic, [](S& s) { s.a.Initialize(&s.three); })
            .bad("initialization with more genes", kLogic, [](S& s) { s.b.Initialize(&s.five); })
            .bad("read more genes", kLogic, [](S& s) { s.read("Chromosome:\t1011\tFitness:\t4\n"); })
            .bad("read fewer genes", kLogic, [](S& s) { s.read("Chromosome:\t10\tFitness:\t4\n"); })
            .bad("read damaged genes", kLogic, [](S& s) { s.read("Chromosome:\t1x0\tFitness:\t4\n"); })
            .bad("read negative fitness", kLogic, [](S& s) { s.read("Chromosome:\t110\tFitness:\t-4\n"); })
            .bad("genes of none", kLogic, [](S& s) { s.none.GetChromosome(); })
            .bad("random genes of none", kLogic, [](S& s) { s.none.SetRandomChromosome(); })
            .bad("crossover with none", kLogic, [](S& s) { s.none.Crossover(&s.a); });
        int d = t ? 4 : 3;
        add("individuals", d, r);
    }
    {
        typedef GeneticS S;
        Subject<S> r;
        r.cond("run", kInvalid, [](S& s, V& out) { s.run(out, 5); }).cond("run with another function", kInvalid, [](S& s, V& out) { s.run(out, 7); })
            .good("initial parameters", [](S& s, V&) { s.initial({ 1, 2, 7, 12 }); }).good("too few initial parameters", [](S& s, V&) { s.initial({ 1, 2 }); })
            .bad("minimize", kInvalid, [](S& s) { Genes p(4); try { s.g->Optimize(Fitness(3), &p, false); } catch (...) { MC_CHECK(p.get() == 4, "refused parameters were changed"); throw; } })
            .bad("continuous parameters", kLogic, [](S& s) { Numbers p(V({ 1, 2 })); static_cast<IOptimizer&>(*s.g).Optimize(Fitness(3), &p, true); })
            .bad("continuous function", kCast, [](S& s) { Genes p(4); try { static_cast<IOptimizer&>(*s.g).Optimize(OnlyContinuous(), &p, true); } catch (...) { MC_CHECK(p.get() == 4, "refused parameters were changed"); throw; } })
            .bad("clone", kLogic, [](S& s) { delete s.g->Clone(); });
        int d = t ? 4 : 3;
        add("genetic algorithm", d, r);
    }
    {
        int d = t ? 4 : 3;
        auto m0 = optimizer<0>(); add("steepest descent", d, m0);
        auto m1 = optimizer<1>(); add("conjugate gradients", d, m1);
        auto m2 = optimizer<2>(); add("Hooke-Jeeves", d, m2);
        auto m3 = optimizer<3>(); add("Hleborodov-Rosenbrock", d, m3);
        auto m4 = optimizer<4>(); add("Nelder-Mead", d, m4);
        auto m5 = optimizer<5>(); add("simulated annealing", d, m5);
        auto m6 = optimizer<6>(); add("random search", d, m6);
        auto m7 = optimizer<7>(); add("random search with an optimizer", d, m7);
        typedef NoPointsS S;
        Subject<S> n;
        n.bad("random search over no points", kInvalid, [](S& s) { Numbers p(V({ 1, 2 })); s.r.Optimize(Function(), static_cast<IContinuousParameters*>(&p), false); });
        add("random search over no points", 2, n);
        typedef GridS G;
        Subject<G> g;
        g.good("run", [](G& s, V& out) { s.observe(out); })
            .bad("discrete parameters", kRuntime, [](G& s) { Genes p(4); s.g.Optimize(NegatedFunction(), &p); });
        add("grid search", d, g);
    }
    {
        typedef Nothing S;
        Subject<S> r;
        IMutator::shared_ptr m(new Flip());
        r.bad("linear scale from 0", kInvalid, [](S&) { LinearScale s(0, 4, 3); }).bad("linear scale from -1", kInvalid, [](S&) { LinearScale s(-1, 4, 3); })
            .bad("linear scale to 0", kInvalid, [](S&) { LinearScale s(1, 0, 3); }).bad("reversed linear scale", kInvalid, [](S&) { LinearScale s(4, 2, 3); })
            .bad("empty linear scale", kInvalid, [](S&) { LinearScale s(4, 4, 3); }).bad("linear scale of one", kInvalid, [](S&) { LinearScale s(1, 4, 1); })
            .bad("linear scale of none", kInvalid, [](S&) { LinearScale s(1, 4, 0); }).bad("reversed logarithmic scale", kInvalid, [](S&) { LogarithmicScale s(3, 1); })
            .bad("empty logarithmic scale", kInvalid, [](S&) { LogarithmicScale s(3, 3); })
            .bad("reversed interval", kInvalid, [](S&) { DoubleParameter p(0.5, 1, 0, 0.1); }).bad("empty interval", kInvalid, [](S&) { DoubleParameter p(1, 1, 1, 0.1); })
            .bad("value above", kInvalid, [](S&) { DoubleParameter p(1.5, 0, 1, 0.1); }).bad("value below", kInvalid, [](S&) { DoubleParameter p(-0.5, 0, 1, 0.1); })
            .bad("value is not a number", kInvalid, [](S&) { DoubleParameter p(std::nan(""), 0, 1, 0.1); })
            .bad("negative precision", kInvalid, [](S&) { DoubleParameter p(0.5, 0, 1, -0.1); }).bad("array over a reversed interval", kInvalid, [](S&) { DoubleParametersArray p(1, 0, 0.1, 2); })
            .bad("mutation probability 2", kInvalid, [](S&) { FlipBitMutator f(2); }).bad("mutation probability -1", kInvalid, [](S&) { FlipBitMutator f(-1); })
            .bad("unknown kind of pool", kRuntime, [](S&) { WorkerPoolFactory::CreateWorkerPool(static_cast<WorkerPoolFactory::WorkerPoolType>(17)); })
            .bad("pool of processes", kRuntime, [](S&) { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); })
            // refused with a message and nothing is made
            .good("genetic algorithms", [m](S&, V&) {
                MC_CHECK(!GeneticAlgorithm::Create(3, 1, 2, m, 0), "a population of 3 is accepted");
                MC_CHECK(!GeneticAlgorithm::Create(0, 0, 2, m, 0), "a population of 0 is accepted");
                MC_CHECK(!GeneticAlgorithm::Create(-2, 0, 2, m, 0), "a population of -2 is accepted");
                MC_CHECK(!GeneticAlgorithm::Create(4, 1, 0, m, 0), "0 generations are accepted");
                MC_CHECK(!GeneticAlgorithm::Create(4, 1, -1, m, 0), "-1 generations are accepted");
                MC_CHECK(!GeneticAlgorithm::Create(4, 1, 2, IMutator::shared_ptr(), 0), "no mutator is accepted");
            });
        add("objects that cannot be made", 2, r);
    }
    {
        typedef PoolS S;
        Subject<S> r;
        r.good("two tasks", [](S& s, V& out) { s.run(2, out); }).good("no tasks", [](S& s, V& out) { s.run(0, out); })
            .bad("unknown kind of pool", kRuntime, [](S&) { WorkerPoolFactory::CreateWorkerPool(static_cast<WorkerPoolFactory::WorkerPoolType>(17)); })
            .bad("pool of processes", kRuntime, [](S&) { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kMpiWorkerPool); })
            .bad("pool of threads", kRuntime, [](S&) { WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool); });
        add("pools", 4, r);
    }
}
}
