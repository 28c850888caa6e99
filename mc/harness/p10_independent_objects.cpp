// P10: threads that use objects of their own (or share objects which are only
// read) do not influence each other.
#include "mc.h"
#include "mc_sched.h"
#include "env.h"
#include "opt_util.h"
#include "params_util.h"
#include <k52/common/cache.h>
#include <k52/common/floating_point.h>
#include <k52/common/helpers.h>
#include <k52/common/settings_manager.h>
#include <k52/dsp/akima_spline.h>
#include <k52/dsp/akima_wavelet_function.h>
#include <k52/dsp/cwt.h>
#include <k52/dsp/transform/circular_convolution.h>
#include <k52/dsp/transform/fast_fourier_transform.h>
#include <k52/dsp/transform/fourier_based_circular_convolution.h>
#include <k52/dsp/transform/fourier_transform.h>
#include <k52/dsp/transform/inverse_fourier_transform.h>
#include <k52/dsp/transform/wavelet/fast_wavelet_transform.h>
#include <k52/dsp/transform/wavelet/linear_scale.h>
#include <k52/dsp/transform/wavelet/logarithmic_scale.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/parallel/worker_pool_factory.h>
#include <boost/thread.hpp>

using namespace k52::dsp;
using namespace k52::common;
using namespace k52::optimization;
using k52::parallel::ITask;
using k52::parallel::ITaskResult;
using k52::parallel::IWorkerPool;
using k52::parallel::WorkerPoolFactory;
typedef std::complex<double> C;
typedef std::vector<C> Seq;
typedef std::vector<double> V;

namespace
{
// what both threads may use, but not change
struct Shared
{
    HaarWaveletFunction haar;
    boost::shared_ptr<MhatWaveletFunction> mhat;
    boost::shared_ptr<MorletWaveletFunction> morlet;
    LinearScale linear;
    LogarithmicScale logarithmic;
    FourierTransform fourier;
    CircularConvolution convolution;
    boost::shared_ptr<InverseFourierTransform> inverse;
    Shared() : mhat(new MhatWaveletFunction()), morlet(new MorletWaveletFunction()), linear(1, 3, 3), logarithmic(0, 3)
    {
        inverse.reset(new InverseFourierTransform(IFourierTransform::shared_ptr(new FourierTransform())));
    }
};

void keep(V& out, C c) { out.push_back(c.real()); out.push_back(c.imag()); }
void keep(V& out, const Seq& s) { for (C c : s) keep(out, c); }
void keep(V& out, const V& s) { out.insert(out.end(), s.begin(), s.end()); }
void pause() { sched::point("between two calls"); }

V signal(int n, int who) { V v(n); for (int i = 0; i < n; ++i) v[i] = std::cos(1.7 * i + who) + who; return v; }
Seq sequence(int n, int who) { Seq v(n); for (int i = 0; i < n; ++i) v[i] = C(std::cos(1.7 * i + who), i - who); return v; }

struct Function : ContinuousObjectiveFunction
{
    V center;
    mutable V last;
    mutable int calls = 0;
    explicit Function(const V& c) : center(c) {}
    using ContinuousObjectiveFunction::operator();
    double operator()(const V& p) const
    {
        last = p;
        if (calls++ < 2) sched::point("in the objective function");
        double s = 0;
        for (size_t i = 0; i < p.size(); ++i) s += (i + 1) * (last[i] - center[i]) * (last[i] - center[i]);
        return s;
    }
    Function* Clone() const { return new Function(center); }
};

struct Number : ITaskResult { int value; explicit Number(int v) : value(v) {} };
struct Square : ITask
{
    int x;
    explicit Square(int v) : x(v) {}
    ITaskResult* Perform() const { return new Number(x * x); }
};

enum Job { kSpline, kSampledWavelet, kFunctions, kScales, kTransforms, kConvolutions, kFastFourier, kFastWavelet, kContinuousWavelet,
           kCache, kSettings, kHelpers, kIntegers, kReals, kComposites, kSequentialPool,
           kOptimizers, kJobs = kOptimizers + opt::kDeterministic };
const char* job_name(int j)
{
    static const char* names[] = { "spline", "wavelet of samples", "wavelet functions", "scales", "transforms", "convolutions", "fast transform",
        "fast wavelet transform", "continuous wavelet transform", "cache", "settings", "helpers", "integers", "reals", "composites", "sequential pool",
        "steepest descent", "conjugate gradients", "Hooke-Jeeves", "Hleborodov-Rosenbrock", "Nelder-Mead" };
    return names[j];
}

void perform(int job, int who, Shared& shared, V& out)
{
    switch (job)
    {
    case kSpline:
    {
        AkimaSpline::shared_ptr s = AkimaSpline::Create();
        V x = { 0, 1, 2, 3.5, 4, 5 }, y = signal(6, who);
        s->Initialize(x, y);
        pause();
        for (double at : { 0.0, 0.5, 2.25, 4.75, 5.0 }) out.push_back(s->Value(at));
        pause();
        y[3] = who;
        s->Initialize(x, y);
        pause();
        out.push_back(s->Value(3));
        break;
    }
    case kSampledWavelet:
    {
        AkimaWavelet::shared_ptr w = AkimaWavelet::CreateAkimaWavelet(signal(9, who), signal(9, who + 3));
        pause();
        for (double at : { -3.9, 0.0, 1.3 }) keep(out, w->GetValue(at));
        break;
    }
    case kFunctions:
        for (int i = 0; i < 2; ++i)
        {
            keep(out, shared.haar.GetValue(0.2 * who + i));
            keep(out, shared.mhat->GetValue(0.3 * who + i));
            keep(out, shared.morlet->GetValue(0.4 * who + i));
            HaarWaveletFunction haar; MhatWaveletFunction mhat; MorletWaveletFunction morlet;
            keep(out, haar.GetValue(0.25)); keep(out, mhat.GetValue(0.5 * who)); keep(out, morlet.GetValue(-0.5 * who));
            pause();
        }
        break;
    case kScales:
    {
        keep(out, shared.linear.GetScales());
        keep(out, shared.logarithmic.GetScales());
        pause();
        LinearScale l(1 + who, 4 + who, 3 + who);
        LogarithmicScale g(who, 2 + who);
        pause();
        keep(out, l.GetScales());
        keep(out, g.GetScales());
        break;
    }
    case kTransforms:
    {
        FourierTransform own;
        InverseFourierTransform inverse(IFourierTransform::shared_ptr(new FourierTransform()));
        keep(out, shared.fourier.Transform(sequence(3, who)));
        pause();
        keep(out, own.Transform(sequence(3 + who, who)));
        keep(out, shared.inverse->Transform(sequence(3, who)));
        pause();
        keep(out, inverse.Transform(sequence(2, who)));
        break;
    }
    case kConvolutions:
    {
        FourierBasedCircularConvolution own(IFourierTransform::shared_ptr(new FourierTransform()));
        keep(out, shared.convolution.EvaluateConvolution(sequence(3, who), sequence(3, 1)));
        pause();
        keep(out, own.EvaluateConvolution(sequence(3 + who, who), sequence(3 + who, 1)));
        break;
    }
    case kFastFourier:
    {
        FastFourierTransform t(4);
        pause();
        keep(out, t.Transform(sequence(4, who)));
        pause();
        keep(out, t.Transform(sequence(4, who + 1)));
        break;
    }
    case kFastWavelet:
    {
        FastWaveletTransform t(IScale::shared_ptr(new LinearScale(1, 2, 2)), 4, 1);
        IWavelet::shared_ptr w = shared.mhat;
        pause();
        for (int i = 0; i < 2; ++i)
        {
            std::vector<Seq> r = t.Transform(sequence(4, who + i), w);
            for (const Seq& s : r) keep(out, s);
            w = shared.morlet;
            pause();
        }
        break;
    }
    case kContinuousWavelet:
    {
        Wavelet::shared_ptr w = Wavelet::BuildWavelet(shared.mhat, 2, 8, 2, who ? Wavelet::Log : Wavelet::Linear);
        pause();
        for (int i = 0; i < 2; ++i)
        {
            std::vector<V> r = ContiniousWaveletTransformation(signal(3, who + i), w, 1);
            for (const V& s : r) keep(out, s);
            pause();
        }
        break;
    }
    case kCache:
    {
        typedef Cache<int, double> Numbers;
        Numbers::shared_ptr c = Numbers::Create(1);
        for (int i = 0; i < 2; ++i)
        {
            c->AddValue(i, 10 * who + i);
            pause();
            out.push_back(c->IsCached(i));
            out.push_back(c->GetCachedValue(i));
            out.push_back(c->IsCached(5));
        }
        break;
    }
    case kSettings:
    {
        const char* arguments[] = { "program", "--a.b=1", who ? "--c=2" : "--c=3" };
        k52::SettingsManager s(3, arguments);
        pause();
        s.put("d.e", who + 0.5);
        out.push_back(s.get<int>("a.b"));
        out.push_back(s.get<int>("c"));
        pause();
        out.push_back(s.get<double>("d.e"));
        out.push_back(s.get<int>("none", who));
        break;
    }
    case kHelpers:
    {
        out.push_back(FloatingPoint::AreEqual(1.0 * who, 1e-11));
        out.push_back(FloatingPoint::AreEqual(signal(3, who), signal(3, 1)));
        pause();
        keep(out, Helpers::Conjugate(sequence(2, who)));
        break;
    }
    case kIntegers:
    {
        IntParameter p(who, 0, 9 + who);
        for (int i = 0; i < 2; ++i)
        {
            ChromosomeType c = util::encode(p);
            pause();
            util::decode(p, c);
            out.push_back(p.get_value() + 100 * p.CheckConstraints());
            p.set_value(3 + who);
        }
        break;
    }
    case kReals:
    {
        DoubleParameter p(0.5, -1 - who, 1 + who, 0.01);
        DoubleParametersArray a(0, 1 + who, 0.25, 2);
        ChromosomeType c = util::encode(p);
        pause();
        util::decode(p, c);
        out.push_back(p.GetValue());
        a.SetValues(V(2, 0.5 * who));
        c = util::encode(a);
        pause();
        util::decode(a, c);
        keep(out, a.get_values());
        break;
    }
    case kComposites:
    {
        std::vector<IDiscreteParameters::shared_ptr> parts;
        IntParameter* i = new IntParameter(1 + who, 0, 7);
        parts.push_back(IDiscreteParameters::shared_ptr(i));
        parts.push_back(IDiscreteParameters::shared_ptr(new DoubleParameter(0.5, 0, 2, 0.5)));
        CompositeDiscreteParameters p;
        p.Initialize(parts);
        ChromosomeType c = util::encode(p);
        pause();
        boost::shared_ptr<CompositeDiscreteParameters> q(p.Clone());
        i->set_value(7);
        pause();
        util::decode(p, c);
        for (bool b : util::encode(*q)) out.push_back(b);
        out.push_back(i->get_value());
        out.push_back(p.CheckConstraints());
        break;
    }
    case kSequentialPool:
    {
        IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool);
        Square a(3 + who), b(5 + who);
        std::vector<const ITask*> tasks = { &a, &b, &a };
        for (int i = 0; i < 2; ++i)
        {
            std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(tasks);
            for (size_t k = 0; k < r.size(); ++k) out.push_back(dynamic_cast<Number&>(*r[k]).value);
            pause();
        }
        out.push_back(pool->GetStatistics().at(0).get_counted());
        break;
    }
    default:
    {
        boost::shared_ptr<ContinuousOptimizer> o(opt::make(job - kOptimizers, 1));
        for (int i = 0; i < 2; ++i)
        {
            ContinuousParametersArray p(V(2 - i, 0.5 * who + 0.25));
            Function f(V(2, 0.4 - who));
            o->Optimize(static_cast<const ContinuousObjectiveFunction&>(f), static_cast<IContinuousParameters*>(&p), false);
            keep(out, p.GetValues());
            pause();
            o.reset(o->Clone());
        }
        break;
    }
    }
}

void together(const std::vector<int>& jobs, bool sharing)
{
    std::vector<V> results(jobs.size());
    unsigned long long h = 0;
    sched::Options so;
    so.spurious = false;
    so.delay_bounded = jobs.size() > 2;
    so.horizon = 100000;
    sched::run([&] {
        boost::shared_ptr<Shared> shared;
        if (sharing) shared.reset(new Shared());
        std::vector<boost::shared_ptr<boost::thread> > threads;
        for (size_t t = 1; t < jobs.size(); ++t)
        {
            V* r = &results[t];
            Shared* s = shared.get();
            int job = jobs[t], who = t;
            threads.push_back(boost::shared_ptr<boost::thread>(new boost::thread([=] {
                if (s) perform(job, who, *s, *r);
                else { Shared own; perform(job, who, own, *r); }
            })));
        }
        if (shared) perform(jobs[0], 0, *shared, results[0]);
        else { Shared own; perform(jobs[0], 0, own, results[0]); }
        for (auto& t : threads) t->join();
        h = sched::schedule_hash();
    }, so);
    uint64_t o = 1;
    // the same alone, afterwards: nothing is prepared by it
    Shared shared;
    for (size_t t = 0; t < jobs.size(); ++t)
    {
        V alone;
        perform(jobs[t], t, shared, alone);
        mc::step();
        MC_TRACE(job_name(jobs[t]) << " alone: " << mc::show(alone));
        MC_CHECK(!alone.empty() && alone == results[t], job_name(jobs[t]) << " in thread " << t << " gave " << mc::show(results[t]) << ", alone it gives " << mc::show(alone));
        o = mc::hash_doubles(alone, o);
    }
    mc::outcome(mc::mix(o, h));
    mc::state(mc::mix(o, h));
}
}

int main(int argc, char** argv)
{
    mc::describe("two or three threads with own objects of all kinds, at the same time, also sharing objects that are only read: all pairs of uses, all "
                 "schedules with at most the stated number of preemptions between and inside of calls; data races by happens-before, and results that "
                 "differ from those of the same use alone, are violations");
    bool t = opt::thorough(argc, argv);
    opt::no_plot();
    for (int a = 0; a < kJobs; ++a)
    {
        mc::Options o;
        o.warm_up = true;
        o.max_deviations = t ? 5 : 3;
        mc::add(std::string(job_name(a)) + " and each other use", "at most " + std::to_string(o.max_deviations) + " preemptions", [=] {
            std::vector<int> jobs(2, a);
            // the first execution of a process is the warm-up: what is initialised on first use is initialised (under observation)
            static bool warm = false;
            if (!warm) for (int b = a; b < kJobs; ++b) { jobs[1] = b; together(jobs, false); }
            warm = true;
            jobs[1] = a + mc::choose(kJobs - a, "use of the other thread");
            // the objects of a thread are made by it, or some of them before it, for both
            together(jobs, mc::choose(2, "made before"));
        }, o);
    }
    mc::Options o;
    o.warm_up = true;
    o.max_deviations = t ? 4 : 2;
    mc::add("three threads with the same use", "at most " + std::to_string(o.max_deviations) + " delays", [=] {
        static bool warm = false;
        if (!warm) for (int b = 0; b < kJobs; ++b) together(std::vector<int>(3, b), false);
        warm = true;
        together(std::vector<int>(3, mc::choose(kJobs, "use")), mc::choose(2, "made before"));
    }, o);
    return mc::run(argc, argv);
}
