// C08: copies.  Every history of operations on two objects, of copying one over
// the other (or itself) and of making one anew as a copy of the other; each is
// compared with an object that was never copied and had the same history.
#include "uses.h"
#include <k52/common/settings_manager.h>
#include <k52/dsp/haar_wavelet_function.h>
#include <k52/dsp/mhat_wavelet_function.h>
#include <k52/dsp/morlet_wavelet_function.h>
#include <k52/parallel/worker_statistics.h>
#include <sstream>
#include <type_traits>

using namespace uses;

namespace
{
void fresh() { env::reset(1); env::reset_random(); }

struct Counting     // blocks of memory allocated while one lives are counted
{
    Counting() { failures::state().counting = true; }
    ~Counting() { failures::state().counting = false; }
};

template <class T> struct Kind
{
    struct Operation { const char* name; std::function<void(T&)> perform; };
    std::function<boost::shared_ptr<T>()> make;
    std::vector<Operation> operations;
    std::function<void(T&, V&)> observe;
    Kind& op(const char* n, std::function<void(T&)> f) { operations.push_back({ n, f }); return *this; }
};

template <class T> void assign(T& to, T& from, std::true_type) { Counting counting; to = from; }
template <class T> void assign(T&, T&, std::false_type) { mc::discard(); }
template <class T> boost::shared_ptr<T> copied(T& from, std::true_type) { Counting counting; return boost::shared_ptr<T>(new T(from)); }
template <class T> boost::shared_ptr<T> copied(T&, std::false_type) { mc::discard(); }

template <class T> void perform(const Kind<T>& k, T& t, int i)
{
    fresh();
    Counting counting;
    try { k.operations[i].perform(t); }
    catch (std::exception&) {}      // refused operations are C07's
}

template <class T> V look(const Kind<T>& k, T& t)
{
    V v;
    fresh();
    Counting counting;
    k.observe(t, v);
    return v;
}

template <class T> void histories(const Kind<T>& k, int depth)
{
    typedef std::integral_constant<bool, std::is_copy_assignable<T>::value> Assignable;
    typedef std::integral_constant<bool, std::is_copy_constructible<T>::value> Copyable;
    failures::State& st = failures::state();
    st = failures::State();
    uint64_t h = 11;
    {
        fresh();
        boost::shared_ptr<T> object[2];
        std::vector<int> history[2];
        for (int s = 0; s < 2; ++s) { fresh(); Counting counting; object[s] = k.make(); }
        // operations on either, two ways of assignment, self assignment, two ways of making a copy, one destroyed while its copy lives
        const int n = k.operations.size();
        for (int d = 0; d < depth; ++d)
        {
            int c = mc::choose(2 * n + 6, "operation");
            std::string what;
            if (c < 2 * n)
            {
                int s = c / n;
                perform(k, *object[s], c % n);
                history[s].push_back(c % n);
                what = std::string(k.operations[c % n].name) + (s ? " of the second" : " of the first");
            }
            else
            {
                c -= 2 * n;
                if (c == 0) { assign(*object[0], *object[1], Assignable()); history[0] = history[1]; what = "first = second"; }
                if (c == 1) { assign(*object[1], *object[0], Assignable()); history[1] = history[0]; what = "second = first"; }
                if (c == 2) { assign(*object[0], *object[0], Assignable()); what = "first = first"; }
                if (c == 3) { object[1] = copied(*object[0], Copyable()); history[1] = history[0]; what = "second is made as a copy of the first"; }
                if (c == 4) { object[0] = copied(*object[1], Copyable()); history[0] = history[1]; what = "first is made as a copy of the second"; }
                if (c == 5) { object[0] = copied(*copied(*object[0], Copyable()), Copyable()); what = "first is replaced by a copy of a copy"; }
            }
            MC_TRACE(what);
            mc::step();
            h = mc::mix(h, c);
            for (int s = 0; s < 2; ++s)
            {
                fresh();
                boost::shared_ptr<T> twin;
                { Counting counting; twin = k.make(); }
                for (int i : history[s]) perform(k, *twin, i);
                V is = look(k, *object[s]), should = look(k, *twin);
                MC_CHECK(is == should, "after " << what << " the " << (s ? "second" : "first") << " is " << mc::show(is) << ", without copies " << mc::show(should));
                h = mc::mix(h, mc::hash_doubles(is));
            }
            mc::state(h);
        }
        mc::outcome(h);
    }
    MC_CHECK(st.live == 0, st.live << " blocks of memory were not given back");
}

template <class T> bool copies(const Kind<T>&) { return std::is_copy_assignable<T>::value || std::is_copy_constructible<T>::value; }

struct AnyScale : IScale { V GetScales() const { return V({ 1, 2.5 }); } };
struct OwnSpline : AkimaSpline { OwnSpline() {} };

template <class T> Kind<T> transform()
{
    Kind<T> k;
    k.make = [] { return boost::shared_ptr<T>(new T(4)); };
    k.observe = [](T& t, V& out) { keep(out, t.Transform(sequence(4, 3))); };
    k.op("transform", [](T& t) { t.Transform(sequence(4, 1)); });
    return k;
}
template <class T> Kind<T> wavelet()
{
    Kind<T> k;
    k.make = [] { return boost::shared_ptr<T>(new T()); };
    k.observe = [](T& t, V& out) { for (double at : { -1.25, 0.0, 0.5, 3.0 }) keep(out, t.GetValue(at)); };
    k.op("value", [](T& t) { t.GetValue(0.75); });
    return k;
}
template <class T> void run(T& o, V& out, bool maximize)
{
    Numbers p(V({ 0.5, 0.25 }));
    Function f;
    NegatedFunction g;
    o.Optimize(maximize ? static_cast<const ContinuousObjectiveFunction&>(g) : f, static_cast<IContinuousParameters*>(&p), maximize);
    keep(out, p.plain());
}
template <class T> Kind<T> optimizer(std::function<T*()> make)
{
    Kind<T> k;
    k.make = [=] { return boost::shared_ptr<T>(make()); };
    k.observe = [](T& t, V& out) { run(t, out, false); };
    k.op("minimize", [](T& t) { V v; run(t, v, false); }).op("maximize", [](T& t) { V v; run(t, v, true); });
    return k;
}
}

int main(int argc, char** argv)
{
    mc::describe("every history of operations on two objects, of assignments between them and of copies made of them; each object is compared "
                 "with one that was never copied and had the same history");
    bool t = opt::thorough(argc, argv);
    opt::no_plot();
    mc::Options o;
    o.warm_up = true;
    auto add = [&](const std::string& name, int d, auto k) {
        if (!copies(k)) return;     // there are no copies
        d += t;
        mc::add(name, "histories of " + std::to_string(d) + " steps", [=] { histories(k, d); }, o);
    };
    // signal processing
    add("fast Fourier transform", 4, transform<FastFourierTransform>());
    {
        typedef FourierTransform T;
        Kind<T> k;
        k.make = [] { return boost::shared_ptr<T>(new T()); };
        k.observe = [](T& t, V& out) { keep(out, t.Transform(sequence(3, 3))); };
        k.op("transform", [](T& t) { t.Transform(sequence(4, 1)); });
        add("Fourier transform", 3, k);
    }
    {
        typedef InverseFourierTransform T;
        Kind<T> k;
        k.make = [] { return boost::shared_ptr<T>(new T(IFourierTransform::shared_ptr(new FastFourierTransform(4)))); };
        k.observe = [](T& t, V& out) { keep(out, t.Transform(sequence(4, 3))); };
        k.op("transform", [](T& t) { t.Transform(sequence(4, 1)); });
        add("inverse Fourier transform", 4, k);
    }
    {
        typedef CircularConvolution T;
        Kind<T> k;
        k.make = [] { return boost::shared_ptr<T>(new T()); };
        k.observe = [](T& t, V& out) { keep(out, t.EvaluateConvolution(sequence(3, 3), sequence(3, 1))); };
        k.op("convolution", [](T& t) { t.EvaluateConvolution(sequence(4, 1), sequence(4, 2)); });
        add("convolution", 3, k);
    }
    {
        typedef FourierBasedCircularConvolution T;
        Kind<T> k;
        k.make = [] { return boost::shared_ptr<T>(new T(IFourierTransform::shared_ptr(new FastFourierTransform(4)))); };
        k.observe = [](T& t, V& out) { keep(out, t.EvaluateConvolution(sequence(4, 3), sequence(4, 1))); };
        k.op("convolution", [](T& t) { t.EvaluateConvolution(sequence(4, 1), sequence(4, 2)); });
        add("convolution by Fourier transform", 4, k);
    }
    for (int cached = 0; cached < 2; ++cached)
    {
        typedef FastWaveletTransform T;
        Kind<T> k;
        IWavelet::shared_ptr a(new MhatWaveletFunction()), b(new MorletWaveletFunction());
        auto both = [](T& t, IWavelet::shared_ptr w, int n, V& out) { for (const Seq& r : t.Transform(sequence(4, n), w)) keep(out, r); };
        k.make = [=] { return boost::shared_ptr<T>(new T(IScale::shared_ptr(new AnyScale()), 4, cached)); };
        k.observe = [=](T& t, V& out) { both(t, a, 3, out); both(t, b, 3, out); };
        k.op("transform", [=](T& t) { V v; both(t, a, 1, v); }).op("transform with another wavelet", [=](T& t) { V v; both(t, b, 1, v); });
        add(cached ? "fast wavelet transform with cache" : "fast wavelet transform", 3, k);
    }
    add("Haar wavelet", 3, wavelet<HaarWaveletFunction>());
    add("Mexican hat wavelet", 3, wavelet<MhatWaveletFunction>());
    add("Morlet wavelet", 3, wavelet<MorletWaveletFunction>());
    {
        typedef OwnSpline T;
        Kind<T> k;
        k.make = [] { boost::shared_ptr<T> s(new T()); s->Initialize(V({ 0, 1, 2, 3, 4 }), signal(5, 0)); return s; };
        k.observe = [](T& s, V& out) { for (double at : { 0.0, 0.5, 3.25, 4.0 }) out.push_back(s.Value(at)); };
        k.op("train 5", [](T& s) { s.Initialize(V({ 0, 1, 2, 3, 4 }), signal(5, 1)); }).op("train 7", [](T& s) { s.Initialize(V({ 0, 1, 2, 3, 4, 5, 6 }), signal(7, 2)); });
        add("spline", 4, k);
    }
    {
        typedef AkimaWavelet T;
        Kind<T> k;
        // (copies share the spline, so only what does not train it again)
        k.make = [] { return AkimaWavelet::CreateAkimaWavelet(signal(6, 0), signal(6, 0)); };
        k.observe = [](T& w, V& out) { for (double at : { -3.9, 0.0, 1.3 }) keep(out, w.GetValue(at)); };
        k.op("value", [](T& w) { w.GetValue(0.5); });
        add("wavelet of samples", 3, k);
    }
    // parameters, individuals, mutators
    {
        typedef ContinuousParametersArray T;
        Kind<T> k;
        k.make = [] { return boost::shared_ptr<T>(new T(V({ 1, 2 }))); };
        k.observe = [](T& p, V& out) { keep(out, p.GetValues()); };
        k.op("values", [](T& p) { p.SetValues(V({ 5, 6 })); }).op("other values", [](T& p) { p.SetValues(V({ 7, 1 })); });
        add("continuous parameters", 4, k);
    }
    {
        typedef Individual T;
        Kind<T> k;
        auto of = [](int value) { IntParameter p(value, 0, 6); return boost::shared_ptr<T>(new T(&p)); };
        k.make = [=] { return of(3); };
        k.observe = [](T& i, V& out) {
            keep(out, i.GetChromosome());
            keep(out, util::encode(*i.GetParametersAccordingToChromosome()));
            out.push_back(i.HasFitness());
            out.push_back(i.HasFitness() ? i.get_fitness() : -1);
            out.push_back(i.get_times_chosen_for_crossover());
            out.push_back(i.IsValid());
        };
        k.op("fitness 2", [](T& i) { i.set_fitness(2); }).op("random", [](T& i) { i.SetRandomChromosome(); })
            .op("mutation", [](T& i) { i.Mutate(IMutator::shared_ptr(new FlipBitMutator(1))); })
            .op("chosen", [](T& i) { i.IncreaseTimesChosenForCrossover(); })
            .op("read", [](T& i) { std::istringstream in("Chromosome:\t101\tFitness:\t4\n"); in >> i; })
            .op("crossover", [=](T& i) { boost::shared_ptr<T> other = of(4); i.Crossover(other.get()); });
        add("individual", 4, k);
        Kind<T> n = k;
        n.make = [] { return boost::shared_ptr<T>(new T()); };
        n.observe = [=](T& i, V& out) { try { k.observe(i, out); } catch (std::logic_error&) { out.push_back(-9); } };
        n.op("initialization", [](T& i) { IntParameter p(5, 0, 6); i.Initialize(&p); });
        add("individual that is initialized later", 3, n);
    }
    {
        auto mutate = [](IMutator& m, V& out) { ChromosomeType c(8); m.MutateChromosome(&c); keep(out, c); };
        typedef LinearMutator L;
        Kind<L> l;
        l.make = [] { return boost::shared_ptr<L>(new L(0.25, 0.75)); };
        l.observe = [=](L& m, V& out) { mutate(m, out); };
        l.op("mutation", [=](L& m) { V v; mutate(m, v); }).op("another", [](L& m) { L other(1, 0); assign(m, other, std::is_copy_assignable<L>()); });
        add("linear mutator", 4, l);
    }
    // optimizers
    {
        auto steepest = optimizer<SteepestDescentMethod>([] { return static_cast<SteepestDescentMethod*>(opt::make(opt::kSteepestDescent, 1)); });
        add("steepest descent", 3, steepest);
        add("conjugate gradients", 3, optimizer<ConjugateGradientMethod>([] { return static_cast<ConjugateGradientMethod*>(opt::make(opt::kConjugateGradient, 1)); }));
        add("Hooke-Jeeves", 3, optimizer<HookeJeevesMethod>([] { return static_cast<HookeJeevesMethod*>(opt::make(opt::kHookeJeeves, 1)); }));
        add("Hleborodov-Rosenbrock", 3, optimizer<HleborodovRosenbrockMethod>([] { return static_cast<HleborodovRosenbrockMethod*>(opt::make(opt::kHleborodovRosenbrock, 1)); }));
        add("Nelder-Mead", 3, optimizer<BoundedNelderMead>([] { return static_cast<BoundedNelderMead*>(opt::make(opt::kNelderMead, 1)); }));
        add("simulated annealing", 3, optimizer<SimulatedAnnealing>([] { return static_cast<SimulatedAnnealing*>(opt::make(opt::kAnnealing, 1)); }));
        add("random search", 3, optimizer<RandomSearch>([] { return new RandomSearch(3, -1, 1); }));
        boost::shared_ptr<ContinuousOptimizer> inner(opt::make(opt::kNelderMead, 1));
        add("random search with an optimizer", 2, optimizer<RandomSearch>([=] { return new RandomSearch(2, -1, 1, inner.get()); }));
    }
    // common
    {
        typedef k52::SettingsManager T;
        Kind<T> k;
        k.make = [] { return boost::shared_ptr<T>(new T(0, 0)); };
        k.observe = [](T& s, V& out) { for (const char* n : { "a", "a.b", "c" }) out.push_back(s.get<double>(n, -7)); };
        k.op("a = 1", [](T& s) { s.put("a", 1); }).op("a.b = 2", [](T& s) { s.put("a.b", 2); }).op("a = 3", [](T& s) { s.put("a", 3); });
        add("settings", 4, k);
        typedef k52::parallel::WorkerStatistics W;
        Kind<W> w;
        w.make = [] { return boost::shared_ptr<W>(new W(0, 0, 3)); };
        w.observe = [](W& s, V& out) { out.push_back(s.get_counted()); out.push_back(s.get_errors()); out.push_back(s.get_id()); };
        w.op("counted", [](W& s) { s.IncreaseCounted(); }).op("error", [](W& s) { s.IncreaseErrors(); });
        add("statistics of a worker", 4, w);
    }
    return mc::run(argc, argv);
}
