// P07: what is sent to another rank arrives as it was; the registry of objects.
#include "mc.h"
#include "env.h"
#include "fmpi.h"
#include "params_util.h"
#include <boost/mpi.hpp>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/params/composite_discrete_parameters.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/params/double_parameter.h>
#include <k52/optimization/params/double_parameters_array.h>
#include <k52/optimization/params/int_parameter.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/steepest_descent_method.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include <cmath>
#include <limits>
#include <map>
#include <stdexcept>
#include <sys/stat.h>

using namespace k52::optimization;
using k52::common::ICloneable;
using k52::parallel::mpi::IdentifyableObjectsManager;

namespace
{
typedef std::vector<double> Point;

// --- registry ---
int alive = 0;
struct Thing : ICloneable
{
    int value;
    explicit Thing(int v) : value(v) { alive++; }
    ~Thing() { alive--; }
};
template <int N> struct Kind : Thing
{
    explicit Kind(int v) : Thing(v) {}
    virtual Kind* Clone() const { return new Kind(value); }
};

void registry(int length)
{
    fmpi::Options o;
    o.size = 1;
    std::string said = fmpi::run(o, [=](int) {
        boost::mpi::environment e;
        IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
        FMPI_CHECK(&m == &IdentifyableObjectsManager::Instance(), "there are two registries");
        Kind<0> a(1);
        Kind<1> b(1);
        Kind<2> c(1);
        Thing* things[] = { &a, &b, &c };
        std::map<int, int> model;
        std::ostringstream log;
        alive = 0;
        for (int i = 0; i < length; ++i)
        {
            int op = fmpi::choose(7, "operation");
            if (op < 3)
            {
                things[op]->value = 10 * i + op;
                m.RegisterObject(*things[op]);
                model[op] = things[op]->value;
                things[op]->value = -1; // the registry has a copy
            }
            else
            {
                std::string id = op < 6 ? IdentifyableObjectsManager::GetId(*things[op - 3]) : "no such type";
                bool refused = false;
                const ICloneable* found = 0;
                try { found = m.GetObject(id); }
                catch (const std::invalid_argument&) { refused = true; }
                bool known = model.count(op - 3) > 0;
                FMPI_CHECK(refused != known, "an object that was " << (known ? "" : "not ") << "registered is " << (refused ? "refused" : "found"));
                if (known)
                {
                    const Thing* t = dynamic_cast<const Thing*>(found);
                    FMPI_CHECK(t && t->value == model[op - 3], "the object found is not the one registered last for its type");
                    FMPI_CHECK(typeid(*t) == typeid(*things[op - 3]), "the object found is of another type");
                    FMPI_CHECK(t != things[op - 3], "the registry does not have its own copy");
                }
            }
            fmpi::step();
            log << op;
            FMPI_CHECK(alive == (int) model.size(), alive << " copies are alive for " << model.size() << " registered types");
        }
        std::set<std::string> ids;
        for (Thing* t : things) ids.insert(IdentifyableObjectsManager::GetId(*t));
        FMPI_CHECK(ids.size() == 3, "two types have the same identifier");
        Kind<0> other(9);
        FMPI_CHECK(IdentifyableObjectsManager::GetId(other) == IdentifyableObjectsManager::GetId(a), "two objects of a type have different identifiers");
        fmpi::say(log.str());
    });
    mc::state(mc::hash_string(said));
    mc::outcome(mc::hash_string(said));
}

// --- optimizers ---
enum Method { kSteepest, kConjugate, kHooke, kHleborodov, kNelder, kMethods };
const char* kNames[] = { "steepest descent", "conjugate gradients", "Hooke-Jeeves", "Hleborodov-Rosenbrock", "Nelder-Mead" };

// variant 0: a base; 1, 2, ...: one setting differs from it
int variants(int method) { static const int n[] = { 4, 4, 6, 5, 5 }; return n[method]; }
ContinuousOptimizer* make(int method, int v)
{
    switch (method)
    {
        case kSteepest: return new SteepestDescentMethod(v == 1 ? 1e-2 : 1e-3, v == 2 ? 1 : 50, v == 3 ? 1 : 1e-6);
        case kConjugate: return new ConjugateGradientMethod(v == 1 ? 1e-1 : 1e-3, v == 2 ? 1e-2 : 1e-3, v == 3 ? 2 : 7);
        case kHooke: return new HookeJeevesMethod(v == 1 ? 1.5 : 2, v == 2 ? 0.5 : 0.125, v == 3 ? 1 : 40, v == 4 ? 0.3 : 0.02, v == 5 ? 2 : 3);
        case kHleborodov: return new HleborodovRosenbrockMethod(v == 1 ? 1e-1 : 1e-3, v == 2 ? 3 : 20, v == 3 ? 2 : 1, v == 4 ? 2.5 : 4);
        default: return new BoundedNelderMead(v == 1 ? 0.7 : 0.5, v == 2 ? 1e-1 : 1e-3, v == 3 ? -0.5 : -1, v == 4 ? 0.8 : 1.5);
    }
}

std::vector<double>* points = 0;
class Continuous : public ContinuousObjectiveFunction
{
public:
    using ContinuousObjectiveFunction::operator();
    virtual double operator()(const Point& p) const
    {
        double v = 0;
        for (size_t i = 0; i < p.size(); ++i)
        {
            if (points) points->push_back(p[i]);
            v += std::pow(p[i] - 4 + 3.6 * i, 2) * (i + 1) + 0.3 * std::cos(3 * p[i]) + 0.4 * p[i] * p[0];
        }
        return v;
    }
    virtual Continuous* Clone() const { return new Continuous(); }
};

Point work(ContinuousOptimizer& o)
{
    Point r;
    points = &r;
    ContinuousParametersArray p(Point(2, 0.25));
    Continuous f;
    o.Optimize(static_cast<const ContinuousObjectiveFunction&>(f), static_cast<IContinuousParameters*>(&p), false);
    points = 0;
    Point q = p.GetValues();
    r.insert(r.end(), q.begin(), q.end());
    return r;
}

bool same_bits(const Point& a, const Point& b)
{
    return a.size() == b.size() && (a.empty() || memcmp(&a[0], &b[0], a.size() * sizeof(double)) == 0);
}

void optimizers(int method)
{
    fmpi::Options o;
    o.synchronous = mc::choose(2, "synchronous sends");
    int sent = mc::choose(variants(method), "sent"), had = mc::choose(variants(method), "the receiver had");
    bool through_copy = mc::choose(2, "received by a clone");
    int times = 1 + mc::choose(2, "sent twice");
    mkdir("polygon.plot", 0700);
    std::string said = fmpi::run(o, [=](int rank) {
        boost::mpi::environment e;
        boost::mpi::communicator c;
        if (rank == 1)
        {
            for (int i = 0; i < times; ++i)
            {
                boost::shared_ptr<ContinuousOptimizer> mine(make(method, had));
                if (through_copy) mine.reset(mine->Clone());
                mine->Receive(&c, 0);
                c.send(0, 5, work(*mine));
                mine->Send(&c, 0); // and back
            }
            return;
        }
        boost::shared_ptr<ContinuousOptimizer> mine(make(method, sent)), other(make(method, had)), fresh(make(method, sent));
        Point expected = work(*fresh);
        if (sent != had && same_bits(expected, work(*other))) fmpi::say("indistinguishable ");
        for (int i = 0; i < times; ++i)
        {
            mine->Send(&c, 1);
            Point r;
            c.recv(1, 5, r);
            fmpi::step();
            FMPI_CHECK(same_bits(r, expected), kNames[method] << " works differently where it was received");
            boost::shared_ptr<ContinuousOptimizer> back(make(method, had));
            back->Receive(&c, 1);
            FMPI_CHECK(same_bits(work(*back), expected), kNames[method] << " came back changed");
            FMPI_CHECK(same_bits(work(*mine), expected), kNames[method] << " was changed by sending it");
        }
        std::ostringstream s;
        s << sent << " " << had << mc::show(expected);
        fmpi::say(s.str());
    });
    if (said.find("indistinguishable") != std::string::npos && getenv("P07_SELF")) std::cerr << "INDIST " << kNames[method] << " " << sent << " " << had << "\n";
    mc::state(mc::mix(mc::mix(method, sent), 100 * had + 10 * through_copy + times));
    mc::outcome(mc::hash_string(said));
}

// --- parameters ---
void continuous(int size)
{
    static const double menu[] = { 0.0, -0.0, 1.0 / 3, -1e308, 5e-324, std::numeric_limits<double>::infinity(), std::nan("") };
    Point v(size);
    for (double& x : v) x = menu[mc::choose(7, "value")];
    int had = mc::choose(3, "values the receiver had");
    fmpi::Options o;
    o.synchronous = mc::choose(2, "synchronous sends");
    fmpi::run(o, [=](int rank) {
        boost::mpi::environment e;
        boost::mpi::communicator c;
        ContinuousParametersArray p(rank == 0 ? v : Point(had, 4.5));
        if (rank == 1)
        {
            p.Receive(&c, 0);
            FMPI_CHECK(same_bits(p.GetValues(), v), "received " << mc::show(p.GetValues()) << ", sent " << mc::show(v));
            fmpi::step();
            return;
        }
        p.Send(&c, 1);
        FMPI_CHECK(same_bits(p.GetValues(), v), "parameters were changed by sending them");
    });
    mc::state(mc::hash_bytes(v.data(), v.size() * 8, had + 2));
    mc::outcome(mc::hash_bytes(v.data(), v.size() * 8));
}

// far longer vectors
void long_continuous()
{
    static const int lengths[] = { 4, 9, 33, 129, 1024, 5001 };
    int size = lengths[mc::choose(6, "values")], had = lengths[mc::choose(6, "values the receiver had")];
    Point v(size);
    for (int i = 0; i < size; ++i) v[i] = 1.0 / (i + 3) - (i % 7) * 1e5;
    fmpi::Options o;
    o.synchronous = mc::choose(2, "synchronous sends");
    fmpi::run(o, [=](int rank) {
        boost::mpi::environment e;
        boost::mpi::communicator c;
        ContinuousParametersArray p(rank == 0 ? v : Point(had, 4.5));
        if (rank == 1)
        {
            p.Receive(&c, 0);
            FMPI_CHECK(p.GetValues().size() == v.size(), "received " << p.GetValues().size() << " values, sent " << v.size());
            FMPI_CHECK(same_bits(p.GetValues(), v), "other values were received than sent");
            fmpi::step();
            return;
        }
        p.Send(&c, 1);
        FMPI_CHECK(same_bits(p.GetValues(), v), "parameters were changed by sending them");
    });
    mc::outcome(mc::mix(size, had));
}

IDiscreteParameters::shared_ptr discrete(int kind)
{
    typedef IDiscreteParameters::shared_ptr P;
    switch (kind)
    {
        case 0: return P(new IntParameter(0, 7));
        case 1: return P(new IntParameter(-3, 2)); // 3 genes, 6 values
        case 2: return P(new DoubleParameter(0.5, -1, 1, 0.25));
        case 3: return P(new DoubleParametersArray(0, 1, 0.3, 2));
        default:
        {
            CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
            std::vector<P> parts;
            parts.push_back(P(new IntParameter(0, 3)));
            parts.push_back(P(new DoubleParameter(0.5, 0, 1, 0.25)));
            c->Initialize(parts);
            return P(c);
        }
    }
}
std::string values(const IDiscreteParameters& p)
{
    std::ostringstream o;
    o.precision(17);
    if (const IntParameter* x = dynamic_cast<const IntParameter*>(&p)) o << x->get_value();
    else if (const DoubleParameter* x = dynamic_cast<const DoubleParameter*>(&p)) o << x->GetValue();
    else if (const DoubleParametersArray* x = dynamic_cast<const DoubleParametersArray*>(&p)) o << mc::show(x->get_values());
    else if (const CompositeDiscreteParameters* x = dynamic_cast<const CompositeDiscreteParameters*>(&p))
        for (size_t i = 0; i < x->GetNumberOfParameters(); ++i) o << values(*x->GetParameter(i)) << ";";
    o << (p.CheckConstraints() ? " ok" : " invalid");
    return o.str();
}

// parameters with far more parts and genes
IDiscreteParameters::shared_ptr large_discrete(int kind)
{
    typedef IDiscreteParameters::shared_ptr P;
    if (kind == 0) return P(new IntParameter(-(1 << 29), 1 << 29));
    if (kind == 1) return P(new DoubleParameter(0.5, -1000, 1000, 1e-4));
    if (kind == 2) return P(new DoubleParametersArray(-2, 3, 0.01, 40));
    CompositeDiscreteParameters* c = new CompositeDiscreteParameters();
    std::vector<P> parts;
    for (int i = 0; i < 25; ++i)
        parts.push_back(i % 3 ? i % 3 == 1 ? P(new DoubleParameter(0.5, 0, i, 0.01)) : P(new DoubleParametersArray(0, 1, 0.3, i)) : P(new IntParameter(-i, i)));
    c->Initialize(parts);
    return P(c);
}

std::vector<bool> pattern(size_t bits, int which)
{
    std::vector<bool> g(bits);
    for (size_t i = 0; i < bits; ++i)
        g[i] = which == 0 ? false : which == 1 ? i % 2 : which == 2 ? i % 3 == 0 : ((i * 2654435761u + which * 40503u) >> 13) & 1;
    return g;
}

void large_parameters(int kind)
{
    IDiscreteParameters::shared_ptr p = large_discrete(kind);
    size_t bits = p->GetChromosomeSize();
    std::vector<bool> code = pattern(bits, mc::choose(8, "sent")), had = pattern(bits, mc::choose(3, "the receiver had"));
    fmpi::Options o;
    o.synchronous = mc::choose(2, "synchronous sends");
    util::decode(*p, code);
    std::string expected = values(*p);
    std::string said = fmpi::run(o, [=](int rank) {
        boost::mpi::environment e;
        boost::mpi::communicator c;
        IDiscreteParameters::shared_ptr mine = large_discrete(kind);
        util::decode(*mine, rank == 0 ? code : had);
        if (rank == 1)
        {
            mine->Receive(&c, 0);
            FMPI_CHECK(values(*mine) == expected, "received " << values(*mine) << ", sent " << expected);
            FMPI_CHECK(util::encode(*mine) == code, "the chromosome received is another one");
            fmpi::step();
            return;
        }
        mine->Send(&c, 1);
        FMPI_CHECK(values(*mine) == expected, "parameters were changed by sending them");
        fmpi::say("sent");
    });
    mc::state(mc::hash_string(expected, kind));
    mc::outcome(mc::hash_string(expected, kind + 1));
}

void discrete_parameters(int kind)
{
    IDiscreteParameters::shared_ptr p = discrete(kind);
    size_t bits = p->GetChromosomeSize();
    unsigned code = mc::choose(1 << bits, "sent"), had = mc::choose(4, "the receiver had");
    if (had == 1) had = (1u << bits) - 1;
    if (had == 2) had = ~code & ((1u << bits) - 1);
    fmpi::Options o;
    o.synchronous = mc::choose(2, "synchronous sends");
    bool interface_only = mc::choose(2, "through IParameters");
    util::decode(*p, util::code(code, bits));
    std::string expected = values(*p);
    std::string said = fmpi::run(o, [=](int rank) {
        boost::mpi::environment e;
        boost::mpi::communicator c;
        IDiscreteParameters::shared_ptr mine = discrete(kind);
        util::decode(*mine, util::code(rank == 0 ? code : had, bits));
        IParameters* general = mine.get();
        if (rank == 1)
        {
            if (interface_only) general->Receive(&c, 0); else mine->Receive(&c, 0);
            FMPI_CHECK(values(*mine) == expected, "received " << values(*mine) << ", sent " << expected);
            FMPI_CHECK(util::encode(*mine) == util::code(code, bits), "the chromosome received is another one");
            fmpi::step();
            return;
        }
        if (interface_only) general->Send(&c, 1); else mine->Send(&c, 1);
        FMPI_CHECK(values(*mine) == expected, "parameters were changed by sending them");
        fmpi::say(expected);
    });
    mc::state(mc::mix(mc::mix(kind, code), had));
    mc::outcome(mc::hash_string(said, kind + 1));
}

// --- a whole search, each optimizer on workers ---
Point whole(int method, int variant, bool maximize)
{
    env::reset(2);
    env::reset_random();
    boost::shared_ptr<ContinuousOptimizer> inner(make(method, variant));
    boost::shared_ptr<ContinuousOptimizer> registered(make(method, 0));
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    m.RegisterObject(ContinuousParametersArray(Point()));
    m.RegisterObject(Continuous());
    m.RegisterObject(*registered);
    RandomSearch a(2, 0, 1, inner.get());
    ContinuousParametersArray p(Point(2, 0.5));
    Continuous f;
    a.Optimize(static_cast<const ContinuousObjectiveFunction&>(f), static_cast<IContinuousParameters*>(&p), maximize);
    return p.GetValues();
}

void searches()
{
    int method = mc::choose(kMethods, "method");
    int variant = mc::choose(variants(method), "settings");
    bool maximize = mc::choose(2, "maximize") && method == kNelder; // the others need not come to an end
    mkdir("polygon.plot", 0700);
    fmpi::Options one, three;
    one.size = 1;
    three.size = 3;
    three.synchronous = mc::choose(2, "synchronous sends");
    auto body = [=](int rank) {
        Point p = whole(method, variant, maximize);
        FMPI_CHECK(rank == 0, "a worker goes on as if it were the server");
        fmpi::step();
        fmpi::say(mc::show(p));
    };
    std::string expected = fmpi::run(one, body), said = fmpi::run(three, body);
    mc::state(mc::hash_string(said, method * 10 + variant));
    MC_CHECK(said == expected, "a search with " << kNames[method] << " on workers found " << said << ", without " << expected);
    mc::outcome(mc::hash_string(said, method + 1));
}
}

int main(int argc, char** argv)
{
    mc::describe("all pairs of settings of the object sent and the one that receives it (each setting varied alone), all chromosomes of small "
                 "parameters, all vectors of special values, all histories of the registry; on a simulated MPI with one process per rank");
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    auto add = [&](const std::string& name, const std::string& bound, const std::function<void()>& body) {
        mc::Options o;
        o.hang_seconds = 120;
        mc::add(name, bound, body, o);
    };
    int n = t ? 5 : 4;
    add("registry", "all histories of " + std::to_string(n) + " operations", [=] { registry(n); });
    for (int m = 0; m < kMethods; ++m) add(std::string("optimizer: ") + kNames[m], "all pairs of settings", [=] { optimizers(m); });
    for (int s = 0; s <= (t ? 3 : 2); ++s) add("continuous parameters, " + std::to_string(s) + " values", "all vectors of special values", [=] { continuous(s); });
    static const char* kinds[] = { "integer", "integer that does not fill its genes", "real", "array of reals", "composite" };
    for (int k = 0; k < 5; ++k) add(std::string("discrete parameters: ") + kinds[k], "all chromosomes", [=] { discrete_parameters(k); });
    add("long vectors of continuous parameters", "up to 5001 values", long_continuous);
    for (int k = 0; k < 4; ++k) add(std::string("large ") + (k == 0 ? "integer" : kinds[k + 1]), "8 x 3 chromosomes", [=] { large_parameters(k); });
    add("random search with each optimizer", "all optimizers and settings, 2 workers", searches);
    return mc::run(argc, argv);
}
