// Continuous optimizers under observation: an objective function whose values
// are chosen by the explorer for the first points it is asked about, and a
// record of everything that was evaluated.
#pragma once
#include "mc.h"
#include "env.h"
#include <k52/optimization/continuous_objective_function.h>
#include <k52/optimization/continuous_optimizer.h>
#include <k52/optimization/params/continuous_parameters_array.h>
#include <k52/optimization/bounded_nelder_mead.h>
#include <k52/optimization/conjugate_gradient_method.h>
#include <k52/optimization/hleborodov_rosenbrock_method.h>
#include <k52/optimization/hooke_jeeves_method.h>
#include <k52/optimization/random_search.h>
#include <k52/optimization/simulated_annealing.h>
#include <k52/optimization/steepest_descent_method.h>
#include <algorithm>
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <stdexcept>
#include <sys/stat.h>

namespace opt
{
using namespace k52::optimization;
typedef std::vector<double> Point;

// thrown by the function to end a run: too many evaluations, or a point that is not a number
struct Stop {};

// What happened, shared by all clones of the function.
struct Record
{
    std::vector<Point> points;                 // in the order of evaluation
    std::vector<double> values;
    std::function<double(const Point&)> f;     // memoised
    std::map<Point, double> known;
    size_t limit = 200000;
    size_t stop = 0;                           // throw Stop at this evaluation

    double value(const Point& p)
    {
        if (stop && points.size() + 1 >= stop) throw Stop();
        for (double x : p) if (std::isnan(x)) throw Stop();
        std::map<Point, double>::iterator it = known.find(p);
        double v = it != known.end() ? it->second : (known[p] = f(p));
        points.push_back(p);
        values.push_back(v);
        mc::step();
        if (points.size() == limit) MC_FAIL("the function was evaluated " << limit << " times");
        MC_TRACE("f(" << mc::show(p) << ") = " << v);
        return v;
    }
    void clear() { points.clear(); values.clear(); }
    bool has(const Point& p) const { return known.count(p) > 0; }
    double best(bool maximize) const
    {
        return maximize ? *std::max_element(values.begin(), values.end()) : *std::min_element(values.begin(), values.end());
    }
};

class Function : public ContinuousObjectiveFunction
{
public:
    Function(Record* r, double sign = 1) : r_(r), sign_(sign) {}
    virtual double operator()(const std::vector<double>& p) const { return sign_ * r_->value(p); }
    using ContinuousObjectiveFunction::operator();
    virtual Function* Clone() const { return new Function(r_, sign_); }
private:
    Record* r_;
    double sign_;
};

// values from a menu, chosen for the first `budget` distinct points, then `rest`
inline std::function<double(const Point&)> chosen(const std::vector<double>& menu, int budget, double rest)
{
    return [=](const Point&) mutable { return budget-- > 0 ? menu[mc::choose(menu.size(), "value")] : rest; };
}

// a bowl around a point, with a ruggedness that depends on the cell of a grid the point is in
inline std::function<double(const Point&)> rugged(int k, double roughness, double low = -4, double high = 4)
{
    return [=](const Point& p) {
        double v = 0;
        uint64_t h = mc::mix(17, k);
        for (size_t i = 0; i < p.size(); ++i)
        {
            double c = low + (high - low) * (mc::mix(mc::mix(5, k), i) % 1000) / 1000.;
            v += (i % 3 + 1) * (p[i] - c) * (p[i] - c) / ((high - low) * (high - low));
            h = mc::mix(h, (uint64_t) (int64_t) std::floor(std::max(-1e15, std::min(1e15, p[i] * 8))));
        }
        return v + roughness * (h % 256) / 256.;
    };
}

inline Point optimize(ContinuousOptimizer& o, Record& r, const Point& start, bool maximize, double sign = 1)
{
    Function f(&r, sign);
    ContinuousParametersArray p(start);
    MC_TRACE(o.get_name() << (maximize ? " maximizes" : " minimizes") << " from " << mc::show(start));
    o.Optimize(static_cast<const ContinuousObjectiveFunction&>(f), static_cast<IContinuousParameters*>(&p), maximize);
    MC_TRACE("result " << mc::show(p.GetValues()));
    return p.GetValues();
}

inline uint64_t hash(const Point& p, uint64_t h = 3) { return mc::hash_doubles(p, h); }

// The bounded Nelder-Mead method appends to a file in the working directory (a
// scratch directory of the check); a directory of that name makes this cheap.
inline void no_plot() { mkdir("polygon.plot", 0700); }

// All continuous optimizers; the inner optimizer of a random search must outlive it.
enum Method { kSteepestDescent, kConjugateGradient, kHookeJeeves, kHleborodovRosenbrock, kNelderMead, kDeterministic,
              kAnnealing = kDeterministic, kRandom, kRandomWithOptimizer, kMethods };

inline ContinuousOptimizer* make(int method, int variant = 0)
{
    static HookeJeevesMethod inner(2, 1, 1000, 0.5, 2);
    switch (method)
    {
        case kSteepestDescent: return variant ? new SteepestDescentMethod(1e-3, 20, 1e-2) : new SteepestDescentMethod(1e-4, 1000, 1e-4);
        case kConjugateGradient: return variant ? new ConjugateGradientMethod(1e-2, 1e-2, 20) : new ConjugateGradientMethod(1e-4, 1e-3, 1000);
        case kHookeJeeves: return variant ? new HookeJeevesMethod(3, 2, 5, 0.1, 3) : new HookeJeevesMethod(2, 0.5, 1000, 1e-3, 2);
        case kHleborodovRosenbrock: return variant ? new HleborodovRosenbrockMethod(1e-3, 20, 1, 4) : new HleborodovRosenbrockMethod();
        case kNelderMead: return variant ? new BoundedNelderMead(0.5, 1e-3, -1, 2) : new BoundedNelderMead(1, 1e-8, -10, 10);
        case kAnnealing: return variant ? new SimulatedAnnealing(3, 0, 1) : new SimulatedAnnealing(8, -4, 4);
        case kRandom: return variant ? new RandomSearch(2, 0, 1) : new RandomSearch(5, -4, 4);
        default: return variant ? new RandomSearch(2, 0, 1, &inner) : new RandomSearch(3, -4, 4, &inner);
    }
}

// what a run did, for comparisons
struct Trace
{
    std::vector<Point> points;
    Point result;
    int end = 0; // 0 returned, 1 stopped, 2 an exception of the library
    uint64_t hash() const
    {
        uint64_t h = opt::hash(result, end);
        for (const Point& p : points) h = opt::hash(p, h);
        return h;
    }
    bool same(const Trace& t) const { return points == t.points && result == t.result && end == t.end; }
    std::string show() const
    {
        std::ostringstream o;
        o << points.size() << " evaluations, " << (end == 1 ? "stopped" : end == 2 ? "an exception" : "result " + mc::show(result));
        return o.str();
    }
};

inline Trace run(ContinuousOptimizer& o, Record& r, const Point& start, bool maximize, double sign = 1)
{
    Trace t;
    r.clear();
    try { t.result = optimize(o, r, start, maximize, sign); }
    catch (Stop&) { t.end = 1; }
    catch (std::exception&) { t.end = 2; }
    t.points = r.points;
    MC_TRACE(t.show());
    return t;
}

// a shared table of functions without any randomness
inline std::function<double(const Point&)> function(int k)
{
    return [=](const Point& p) {
        double v = 0;
        for (size_t i = 0; i < p.size(); ++i)
        {
            double x = p[i];
            switch (k)
            {
                case 0: v += (x - 1.5) * (x - 1.5) * (i + 1); break;
                case 1: v += std::fabs(x + 2) * (i + 0.5); break;
                case 2: v += std::cos(2 * x) + 0.1 * x * x; break;
                case 3: v = 4; break;
                case 4: v += -(x - 0.25) * (x - 0.25) - 0.3 * x * (i ? p[i - 1] : 0); break;
                default: v += std::floor(x * 2) - std::floor(x * 3 + i); break;
            }
        }
        return v;
    };
}
const int kFunctions = 6;

inline bool thorough(int argc, char** argv)
{
    bool t = false;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") t = true;
    return t;
}
}
