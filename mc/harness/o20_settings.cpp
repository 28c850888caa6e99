// O20: what the settings of the continuous optimizers mean: limits of iterations, precisions, steps and sizes.
#include "opt_util.h"

using namespace opt;

namespace
{
typedef ContinuousOptimizer::shared_ptr O;

struct Ended
{
    std::vector<Point> points;
    Point result;
    bool stopped = false;
};

Ended perform(const O& o, Record& r, const Point& start, bool maximize, size_t stop)
{
    Ended e;
    r.clear();
    r.stop = stop;
    env::reset(5);
    env::reset_random();
    try { e.result = optimize(*o, r, start, maximize); }
    catch (const Stop&) { e.stopped = true; }
    e.points = r.points;
    return e;
}

bool prefix(const Ended& a, const Ended& b)
{
    return a.points.size() <= b.points.size() && std::equal(a.points.begin(), a.points.end(), b.points.begin());
}

// functions of any number of variables
double value(int kind, const Point& p)
{
    double v = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
        double x = p[i] - 0.3 * (i + 1);
        switch (kind)
        {
            case 0: v += (i + 1) * x * x; break;                                        // bowl
            case 1: v += (i ? 40 : 1) * x * x + (i ? 3 * x * (p[i - 1] - 0.3 * i) : 0); break; // narrow
            case 2: v += x * x * x * x + x * x + (i ? 0.5 * std::sin(3 * x) * std::sin(2 * p[i - 1]) : 0); break;
            default: v += i + 1 < p.size() ? 5 * std::pow(p[i + 1] - p[i] * p[i], 2) + std::pow(1 - p[i], 2) : 0.1 * x * x; // valley
        }
    }
    return v;
}
const int kKinds = 4;

enum { kNelder = kNelderMead };

// setting: the limit of iterations (0: precision), level: how much the run may do
O with(int method, bool limit, int level, int variant)
{
    static const double precisions[] = { 1, 0.3, 0.1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8 };
    double precision = limit ? 1e-9 : precisions[level];
    size_t most = limit ? level + 1 : 1000;
    switch (method)
    {
        case kSteepestDescent: return O(new SteepestDescentMethod(variant ? 1e-3 : 1e-5, most, 1e-9));
        case kConjugateGradient: return O(new ConjugateGradientMethod(1e-6, variant ? 1e-2 : 1e-4, most));
        case kHookeJeeves: return O(new HookeJeevesMethod(variant ? 3 : 1.5, variant ? 0.7 : 0.25, most, precision, variant ? 2 : 10));
        case kHleborodovRosenbrock: return O(new HleborodovRosenbrockMethod(precision, most, variant ? 0.1 : 1, 3));
        default: return O(new BoundedNelderMead(variant ? 0.2 : 1, precision, -5, 6));
    }
}

Point start_of(int n)
{
    static const double at[] = { 1.25, -0.5, 0.8, 2 };
    int s = mc::choose(2, "start");
    Point p(n);
    for (int i = 0; i < n; ++i) p[i] = at[(i + s) % 4];
    return p;
}

void levels(bool limit, bool adversarial)
{
    no_plot();
    static const int limited[] = { kSteepestDescent, kConjugateGradient, kHookeJeeves, kHleborodovRosenbrock };
    static const int precise[] = { kHookeJeeves, kHleborodovRosenbrock, kNelder };
    int method = limit ? limited[mc::choose(4, "method")] : precise[mc::choose(3, "method")];
    int variant = mc::choose(2, "settings"), n = 1 + mc::choose(adversarial ? 2 : 4, "dimension");
    int level = mc::choose(7, "level");
    bool maximize = mc::choose(2, "maximize");
    int kind = adversarial ? -1 : mc::choose(kKinds, "function");
    Record r;
    if (adversarial) r.f = chosen({ 0, 1, -2 }, mc::thorough() ? 7 : 5, 0.5);
    else r.f = [=](const Point& p) { double v = value(kind, p); return maximize ? -v : v; };
    Point start = start_of(n);
    const size_t stop = adversarial ? 300 : 3000;
    O more = with(method, limit, level + 1, variant), less = with(method, limit, level, variant);
    Ended b = perform(more, r, start, maximize, stop), a = perform(less, r, start, maximize, stop);
    MC_CHECK(a.stopped || prefix(a, b), more->get_name() << " with a " << (limit ? "smaller limit of iterations" : "larger precision") << " evaluated "
             << a.points.size() << " points which are not the first of the " << b.points.size() << " of a run that may do more");
    MC_CHECK(!a.stopped || b.stopped, "the run that may do more ended earlier");
    // a run that came to its end before the limit is the same with any larger one
    if (limit && !a.stopped && a.points.size() == b.points.size())
    {
        MC_CHECK(a.result == b.result, "with one more iteration the same points gave another result");
        Ended c = perform(with(method, true, 499, variant), r, start, maximize, stop);
        MC_CHECK(!c.stopped && c.points.size() == a.points.size() && c.result == a.result, more->get_name() << " made as much with a limit of " << level + 1 << " as of "
                 << level + 2 << " iterations (" << a.points.size() << " evaluations), but not as with 500");
    }
    uint64_t h = mc::mix(mc::mix(method * 2 + limit, a.points.size()), b.points.size());
    mc::state(hash(a.result, h));
    mc::outcome(hash(b.result, h));
}

// a limit of iterations is reached where there is no end otherwise
void no_end()
{
    no_plot();
    static const int limited[] = { kSteepestDescent, kConjugateGradient, kHookeJeeves, kHleborodovRosenbrock };
    int method = limited[mc::choose(4, "method")], variant = mc::choose(2, "settings"), n = 2 + mc::choose(2, "dimension");
    bool maximize = mc::choose(2, "maximize");
    bool slope = method >= kHookeJeeves;
    Record r;
    int signs = mc::choose(1 << n, "signs");
    r.f = [=](const Point& p) {
        double v = 0;
        if (slope) for (int i = 0; i < n; ++i) v += (signs >> i & 1 ? -1 : 1) * (i + 1) * p[i];
        else
        {
            // a valley along which both methods need many iterations
            Point q(p);
            for (int i = 0; i < n; ++i) if (signs >> i & 1) q[i] = -q[i];
            v = value(3, q);
        }
        return maximize ? -v : v;
    };
    Point start(n, 0.0);
    for (int i = 0; i < n; ++i) start[i] = (signs >> i & 1 ? 1 : -1) * (slope ? 1 : 1.5 - i * 0.25);
    size_t before = 0;
    for (int level = 0; level < 6; ++level)
    {
        Ended e = perform(with(method, true, level, variant), r, start, maximize, 20000);
        MC_CHECK(!e.stopped, "with a limit of " << level + 1 << " iterations a run of method " << method << " has no end");
        MC_CHECK(e.points.size() > before, "a limit of " << level + 1 << " iterations instead of " << level << " gave " << e.points.size() << " instead of " << before << " evaluations");
        if (method == kHleborodovRosenbrock)
        {
            MC_CHECK(e.points.size() <= (size_t) (level + 1) * (n + 1), level + 1 << " iterations in " << n << " dimensions took " << e.points.size() << " evaluations");
            e.points.push_back(e.result);
            for (const Point& p : e.points)
                for (int i = 0; i < n; ++i)
                    MC_CHECK(std::fabs(p[i] - start[i]) <= (level + 1) * 3 * std::sqrt(n) + 1e-9, "after " << level + 1 << " iterations with steps of up to 3, " << mc::show(p) << " is evaluated");
        }
        if (method == kHookeJeeves)
            MC_CHECK(e.points.size() <= (size_t) (level + 3) * (3 * n + 2), level + 1 << " iterations in " << n << " dimensions took " << e.points.size() << " evaluations");
        before = e.points.size();
        mc::state(mc::mix(before, mc::mix(method, level)));
    }
    mc::outcome(mc::mix(before, method * 2 + variant));
}

// gradient methods end where the gradient is small, unless the limit ended them
void gradient()
{
    no_plot();
    int method = mc::choose(2, "method"), kind = mc::choose(kKinds, "function"), n = 1 + mc::choose(3, "dimension");
    static const double precisions[] = { 3, 0.5, 0.1, 1e-2, 1e-3 }, increments[] = { 1e-2, 1e-3, 1e-4 };
    double precision = precisions[mc::choose(5, "precision")], increment = increments[mc::choose(3, "increment")];
    bool maximize = mc::choose(2, "maximize");
    Record r;
    r.f = [=](const Point& p) { double v = value(kind, p); return maximize ? -v : v; };
    Point start = start_of(n);
    auto make = [&](size_t limit) {
        return method ? O(new ConjugateGradientMethod(precision, increment, limit)) : O(new SteepestDescentMethod(increment, limit, precision));
    };
    Ended e = perform(make(60), r, start, maximize, 6000);
    if (e.stopped) return;
    // the gradient at the start is taken with this increment
    for (int i = 0; i < n; ++i)
        for (int side = -1; side <= 1; side += 2)
        {
            bool found = false;
            for (const Point& p : e.points)
            {
                bool here = true;
                for (int j = 0; j < n; ++j) here = here && std::fabs(p[j] - start[j] - (i == j ? side * increment / 2 : 0)) < increment * 1e-6;
                found = found || here;
            }
            MC_CHECK(found, "the function was not evaluated half an increment of " << increment << (side < 0 ? " below" : " above") << " the start in coordinate " << i);
        }
    Ended f = perform(make(61), r, start, maximize, 6000);
    bool by_limit = f.stopped || f.points.size() != e.points.size();
    if (!by_limit)
    {
        double square = 0;
        for (int i = 0; i < n; ++i)
        {
            Point low(e.result), high(e.result);
            low[i] -= increment / 2;
            high[i] += increment / 2;
            double d = (value(kind, high) - value(kind, low)) / increment;
            square += d * d;
        }
        MC_CHECK(std::sqrt(square) <= precision * (1 + 1e-6) + 1e-9, (method ? "conjugate gradients" : "steepest descent") << " ended before their limit at " << mc::show(e.result)
                 << " where the gradient has the length " << std::sqrt(square) << ", the precision is " << precision);
    }
    mc::state(mc::mix(by_limit, hash(e.result)));
    mc::outcome(mc::mix(e.points.size(), by_limit));
}

bool near(const Point& a, const Point& b)
{
    for (size_t i = 0; i < a.size(); ++i) if (std::fabs(a[i] - b[i]) > 1e-9) return false;
    return true;
}

// steps and sizes
void steps()
{
    no_plot();
    int method = mc::choose(3, "method"), n = 1 + mc::choose(3, "dimension");
    static const double sizes[] = { 1, 0.1, 2.5, 7, 100 };
    double size = sizes[mc::choose(5, "size")];
    int signs = mc::choose(1 << n, "signs");
    bool maximize = mc::choose(2, "maximize");
    Record r;
    r.f = [=](const Point& p) {
        double v = 0;
        for (int i = 0; i < n; ++i) v += (signs >> i & 1 ? -1 : 1) * (i + 1) * p[i];
        return maximize ? -v : v;
    };
    Point start = start_of(n);
    auto has = [&](const Point& p) { for (const Point& q : r.points) if (near(p, q)) return true; return false; };
    if (method == 0)
    {
        double acceleration = mc::choose(2, "acceleration") ? 3 : 1.5;
        perform(O(new HookeJeevesMethod(acceleration, size, 3, 1e-3, 2)), r, start, maximize, 0);
        Point one(start), all(start), far(start);
        for (int i = 0; i < n; ++i)
        {
            double d = (signs >> i & 1 ? 1 : -1) * size;
            one = all;
            one[i] += size; // the direction that is tried first
            MC_CHECK(has(one), "the first step in coordinate " << i << " to " << mc::show(one) << " was not tried");
            all[i] += d;
            far[i] += d * acceleration;
            MC_CHECK(has(all), "the first step in coordinate " << i << " to " << mc::show(all) << " was not tried");
        }
        MC_CHECK(has(far), "the accelerated step to " << mc::show(far) << " was not tried");
    }
    else if (method == 1)
    {
        perform(O(new HleborodovRosenbrockMethod(1e-6, 3, size, 2)), r, start, maximize, 0);
        for (int i = 0; i < n; ++i)
        {
            Point one(start);
            one[i] += size;
            MC_CHECK(has(one), "the first step in coordinate " << i << " to " << mc::show(one) << " was not tried");
        }
        // no iteration goes further than the greatest step along each of its directions
        Point before(start);
        for (int limit = 1; limit <= 5; ++limit)
        {
            r.points.clear();
            r.values.clear();
            Ended e = perform(O(new HleborodovRosenbrockMethod(1e-6, limit, size, 2)), r, start, maximize, 0);
            double square = 0, greatest = 0;
            for (int i = 0; i < n; ++i) square += std::pow(e.result[i] - before[i], 2), greatest = std::max(greatest, std::fabs(e.result[i] - before[i]));
            MC_CHECK(std::sqrt(square) <= 2 * std::sqrt(n) * (1 + 1e-9) && (limit > 1 || greatest <= 2 * (1 + 1e-9)),
                     "iteration " << limit << " went from " << mc::show(before) << " to " << mc::show(e.result) << ", the greatest step is 2");
            before = e.result;
        }
    }
    else
    {
        perform(O(new BoundedNelderMead(size, 1e-3, -1000, 1000)), r, start, maximize, 0);
        MC_CHECK(r.points.size() > (size_t) n, "only " << r.points.size() << " points were evaluated");
        bool contains = false;
        for (int i = 0; i <= n; ++i)
        {
            contains = contains || near(r.points[i], start);
            for (int j = 0; j < i; ++j)
            {
                double square = 0;
                for (int k = 0; k < n; ++k) square += std::pow(r.points[i][k] - r.points[j][k], 2);
                MC_CHECK(std::fabs(std::sqrt(square) - size) < 1e-9, "two points of the first simplex are " << std::sqrt(square) << " apart instead of " << size);
            }
        }
        MC_CHECK(contains, "the start is no point of the first simplex");
    }
    mc::outcome(mc::mix(mc::mix(method, n), mc::hash_double(size, signs)));
}
}

int main(int argc, char** argv)
{
    opt::thorough(argc, argv);
    mc::describe("runs that differ in one setting are compared point by point, for functions whose values at the first points are chosen in all possible ways and for "
                 "four kinds of functions; runs with each small limit of iterations where there is no other end; gradients where gradient methods end; first steps and simplexes");
    std::cout.setstate(std::ios::badbit);
    bool t = mc::thorough();
    (void) t;
    mc::add("limits of iterations", "4 methods, 2 settings, limits 1-8, 4 functions, 1-4 dimensions, 2 starts, both directions", [] { levels(true, false); });
    mc::add("limits of iterations, any values", "3 values at the first 5 (thorough: 7) points, limits 1-8, 1-2 dimensions, 2 starts, both directions", [] { levels(true, true); });
    mc::add("precisions", "3 methods, 2 settings, 8 precisions, 4 functions, 1-4 dimensions, 2 starts, both directions", [] { levels(false, false); });
    mc::add("precisions, any values", "3 values at the first 5 (thorough: 7) points, 8 precisions, 1-2 dimensions, 2 starts, both directions", [] { levels(false, true); });
    mc::add("no other end", "4 methods, 2 settings, limits 1-6, 2-3 dimensions, all signs, both directions", no_end);
    mc::add("gradients", "2 methods, 4 functions, 1-3 dimensions, 5 precisions, 3 increments, 2 starts, both directions", gradient);
    mc::add("steps", "3 methods, 1-3 dimensions, 3 sizes, all signs, 2 starts, both directions", steps);
    return mc::run(argc, argv);
}
