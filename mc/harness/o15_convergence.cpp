// O15: the continuous optimizers find the optimum of quadratic functions.
#include "opt_util.h"

using namespace opt;

namespace
{
const double kTolerance = 5e-3;

void check(int method, const std::function<double(const Point&)>& f, const Point& optimum, const Point& start, bool maximize)
{
    Record r;
    double sign = maximize ? -1 : 1;
    r.f = [=](const Point& p) { return sign * f(p); };
    r.limit = 400000;
    ContinuousOptimizer::shared_ptr o(make(method));
    Point result = optimize(*o, r, start, maximize);
    for (size_t i = 0; i < optimum.size(); ++i)
        MC_CHECK(std::fabs(result[i] - optimum[i]) <= kTolerance, o->get_name() << " found " << mc::show(result) << " instead of the optimum " << mc::show(optimum)
                 << " after " << r.points.size() << " evaluations");
    mc::state(hash(result));
    mc::outcome(hash(result, method));
}

void quadratic(bool t)
{
    no_plot();
    int method = mc::choose(kDeterministic, "method");
    static const double as[] = { 0.25, 1, 4, 0.5, 2 }, bs[] = { 0, 0.2, -0.4 }, xs[] = { -3, 0, 1.5, 0.3 }, ys[] = { 0, 2, -0.7 };
    int na = t ? 5 : 3, nb = t ? 3 : 2;
    double a = as[mc::choose(na, "a")], c = as[mc::choose(na, "c")], b = bs[mc::choose(nb, "b")];
    Point optimum(2), start(2);
    optimum[0] = xs[mc::choose(4, "x")];
    optimum[1] = ys[mc::choose(3, "y")];
    int s = mc::choose(3, "start");
    start = s == 0 ? Point{ 0.3, -0.7 } : s == 1 ? optimum : Point{ 2, 1 };
    bool maximize = mc::choose(2, "maximize");
    double shift = mc::choose(2, "value") * -3.0;
    check(method, [=](const Point& p) { double x = p[0] - optimum[0], y = p[1] - optimum[1]; return a * x * x + b * x * y + c * y * y + shift; }, optimum, start, maximize);
}

void one_dimension()
{
    no_plot();
    int method = mc::choose(kDeterministic, "method");
    static const double as[] = { 0.25, 0.5, 1, 2, 4 }, at[] = { -3, -0.5, 0, 0.3, 1.5, 4 };
    double a = as[mc::choose(5, "a")];
    Point optimum(1, at[mc::choose(6, "optimum")]), start(1, at[mc::choose(6, "start")]);
    // Nelder-Mead ends as soon as its vertices have equal values: keep the simplex from being symmetric to the optimum
    if (method == kNelderMead) start[0] += 0.0371;
    static const double shifts[] = { 0, 7, -7 };
    double shift = shifts[mc::choose(3, "value")];
    bool maximize = mc::choose(2, "maximize");
    check(method, [=](const Point& p) { return a * (p[0] - optimum[0]) * (p[0] - optimum[0]) + shift; }, optimum, start, maximize);
}

void more_dimensions(bool t)
{
    no_plot();
    int method = mc::choose(kDeterministic, "method");
    size_t n = 3 + (t ? mc::choose(2, "dimension") : 0);
    static const double at[] = { -1, 0, 2 };
    Point optimum(n), start(n);
    double weights[] = { 1, 2, 0.5, 1.5 };
    int w = mc::choose(3, "weights"), s = mc::choose(2, "start");
    for (size_t i = 0; i < n; ++i)
    {
        optimum[i] = at[mc::choose(3, "optimum")];
        start[i] = s ? 0.25 * i : 1;
    }
    check(method, [=](const Point& p) {
        double v = 0;
        for (size_t i = 0; i < n; ++i) { double d = p[i] - optimum[i]; v += (w == 0 ? 1 : weights[(i + w) % 4]) * d * d; }
        return v;
    }, optimum, start, mc::choose(2, "maximize"));
}

// weights, optima and starts that are no round numbers
void larger()
{
    no_plot();
    int method = mc::choose(kDeterministic, "method");
    size_t n = method == kNelderMead ? 2 + mc::choose(3, "dimension") : 1 + mc::choose(4, "dimension");
    int seed = mc::choose(mc::thorough() ? 300 : 30, "function");
    Point optimum(n), start(n), weights(n);
    double extent = 3;
    for (size_t i = 0; i < n; ++i)
    {
        optimum[i] = ((double) (mc::mix(mc::mix(seed, 1), i) % 2001) / 1000 - 1) * extent;
        start[i] = ((double) (mc::mix(mc::mix(seed, 2), i) % 2001) / 1000 - 1) * extent;
        weights[i] = 0.5 + (mc::mix(mc::mix(seed, 3), i) % 1000) / 1000.;
    }
    check(method, [=](const Point& p) {
        double v = 0;
        for (size_t i = 0; i < n; ++i) { double d = p[i] - optimum[i]; v += weights[i] * d * d; }
        return v;
    }, optimum, start, mc::choose(2, "maximize"));
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("5 methods with the settings of the examples on a grid of quadratic functions, optima and starting points, including starts at the optimum; "
                 "the result has to be within 0.005 of the optimum in every coordinate");
    std::cout.setstate(std::ios::badbit);
    mc::add("1 dimension", "5 curvatures, 6 optima, 6 starts, 3 values at the optimum, both directions", one_dimension);
    mc::add("2 dimensions", "3 x 3 x 2 (thorough: 5 x 5 x 3) coefficients, 12 optima, 3 starts, 2 values at the optimum, both directions", [=] { quadratic(t); });
    mc::add("3 dimensions", "3 (thorough: also 4) dimensions, 3 weights, 27 (81) optima, 2 starts, both directions", [=] { more_dimensions(t); });
    mc::add("other numbers", "1-4 dimensions (Nelder-Mead: 2-4), 30 (thorough: 300) weights, optima and starts of many digits, both directions", larger);
    return mc::run(argc, argv);
}
