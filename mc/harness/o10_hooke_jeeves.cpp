// O10: the Hooke-Jeeves method returns the best point it has seen, which is a minimum of its last grid.
#include "opt_util.h"
#include <k52/optimization/hooke_jeeves_method.h>

using namespace opt;

namespace
{
void verify(Record& r, const Point& start, const Point& result, bool maximize, double step, double divider, double precision, bool by_iterations)
{
    size_t n = start.size();
    double sign = maximize ? -1 : 1;
    MC_CHECK(r.has(result), "the result " << mc::show(result) << " was never evaluated");
    double got = sign * r.known[result];
    MC_CHECK(r.has(start), "the start was never evaluated");
    MC_CHECK(got <= sign * r.known[start], "the result has the value " << got << ", the start " << sign * r.known[start] << (maximize ? " (maximizing)" : ""));
    MC_CHECK(got == sign * r.best(maximize), "the result " << mc::show(result) << " has the value " << sign * got << ", the best value seen is " << r.best(maximize));
    if (!by_iterations)
    {
        bool minimal = false;
        for (double h = step; h > precision * 1e-3 && !minimal; h /= divider)
        {
            if (h * std::sqrt((double) n) / divider > precision * (1 + 1e-9)) continue;
            bool here = true;
            for (size_t i = 0; i < n && here; ++i)
                for (int d = -1; d <= 1; d += 2)
                {
                    Point p(result);
                    p[i] += d * h;
                    if (!r.has(p) || sign * r.known[p] < got) here = false;
                }
            minimal = here;
        }
        MC_CHECK(minimal, "the result " << mc::show(result) << " is not a minimum of a grid whose next step is within the precision " << precision);
    }
}

void adversarial(int dimensions, const std::vector<double>& menu, int budget, bool other_settings)
{
    size_t n = dimensions;
    Point start(n);
    int s = mc::choose(2, "start");
    for (size_t i = 0; i < n; ++i) start[i] = s ? 3.5 - 2 * i : 0;
    bool maximize = mc::choose(2, "maximize");
    double sign = maximize ? -1 : 1;                 // in terms of minimization
    double step = 1, divider = 2, acceleration = 2, precision = 0.25;
    size_t iterations = 1000;
    if (other_settings)
        switch (mc::choose(6, "settings"))
        {
            case 1: step = 0.5; precision = n == 1 ? 0.375 : 0.625; break;
            case 2: divider = 4; break;
            case 3: acceleration = 1; break;
            case 4: acceleration = 3; precision = 0.125; break;
            case 5: iterations = 2; break;
        }
    double rest = sign * 9;                          // afterwards nothing is better
    if (mc::choose(2, "then")) rest = sign * menu[0];
    std::vector<double> m(menu);
    for (double& v : m) v *= sign;
    Record r;
    r.f = chosen(m, budget, rest);
    HookeJeevesMethod o(acceleration, step, iterations, precision, divider);
    Point result = optimize(o, r, start, maximize);
    verify(r, start, result, maximize, step, divider, precision, iterations == 2);
    mc::state(hash(result));
    mc::outcome(hash(result, mc::hash_doubles(r.values)));
}

// more dimensions and longer runs
void larger(int functions)
{
    static const int dimensions[] = { 1, 2, 4, 7, 12 };
    size_t n = dimensions[mc::choose(5, "dimension")];
    int k = mc::choose(functions, "function");
    static const double roughness[] = { 0, 0.05, 1 };
    double rough = roughness[mc::choose(3, "roughness")];
    bool maximize = mc::choose(2, "maximize"), far = mc::choose(2, "start");
    Point start(n);
    for (size_t i = 0; i < n; ++i) start[i] = far ? 300 + i : (double) (i % 3);
    Record r;
    std::function<double(const Point&)> f = rugged(k, rough);
    r.f = [=](const Point& p) { return maximize ? -f(p) : f(p); };
    double precision = mc::choose(2, "precision") ? 0.25 : 1 / 64.;
    HookeJeevesMethod o(2, 1, 100000, precision, 2);
    Point result = optimize(o, r, start, maximize);
    verify(r, start, result, maximize, 1, 2, precision, false);
    mc::state(hash(result));
    mc::outcome(hash(result, r.points.size()));
}

// separable convex functions: the minimum on the final grid is within its step of the true minimum
void convex(int dimensions)
{
    size_t n = 1 + mc::choose(dimensions, "dimension");
    static const double at[] = { 0, 0.3, -2.75, 7 };
    Point optimum(n), start(n);
    int s = mc::choose(3, "start");
    for (size_t i = 0; i < n; ++i) { optimum[i] = at[mc::choose(4, "optimum")]; start[i] = s == 0 ? 0 : s == 1 ? optimum[i] : 1.1 * (i + 1); }
    int kind = mc::choose(3, "function");
    bool maximize = mc::choose(2, "maximize");
    static const double precisions[] = { 0.5, 1e-2, 1e-4 };
    double precision = precisions[mc::choose(3, "precision")], divider = mc::choose(2, "divider") ? 3 : 2;
    double sign = maximize ? -1 : 1;
    Record r;
    r.f = [=](const Point& p) {
        double v = 0;
        for (size_t i = 0; i < n; ++i) { double d = (p[i] - optimum[i]) * (i + 1); v += kind == 0 ? d * d : kind == 1 ? std::fabs(d) : std::exp(std::fabs(d) / 4); }
        return sign * v;
    };
    HookeJeevesMethod o(2, 0.5, 1000, precision, divider);
    Point result = optimize(o, r, start, maximize);
    double h = divider * precision / std::sqrt((double) n);
    for (size_t i = 0; i < n; ++i)
        MC_CHECK(std::fabs(result[i] - optimum[i]) <= h * (1 + 1e-6) + 1e-6, "the optimum is " << mc::show(optimum) << ", the result " << mc::show(result) << " for precision " << precision);
    mc::outcome(hash(result, kind));
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("the function's values at the first distinct points are chosen in all possible ways from a small set, later points have one value; "
                 "steps and accelerations are such that all points are exact");
    std::cout.setstate(std::ios::badbit);
    mc::add("1 dimension", "3 values at the first 8 (thorough: 10) points, 2 starts, both directions, 6 settings", [=] { adversarial(1, { 0, 1, -2 }, t ? 10 : 8, true); });
    mc::add("2 dimensions", "3 values at the first 8 (thorough: 10) points, 2 starts, both directions, 6 settings", [=] { adversarial(2, { 0, 1, -2 }, t ? 10 : 8, true); });
    mc::add("3 dimensions", "2 values at the first 12 (thorough: 15) points, 2 starts, both directions", [=] { adversarial(3, { 0, -1 }, t ? 15 : 12, false); });
    mc::add("descent", "2 dimensions, values that can fall 5 times at the first 4 (thorough: 6) points, 6 settings", [=] { adversarial(2, { 0, -1, -2, -3, -4, -5 }, t ? 6 : 4, true); });
    mc::add("long descent", "2 dimensions, values that can fall 3 times at the first 7 (thorough: 8) points", [=] { adversarial(2, { 0, -1, -2, -3 }, t ? 8 : 7, false); });
    mc::add("convex functions", "1-2 (thorough: 3) dimensions, 4 places of the optimum per coordinate, 3 starts, 3 functions, 3 precisions, 2 dividers, both directions",
            [=] { convex(t ? 3 : 2); });
    mc::add("larger", "1-12 dimensions, 12 (thorough: 100) functions of 3 degrees of ruggedness, 2 starts, 2 precisions, both directions", [=] { larger(t ? 100 : 12); });
    return mc::run(argc, argv);
}
