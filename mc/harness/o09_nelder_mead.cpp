// O09: the bounded Nelder-Mead method stays within its bounds and returns the best point it has seen.
#include "opt_util.h"
#include <k52/optimization/bounded_nelder_mead.h>

using namespace opt;

namespace
{
struct Box { double low, high; };
const Box kBoxes[] = { { -10, 10 }, { 0, 1 }, { -0.25, 0.5 }, { 3, 3.125 }, { 0.1, 0.7 } };

void adversarial(int dimensions, const std::vector<double>& menu, int budget, int boxes)
{
    no_plot();
    size_t n = dimensions;
    const Box& b = kBoxes[mc::choose(boxes, "bounds")];
    static const double at[] = { 0, 1, 0.5, -0.5, 2 }; // in units of the box; the last two are outside
    Point start(n);
    int s = mc::choose(n == 1 ? 5 : 4, "start");
    for (size_t i = 0; i < n; ++i)
    {
        double u = at[(s + (s == 2 ? 0 : i)) % 5];
        start[i] = b.low + u * (b.high - b.low);
    }
    bool maximize = mc::choose(2, "maximize");
    static const double lengths[] = { 1, 0.125 };
    double l = lengths[mc::choose(2, "length")];
    Record r;
    double rest = maximize ? -9 : 9;
    if (mc::choose(2, "then")) rest = menu[0];
    r.f = chosen(menu, budget, rest);
    BoundedNelderMead o(l, 1e-3, b.low, b.high);
    MC_CHECK(o.get_lower_bound() == b.low && o.get_upper_bound() == b.high, "the bounds are " << o.get_lower_bound() << " and " << o.get_upper_bound());
    Point result = optimize(o, r, start, maximize);
    MC_CHECK(!r.points.empty(), "nothing was evaluated");
    for (size_t k = 0; k < r.points.size(); ++k)
        for (size_t i = 0; i < n; ++i)
        {
            double x = r.points[k][i], slack = 1e-12 * (1 + std::fabs(b.high));
            MC_CHECK(x >= b.low - slack && x <= b.high + slack, "the function was evaluated at " << mc::show(r.points[k]) << ", outside of [" << b.low << ", " << b.high << "]");
        }
    MC_CHECK(r.has(result), "the result " << mc::show(result) << " was never evaluated");
    MC_CHECK(r.known[result] == r.best(maximize), "the result " << mc::show(result) << " has the value " << r.known[result] << ", the best value seen is " << r.best(maximize));
    mc::state(hash(result));
    mc::outcome(hash(result, mc::hash_doubles(r.values)));
}

// the first simplex has n+1 distinct vertices even in a corner of the bounds
void simplex(int dimensions)
{
    no_plot();
    size_t n = 1 + mc::choose(dimensions, "dimension");
    const Box& b = kBoxes[mc::choose(5, "bounds")];
    unsigned corner = 0, total = 1;
    for (size_t i = 0; i < n; ++i) total *= 4;
    corner = mc::choose(total, "start");
    static const double at[] = { 0, 1, 0.25, 0.9 };
    Point start(n);
    unsigned c = corner;
    for (size_t i = 0; i < n; ++i, c /= 4) start[i] = b.low + at[c % 4] * (b.high - b.low);
    double l = (mc::choose(2, "length") ? 0.05 : 0.2) * (b.high - b.low);
    // the values are a strictly monotonic function, so the method must leave the start if it is not optimal
    Point direction(n, 1);
    int flip = mc::choose(1 << n, "direction");
    for (size_t i = 0; i < n; ++i) if (flip >> i & 1) direction[i] = -1;
    Record r;
    double scale = b.high - b.low;
    r.f = [=](const Point& p) { double s = 0; for (size_t i = 0; i < n; ++i) s += direction[i] * (p[i] - b.low) / scale; return s; };
    r.limit = 2000000;
    BoundedNelderMead o(l, 1e-9, b.low, b.high);
    Point result = optimize(o, r, start, false);
    double best = 0;
    for (size_t i = 0; i < n; ++i) if (direction[i] < 0) best -= 1;
    double got = r.known.count(result) ? r.known[result] : 1e9;
    MC_CHECK(r.known.count(result), "the result was never evaluated");
    bool optimal = r.value(start) <= best + 1e-6;
    MC_CHECK(optimal || got < r.value(start), "from " << mc::show(start) << " in [" << b.low << ", " << b.high << "] no better point than the start was found for a linear function");
    if (n == 1) MC_CHECK(got <= best + 1e-4, "the minimum of a linear function in [" << b.low << ", " << b.high << "] was searched at " << mc::show(result));
    for (const Point& p : r.points)
        for (size_t i = 0; i < n; ++i) MC_CHECK(p[i] >= b.low - 1e-12 * (1 + std::fabs(b.high)) && p[i] <= b.high + 1e-12 * (1 + std::fabs(b.high)), "evaluated outside of the bounds: " << mc::show(p));
    mc::outcome(hash(result, corner));
}

// more dimensions and longer runs
void larger(int functions)
{
    no_plot();
    static const int dimensions[] = { 1, 2, 5, 8 };
    size_t n = dimensions[mc::choose(4, "dimension")];
    const Box& b = kBoxes[mc::choose(5, "bounds")];
    int k = mc::choose(functions, "function");
    static const double roughness[] = { 0, 0.05, 1 };
    double rough = roughness[mc::choose(3, "roughness")];
    bool maximize = mc::choose(2, "maximize");
    Point start(n);
    for (size_t i = 0; i < n; ++i) start[i] = b.low + (b.high - b.low) * (i % 4) / 3;
    Record r;
    r.limit = 2000000;
    // in units of the box
    std::function<double(const Point&)> f = rugged(k, rough);
    r.f = [=](const Point& p) {
        Point u(p);
        for (double& x : u) x = -4 + 8 * (x - b.low) / (b.high - b.low);
        return maximize ? -f(u) : f(u);
    };
    BoundedNelderMead o((b.high - b.low) / 4, mc::choose(2, "precision") ? 1e-3 : 1e-10, b.low, b.high);
    Point result = optimize(o, r, start, maximize);
    for (const Point& p : r.points)
        for (double x : p)
            MC_CHECK(x >= b.low - 1e-12 * (1 + std::fabs(b.high)) && x <= b.high + 1e-12 * (1 + std::fabs(b.high)), "evaluated outside of the bounds: " << mc::show(p));
    MC_CHECK(r.has(result), "the result " << mc::show(result) << " was never evaluated");
    MC_CHECK(r.known[result] == r.best(maximize), "the result " << mc::show(result) << " has the value " << r.known[result] << ", the best value seen is " << r.best(maximize));
    mc::state(hash(result));
    mc::outcome(hash(result, r.points.size()));
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("the function's values at the first distinct points are chosen in all possible ways from a small set, later points have one value; "
                 "bounds, starting points (inside, on and outside the bounds), directions and simplex sizes are enumerated");
    std::cout.setstate(std::ios::badbit);
    mc::add("1 dimension", "3 values at the first 7 (thorough: 9) points, 5 bounds, 5 starts, 2 sizes, both directions", [=] { adversarial(1, { 0, 1, -2 }, t ? 9 : 7, 5); });
    mc::add("2 dimensions", "3 values at the first 8 (thorough: 9) points, 3 bounds (thorough: 5), 4 starts, 2 sizes, both directions", [=] { adversarial(2, { 0, 1, -2 }, t ? 9 : 7, t ? 5 : 3); });
    mc::add("3 dimensions", "2 values at the first 10 (thorough: 13) points, 3 bounds, 4 starts, 2 sizes, both directions", [=] { adversarial(3, { 0, 1 }, t ? 13 : 10, 3); });
    mc::add("4 dimensions", "2 values at the first 10 (thorough: 13) points, 3 bounds, 4 starts, 2 sizes, both directions", [=] { adversarial(4, { 0, 1 }, t ? 13 : 10, 3); });
    mc::add("linear functions", "1-3 (thorough: 4) dimensions, 5 bounds, all starts from 4 places per coordinate, all signs of the slopes, 2 sizes", [=] { simplex(t ? 4 : 3); });
    mc::add("larger", "1-8 dimensions, 5 bounds, 12 (thorough: 100) functions of 3 degrees of ruggedness, 2 precisions, both directions", [=] { larger(t ? 100 : 12); });
    return mc::run(argc, argv);
}
