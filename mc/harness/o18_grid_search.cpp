// O18: grid search.
#include "opt_util.h"
#include "params_util.h"
#include <k52/optimization/grid_search.h>
#include <k52/optimization/params/int_parameter.h>

using namespace opt;

namespace
{
// the class itself cannot be instantiated
class Grid : public GridSearch
{
public:
    Grid(double precision, double lower, double upper) : GridSearch(precision, lower, upper) {}
    using GridSearch::Optimize;
    virtual void Optimize(const IObjectiveFunction& f, IParameters* p, bool) { Optimize(f, p); }
};

struct Box { double lower, upper, precision; int points; };
const Box kBoxes[] = { { 0, 1, 1, 2 }, { -1, 1, 1, 3 }, { 0, 1, 0.5, 3 }, { 2, 2, 0.25, 1 }, { -0.5, 0.4, 0.5, 2 }, { 0, 0.75, 1, 1 }, { -4, 3.9375, 2, 4 }, { 0.125, 0.625, 0.125, 5 } };
const int kBoxCount = sizeof kBoxes / sizeof *kBoxes;

void grid(int max_dimension, int max_points, int runs)
{
    const Box& box = kBoxes[mc::choose(kBoxCount, "box")];
    Grid g(box.precision, box.lower, box.upper);
    uint64_t h = mc::hash_double(box.lower, box.points);
    for (int run = 0; run < runs; ++run)
    {
        int dimension = mc::choose(max_dimension + 1, "dimension");
        int total = 1;
        for (int i = 0; i < dimension; ++i) total *= box.points;
        if (total > max_points) { mc::outcome(1); return; }
        std::set<Point> expected;
        for (int i = 0; i < total; ++i)
        {
            Point p(dimension);
            for (int j = 0, k = i; j < dimension; ++j, k /= box.points) p[j] = box.lower + k % box.points * box.precision;
            expected.insert(p);
        }
        Record r;
        r.f = chosen(std::vector<double>{ -2, -1, 3 }, 1000, 0);
        Function f(&r);
        ContinuousParametersArray p(Point(dimension, 17.));
        g.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p));
        MC_CHECK((int) r.points.size() == total, r.points.size() << " evaluations for a grid of " << total << " points");
        MC_CHECK(std::set<Point>(r.points.begin(), r.points.end()) == expected, "the points of the grid are not those evaluated");
        Point q = p.GetValues();
        MC_CHECK(r.has(q), "the result " << mc::show(q) << " was not evaluated");
        MC_CHECK(r.known[q] == r.best(true), "the result " << mc::show(q) << " has the value " << r.known[q] << ", the best is " << r.best(true));
        mc::state(mc::hash_doubles(r.values, h));
        h = mc::hash_doubles(q, h);
    }
    mc::outcome(h);
}

void far_grid()
{
    // many points, one of which is better than the others
    const int points = 7, dimension = 1 + mc::choose(3, "dimension");
    Point best(dimension);
    for (double& x : best) x = -3 + mc::choose(points, "best");
    Record r;
    r.f = [=](const Point& p) { return p == best ? 1. : 0.; };
    Function f(&r);
    Grid g(1, -3, 3);
    ContinuousParametersArray p(Point(dimension, 0.));
    g.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p));
    MC_CHECK(p.GetValues() == best, "the result is " << mc::show(p.GetValues()) << ", not the best point of the grid " << mc::show(best));
    mc::outcome(mc::hash_doubles(best));
}

void refusals()
{
    Record r;
    r.f = [](const Point&) { return 0; };
    Function f(&r);
    int k = mc::choose(5, "what");
    ContinuousParametersArray p(Point(2, 1.));
    if (k == 4)
    {
        // more points than can be counted
        static const struct { double upper; int variables; } many[] = { { 1, 64 }, { 1, 65 }, { 3, 32 }, { 3, 40 }, { 15, 16 }, { 255, 8 }, { 65535, 4 }, { 65535, 5 }, { 2, 41 }, { 2, 100 }, { 99999, 4 }, { 1, 63 } };
        int i = mc::choose(sizeof many / sizeof *many, "size");
        ContinuousParametersArray huge(Point(many[i].variables, 1.));
        Grid g(1, 0, many[i].upper);
        bool refused = false;
        try { g.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&huge)); }
        catch (const std::length_error&) { refused = true; }
        MC_CHECK(refused, "a grid of " << many[i].upper + 1 << " to the " << many[i].variables << " points was not refused");
        MC_CHECK(huge.GetValues() == Point(many[i].variables, 1.), "a refused search changed the parameters");
    }
    else if (k == 3)
    {
        Grid g(1, 0, 1);
        IntParameter discrete(0, 3);
        bool refused = false;
        try { g.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&discrete)); }
        catch (const std::runtime_error&) { refused = true; }
        MC_CHECK(refused, "discrete parameters were not refused");
    }
    else
    {
        static const Box bad[] = { { 1, 0, 0.5, 0 }, { 1, 0, 1, 0 }, { 0, 2, -1, 0 } };
        Grid g(bad[k].precision, bad[k].lower, bad[k].upper);
        bool refused = false;
        try { g.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p)); }
        catch (const std::invalid_argument&) { refused = true; }
        MC_CHECK(refused, "a grid without points was not refused");
        MC_CHECK(p.GetValues() == Point(2, 1.), "a refused search changed the parameters");
    }
    mc::step();
    MC_CHECK(r.points.empty(), "a refused search evaluated the function");
    mc::outcome(k);
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("all values of the objective function from a menu of three at all points of small grids, all places of the best point in larger ones");
    int n = t ? 12 : 9;
    mc::add("grids", "8 boxes, up to 3 variables, all values at up to " + std::to_string(n) + " points", [=] { grid(3, n, 1); });
    mc::add("consecutive searches", "2 searches with one object, up to 2 variables, all values at up to 4 points each", [=] { grid(2, 4, 2); });
    mc::add("larger grids", "7 points in 1-3 variables, every place of the best", far_grid);
    mc::add("refusals", "bounds and kinds", refusals);
    opt::no_plot();
    return mc::run(argc, argv);
}
