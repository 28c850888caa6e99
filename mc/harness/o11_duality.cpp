// O11: maximizing a function is minimizing its negation.
#include "opt_util.h"

using namespace opt;

namespace
{
void compare(int method, int variant, Record& r, const Point& start)
{
    ContinuousOptimizer::shared_ptr a(make(method, variant)), b(make(method, variant));
    env::reset(7);
    env::reset_random();
    Trace max = run(*a, r, start, true, 1);
    env::reset(7);
    env::reset_random();
    Trace min = run(*b, r, start, false, -1);
    MC_CHECK(max.points.size() == min.points.size() && max.points == min.points, a->get_name() << " evaluates other points to minimize -f than to maximize f: "
             << max.show() << " and " << min.show());
    Point result = min.result;
    // among points of the same value a random search may choose either
    if ((method == kRandom || method == kRandomWithOptimizer) && !max.end && !min.end && r.known.count(max.result) && r.known.count(min.result)
        && r.known[max.result] == r.known[min.result]) min.result = max.result;
    MC_CHECK(max.same(min), a->get_name() << " ends differently when minimizing -f than when maximizing f: " << max.show() << " and " << min.show());
    // the general interface is the same as the one for continuous parameters
    ContinuousOptimizer::shared_ptr c(make(method, variant));
    env::reset(7);
    env::reset_random();
    r.clear();
    Function f(&r, -1);
    ContinuousParametersArray p(start);
    IOptimizer& o = *c;
    int end = 0;
    try { o.Optimize(static_cast<const IObjectiveFunction&>(f), static_cast<IParameters*>(&p), false); }
    catch (Stop&) { end = 1; }
    catch (std::exception&) { end = 2; }
    MC_CHECK(r.points == max.points && end == max.end && (end || p.GetValues() == result), a->get_name() << " works differently through IOptimizer");
    mc::state(mc::mix(max.hash(), method));
    mc::outcome(mc::mix(max.hash(), method));
}

void adversarial(int method, int n, const std::vector<double>& menu, int budget)
{
    env::reset(1);
    no_plot();
    int variant = mc::choose(2, "settings");
    Point start(n);
    for (int i = 0; i < n; ++i) start[i] = 0.5 * i;
    Record r;
    r.stop = 120;
    r.f = chosen(menu, budget, menu[mc::choose(menu.size(), "then")]);
    compare(method, variant, r, start);
}

void known(int dimensions)
{
    env::reset(1);
    no_plot();
    int method = mc::choose(kMethods, "method");
    int variant = mc::choose(2, "settings");
    int n = 1 + mc::choose(dimensions, "dimension");
    Record r;
    r.stop = 3000;
    r.f = function(mc::choose(kFunctions, "function"));
    Point start(n);
    static const double at[] = { 0, 1.5, -0.7, 20 };
    int s = mc::choose(4, "start");
    for (int i = 0; i < n; ++i) start[i] = at[(s + i) % 4];
    compare(method, variant, r, start);
}

void larger(int functions)
{
    env::reset(1);
    no_plot();
    int method = mc::choose(kMethods, "method"), variant = mc::choose(2, "settings");
    static const int dimensions[] = { 1, 2, 5, 9 };
    int n = dimensions[mc::choose(4, "dimension")];
    static const double roughness[] = { 0, 0.05, 1 };
    double rough = roughness[mc::choose(3, "roughness")];
    Record r;
    r.stop = 5000;
    r.f = rugged(mc::choose(functions, "function"), rough);
    Point start(n);
    for (int i = 0; i < n; ++i) start[i] = 0.5 + i % 3;
    compare(method, variant, r, start);
}
}

int main(int argc, char** argv)
{
    bool t = opt::thorough(argc, argv);
    mc::describe("maximizing f and minimizing -f are run with the same random draws and compared in every evaluated point and in the result; f's values are chosen in "
                 "all ways from a small set for the first points, or are those of a known function; runs are cut off after a number of evaluations");
    std::cout.setstate(std::ios::badbit);
    static const char* names[] = { "steepest descent", "conjugate gradients", "Hooke-Jeeves", "Hleborodov-Rosenbrock", "Nelder-Mead", "annealing", "random search", "random search with optimizer" };
    for (int m = 0; m < kMethods; ++m)
        mc::add(names[m], "2 dimensions, 3 values at the first 6 (thorough: 8) points", [=] { adversarial(m, 2, { 0, 2, -1 }, t ? 8 : 6); });
    mc::add("functions", "8 methods, 2 settings, 1-3 dimensions (thorough: 4), 6 functions, 4 starts", [=] { known(t ? 4 : 3); });
    mc::add("larger", "8 methods, 2 settings, 1-9 dimensions, 8 (thorough: 60) functions of 3 degrees of ruggedness", [=] { larger(t ? 60 : 8); });
    return mc::run(argc, argv);
}
